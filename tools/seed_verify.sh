#!/bin/bash
# tools/seed_verify.sh WORKDIR ID...: confirms planted bugs in a scratch copy of /repo made under WORKDIR:
# the demo passes without the patch; with it the crate builds, all stable tests pass and the demo fails.
w=$(realpath -m "$1"); shift
here=$(cd "$(dirname "$0")/.." && pwd)
r=$w/repo
[ -d "$r/.git" ] || { mkdir -p "$r" && git clone -q /repo "$r" && cp /repo/Cargo.lock "$r/"; }
(cd "$r" && git fetch -q /repo && git reset -q --hard "$(git -C /repo rev-parse HEAD)")
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_INCREMENTAL=0
for id in "$@"; do
    s=$here/seeded/$id; d=$w/demo; mkdir -p "$d"; find "$d" -type f -delete; cp "$s"/demo.* "$d/"
    cd "$r" && git checkout -q -- .
    bash "$d/demo.sh" >"$w/clean.log" 2>&1; c=$?
    if ! git apply "$s/patch.diff" 2>"$w/apply.log"; then echo "$id DOES-NOT-APPLY"; continue; fi
    find src -type f -exec touch {} +
    cargo test --workspace --no-fail-fast --offline -- --test-threads 4 >"$w/test.log" 2>&1
    python3 /opt/vp/results.py "$w/res.json" "cargo:$w/test.log" >/dev/null 2>&1
    t=$(python3 - "$w/res.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
try: p=set(json.load(open(sys.argv[1]))['passed'])
except Exception as e: p=set()
m=[x for x in b if x not in p]
print('tests-ok' if not m else 'TESTS-FAIL(%d: %s)'%(len(m),m[0]))
PY
)
    bash "$d/demo.sh" >"$w/bug.log" 2>&1; e=$?
    v=OK; [ "$c" = 0 ] && [ "$e" != 0 ] && [ "$t" = tests-ok ] || v=BAD
    echo "$id $v clean=$c bug=$e $t | $(grep -m1 -E 'panicked|error' "$w/bug.log" | cut -c1-100) | $(tail -1 "$w/clean.log" | cut -c1-100)"
    git checkout -q -- .
    find src -type f -exec touch {} +
done
