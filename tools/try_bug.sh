#!/bin/bash
# tools/try_bug.sh WORKDIR [-c "C01 C02"] [-a "--cases N ..."] ID...: runs the checks of the planted bugs' properties
# (or those given with -c) against a scratch copy of /repo with the bug applied, under WORKDIR.
w=$(realpath -m "$1"); shift
here=$(cd "$(dirname "$0")/.." && pwd)
checks= args=
while getopts c:a: o; do case $o in c) checks=$OPTARG ;; a) args=$OPTARG ;; *) exit 2 ;; esac; done
shift $((OPTIND - 1))
r=$w/repo v=$w/verif
[ -d "$r/.git" ] || { mkdir -p "$r" && git clone -q /repo "$r"; }
(cd "$r" && git fetch -q /repo && git reset -q --hard "$(git -C /repo rev-parse HEAD)")
mkdir -p "$v"
[ -d "$v/.build" ] || cp -a "$here/.build" "$v/.build"
mkdir -p "$v/tools"
cp -a "$here/harness" "$here/vendor" "$here/corpus" "$here/run.sh" "$here/known_findings.txt" "$v/"
cp -a "$here/tools/instrument.sh" "$v/tools/"
sed -i "s|path = \"/repo\"|path = \"$r\"|" "$v/harness/Cargo.toml" "$v/harness/plain/Cargo.toml"
for id in "$@"; do
    d=$here/seeded/$id; [ -d "$d" ] || d=$here/planted_grammar/$id
    (cd "$r" && git checkout -q -- . && git apply "$d/patch.diff") || { echo "$id DOES-NOT-APPLY"; continue; }
    p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
    for c in ${checks:-$p}; do
        t0=$SECONDS
        o=$(VERIF_REPO=$r "$v/run.sh" "$c" --tier quick --seed 1 $args 2>&1); e=$?
        k=missed; [ $e = 1 ] && echo "$o" | grep -q "^VIOLATION property=$c" && k=CAUGHT
        echo "$id $c $k exit=$e $((SECONDS - t0))s | $(echo "$o" | grep -v '^VIOLATION' | head -1 | cut -c1-140)"
    done
    (cd "$r" && git checkout -q -- .)
done
