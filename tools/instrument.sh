#!/bin/bash
# rustc wrapper: coverage callbacks (harness/src/cov.rs) in the code under test, and only there
rustc=$1
shift
prev=
for a in "$@"; do
    if [ "$prev" = --crate-name ] && [ "$a" = scilla_parser ]; then
        # (checks of the standard library that compare addresses would make coverage differ from run to run)
        export RUSTC_BOOTSTRAP=1
        exec "$rustc" "$@" -Zub-checks=no -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares
    fi
    prev=$a
done
exec "$rustc" "$@"
