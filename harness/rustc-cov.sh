#!/bin/bash
# rustc for the harness build: the code under test gets coverage and comparison
# callbacks (src/cov.rs); everything else is compiled as usual.
rustc=$1
shift
case " $* " in
*" --crate-name rx509 "*)
    exec "$rustc" "$@" -Ccodegen-units=1 -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$rustc" "$@"
