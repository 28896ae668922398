#!/bin/bash
# The compiler, for cargo: ikal and its generic parts are instrumented, everything else is not.
# What the instrumentation calls is in src/probe.rs.
rustc=$1
shift
case " $* " in
*" --crate-name ikal "* | *" --crate-name ikal_ops "*)
    exec "$rustc" "$@" '-Cpasses=sancov-module,function(tsan)' \
        -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores \
        -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memory-accesses=0 \
        -Cllvm-args=-tsan-instrument-memintrinsics=0 -Ccodegen-units=8
    ;;
*) exec "$rustc" "$@" ;;
esac
