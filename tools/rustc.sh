#!/bin/sh
# cargo's RUSTC_WRAPPER: the library under test, and the crate its generic code is compiled in, get a call
# on every edge of their control flow; simcore/src/code.rs makes scheduling points of them.
rustc=$1
shift
case " $* " in
*" --crate-name tmf "* | *" --crate-name sim "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc
    ;;
esac
exec "$rustc" "$@"
