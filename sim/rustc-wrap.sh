#!/bin/bash
# cargo calls this as: rustc-wrap.sh RUSTC ARGS... Only the library under test gets the callbacks that
# let the scheduler preempt it at every branch, load and store.
case " $* " in
*" --crate-name financelib "*) exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-pc-table -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores ;;
*) exec "$@" ;;
esac
