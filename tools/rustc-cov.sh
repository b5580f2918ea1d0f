#!/bin/sh
# RUSTC_WRAPPER: instruments the branches of the crate under test and of its tree library
case " $* " in
  *" --crate-name postgresql_cst_parser "*|*" --crate-name cstree "*) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$@"
