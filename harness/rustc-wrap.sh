#!/bin/sh
# RUSTC_WRAPPER: instrument only the code under test (jotdown and the shim that instantiates its
# generics) with sanitizer coverage: edge callbacks (coverage feedback and logical step counting)
# and comparison callbacks (constants the code compares with).
RUSTC="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  jotdown|shim)
    exec "$RUSTC" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 ;;
  *) exec "$RUSTC" "$@" ;;
esac
