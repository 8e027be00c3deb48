#!/bin/sh
# A compiler wrapper: counts how often each branch of the parser is taken.
case " $* " in
  *" --crate-name asciidoc_parser "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Ccodegen-units=1 ;;
esac
exec "$@"
