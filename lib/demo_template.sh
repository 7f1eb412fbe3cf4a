#!/bin/bash
# exit 0: behaves as stated; nonzero: the property is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
B=$PWD/_build
gcc -w -g -std=gnu11 -include config.h -I/usr/include/raptor2 -I/usr/include/rasqal -DHAVE_CONFIG_H -D_GNU_SOURCE -I"$B/src" -I"$PWD/src" -I"$B/src/utils" -I"$PWD/src/utils" \
  "$d/demo.c" -o "$t/demo" -L"$B/src" -L"$B/src/utils" -ldlite -ldlite-utils -lm || exit 2
cd "$t" || exit 2
LD_LIBRARY_PATH="$B/src:$B/src/utils" DLITE_USE_BUILD_ROOT=YES timeout 60 "$t/demo"
