#!/bin/bash
# Builds what the checks need from the committed files of /verif (offline).
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build"
tmp=$(mktemp "$here/build/shim.XXXXXX")
gcc -O1 -fPIC -shared -w -o "$tmp" "$here/mc/shim.c" -ldl
mv -f "$tmp" "$here/build/shim.so"
