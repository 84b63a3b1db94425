#!/bin/bash
# Run with the repository as working directory, after its build: exit 0 if the property holds there.
here=$(cd "$(dirname "$0")" && pwd)
L=$PWD/_build/out
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ -O1 -g -w -std=gnu++17 -I"$L/genfiles" -I"$PWD" -I"$here" "$here/demo.cc" -o "$tmp/demo" \
  -Wl,--start-group "$L"/lib*.a -Wl,--end-group -lprotobuf -lpthread || exit 98
cd "$tmp" && timeout 200 ./demo
