#!/bin/bash
# Run in the repository's top directory; exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
srcs=$(sed -n 's|^// SRC: ||p' "$here/demo.cc")
flags=$(sed -n 's|^// FLAGS: ||p' "$here/demo.cc")
compile() { g++ -std=c++20 -O1 -w $2 -iquote cxx -c "$1" -o "$3/$(echo "$1" | tr / _).o"; }
export -f compile
{ echo "$here/demo.cc"; for s in $srcs; do echo "cxx/$s"; done; } |
  xargs -P 8 -I{} bash -c 'compile "$@"' _ {} "$flags" "$tmp" || exit 3
g++ $flags "$tmp"/*.o -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
