#!/bin/bash
# Run with the tree as working directory: exit 0 when the behaviour is right.
H=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/inc/obake"
sed -e 's/@obake_VERSION@/0.9.0/; s/@obake_VERSION_M[A-Z]*OR@/0/; s/@obake_VERSION_PATCH@/0/' -e '/^@.*@$/d' "$R/config.hpp.in" > "$W/inc/obake/config.hpp"
cc() { g++ -std=c++20 -DOBAKE_STATIC_BUILD -I"$W/inc" -I"$H/shim" -I"$R/include" -I"$R" "$@"; }
