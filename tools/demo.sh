#!/bin/bash
# run in the repository; builds the program beside this script against it and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
clang++-18 -std=c++20 -O1 -g -fno-exceptions -fno-rtti -w -DRPP_RELWITHDEBINFO_BUILD -I"$repo" \
    "$here/demo.cpp" "$repo/rpp/impl/unify.cpp" "$repo/rpp/pos/unify.cpp" -lpthread -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
