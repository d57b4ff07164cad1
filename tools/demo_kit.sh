#!/bin/sh
# builds demo.cpp against the sources in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cd "$d" || exit 2
g++ -std=c++17 -O1 -g ${EXTRA:-} -I"$repo/devel/include" -I"$here" "$here/demo.cpp" -o demo -pthread \
  -Wl,--wrap=geteuid,--wrap=fanotify_init,--wrap=fanotify_mark,--wrap=open_by_handle_at || exit 2
timeout 100 ./demo
