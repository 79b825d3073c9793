#!/bin/bash
# run.sh <property id> [options of the harness]: builds the check from /repo's working tree and runs it
id=$1; shift
root=$(cd "$(dirname "$0")" && pwd)
b=$root/build
mkdir -p "$b"
export CC=gcc CXX=g++
log=$b/$id.log
{ [ -f "$b/build.ninja" ] || cmake -S "$root" -B "$b" -G Ninja; } >"$log" 2>&1 &&
  ninja -C "$b" "$id" >>"$log" 2>&1
if [ $? -ne 0 ]; then tail -40 "$log"; echo "$id: build failed"; exit 2; fi
exec "$b/$id" --root "$root" "$@"
