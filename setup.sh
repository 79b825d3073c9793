#!/bin/bash
# builds the libraries that all checks share, so that the first check does not pay for it
root=$(cd "$(dirname "$0")" && pwd)
export CC=gcc CXX=g++
mkdir -p "$root/build" "$root/evidence"
cmake -S "$root" -B "$root/build" -G Ninja && ninja -C "$root/build" vf opt img
