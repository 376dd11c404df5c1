#!/bin/bash
# Builds the symbolic executor and the forwarding headers, offline.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
make -s -C engine OUT="$PWD/build"
python3 tools/mkfwd.py build/fwd
