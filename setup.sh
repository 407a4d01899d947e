#!/bin/bash
# The checks compile their harnesses from /repo's working tree themselves; nothing is prebuilt here.
set -e
cd "$(dirname "$0")"
mkdir -p evidence .build
g++ --version >/dev/null; clang++ --version >/dev/null; python3 -c 'import json'
