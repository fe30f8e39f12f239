#!/bin/bash
# builds the symbolic executor, /repo's bitcode and native objects, and all harnesses (content-addressed cache in build/)
set -e
cd "$(dirname "$0")"
bash engine/build.sh
python3 bin/prebuild.py
