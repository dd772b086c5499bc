#!/bin/bash
# setup.sh -- once, in a fresh sandbox: build the engine and warm the caches
cd "$(dirname "$0")" || exit 1
command -v z3-new >/dev/null || { echo "z3-new is missing"; exit 1; }
bash ./build.sh
