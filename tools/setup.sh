#!/bin/bash
# Nothing has to persist: every check builds what it needs. This only shows early that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence .build
cargo kani --version
cargo --version
python3 -c 'import json'
