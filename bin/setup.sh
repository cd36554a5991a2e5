#!/bin/bash
# Checks that what the checks need is there. Every check builds from /repo's working tree itself.
set -e
cd "$(dirname "$0")/.."
cargo --version
rustc --version
python3 -c 'import json, subprocess, concurrent.futures'
mkdir -p out evidence
cargo +nightly --version || echo "no nightly: the AddressSanitizer configuration will be left out"
