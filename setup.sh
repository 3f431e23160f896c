#!/bin/bash
# Builds the harness (and /repo's crates with the real LLVM backend) once.
set -e
cd /verif && . ./env.sh
mkdir -p target evidence replays
python3 tools/fresh.py
cd harness && cargo build --offline && cd .. && python3 tools/fresh.py record
