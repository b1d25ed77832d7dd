#!/bin/bash
# prebuild the replay harness (std and constant-memory variants) so that checks start warm
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
python3 check.py --setup
