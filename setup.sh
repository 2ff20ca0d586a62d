#!/bin/bash
# Builds the engine, the IR of every harness and the native replay binaries into /verif/.build.
set -e
cd "$(dirname "$0")"
exec python3 check.py --setup
