#!/bin/bash
# Builds the engine and checks that it proves what is true and refutes what is false.
set -e
cd "$(dirname "$0")/.."
exec ./check.py --selftest
