#!/bin/bash
# builds the engine, the IR of all harnesses and the native replay binary from the current tree
cd "$(dirname "$0")" || exit 1
exec python3 tools/build.py engine+ir+native
