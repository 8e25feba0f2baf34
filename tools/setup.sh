#!/bin/sh
# Builds every kind of worker once, so that the Go build cache is warm and a
# broken toolchain shows up here.
cd "$(dirname "$0")/.." && exec python3 tools/check.py --build
