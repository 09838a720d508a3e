#!/bin/bash
# Builds everything once, so that checks only rebuild what depends on /repo's sources.
cd "$(dirname "$0")" || exit 2
rm -rf "$PWD/target/tmp"
./check.sh --build advcheck && ./check.sh --build cxxcheck && ./check.sh --build defs
