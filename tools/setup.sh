#!/bin/bash
# Builds the MIR driver and warms the dependency cache.
set -e
cd "$(dirname "$0")/.." && HERE="$PWD"
mkdir -p .cache
tools/dump.sh "$HERE/.cache/warm.json" dev
tools/dump.sh "$HERE/.cache/warm.json" release
rm -f .cache/warm.json
