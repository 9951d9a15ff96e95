#!/bin/bash
# Builds the explorer once, to warm the build cache.
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$ROOT/env.sh"
mkdir -p "$ROOT/build" "$ROOT/evidence"
cd "$ROOT/mc" && go build -mod=readonly -o "$ROOT/build/mc.setup" . && rm -f "$ROOT/build/mc.setup"
