#!/bin/bash
# Builds the simulator once (checks rebuild it from /repo's current tree).
cd "$(dirname "$0")/.." && mkdir -p evidence && ./tools/build.sh full lean par ser
