#!/bin/bash
# usage: check.sh PROP [quick|thorough]
cd "$(dirname "$0")" && exec python3 tools/check.py "$@"
