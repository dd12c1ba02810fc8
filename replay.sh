#!/bin/bash
# replay.sh <file> [-v] : rebuild and run exactly the recorded execution again.
BIN=$("$(dirname "$0")/build.sh") || exit 2
exec "$BIN" replay "$@"
