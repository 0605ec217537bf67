#!/bin/bash
# (development) rebuild only the IR
B=$(cd "$(dirname "$0")/.." && pwd)/build; rm -f $B/stamp
exec bash "$(dirname "$0")/build_ir.sh" "$B"
