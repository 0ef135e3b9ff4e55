#!/bin/bash
# Builds the harnesses once, from the committed files and /repo's tree. Offline.
cd "$(dirname "$0")/.." || exit 1
exec python3 -c '
import sys; sys.path.insert(0, "tools")
import lib
lib.build("harness", "lrp-harness")
lib.build("wharness", "wop-harness")
'
