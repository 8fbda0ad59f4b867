#!/bin/bash
# Every module of the specification parses.
cd "$(dirname "$0")/../spec"
bad=0
for f in *.tla; do
    if tla-sany $f 2>&1 | grep -qiE "\*\*\* (Errors|Abort)|Multiply-defined|could not"; then echo "BAD $f"; bad=1; fi
done
exit $bad
