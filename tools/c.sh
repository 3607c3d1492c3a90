#!/bin/bash
# run checks strictly and show only interesting lines
cd /verif
for p in "$@"; do VSX_STRICT=1 VSX_VERBOSE=1 ./check.sh $p | grep -v "conc 0 solver [0-9]\.[0-9]s wall [0-9]\.[0-9]s $" | cut -c1-1800; done
