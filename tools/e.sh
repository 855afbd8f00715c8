#!/bin/bash
# e.sh BIN [FLAVOUR] [CRATE]: compile and run one harness binary, showing only what matters
cd "$(dirname "$0")/.." || exit 1
VMON_FAILS=${VMON_FAILS:-1000} timeout ${T:-900} bash tools/dev.sh ${3:-hc} $1 ${2:-native} > /tmp/e.$1 2>&1
grep -E "^error" -A9 /tmp/e.$1 | head -${N:-70}; grep -E "^\[C|rc=|^thread.*panicked" /tmp/e.$1 | head -30
