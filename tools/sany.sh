#!/bin/sh
# parse the named modules
cd "$(dirname "$0")/../spec" || exit 1
for m in "$@"; do java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla 2>&1 | grep -v "^Parsing\|^Semantic proc\|^$\|SANY2\|^Linting"; done
