#!/bin/bash
# nothing to compile: the code under test is imported from /repo's working tree and the
# specifications are interpreted by TLC; this only proves that the tools are there.
set -e
. /opt/vp/env.sh
/opt/venv/bin/python -c "import torch, compressai, torchmetrics"
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -h >/dev/null 2>&1 || true
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p "$(dirname "$0")/evidence" "$(dirname "$0")/out"
echo ready
