#!/bin/bash
# Nothing to build: verifies that the toolchain the checks need is present.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/pvenv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
test -r /opt/veriftools/tla/tla2tools.jar && test -r /opt/veriftools/tla/CommunityModules-deps.jar || { echo "TLC jars missing"; exit 1; }
java -version >/dev/null 2>&1 || { echo "java missing"; exit 1; }
PYTHONDONTWRITEBYTECODE=1 /opt/pvenv/bin/python -c "import numpy, scipy" || exit 1
mkdir -p evidence
echo ok
