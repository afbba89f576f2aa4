#!/bin/bash
# Checks that the tools the checks need are there and warms the Go build cache. Leaves nothing behind in /verif or /repo.
set -e
cd "$(dirname "$0")/.."
test -f /opt/veriftools/tla/tla2tools.jar
java -version 2>/dev/null
python3 - <<'P'
import sys
sys.path.insert(0, 'bin')
from vlib import core
c = core.Ctx('setup')
try:
    c.driver()
    c.go_build(c.path('receiver'), './cli/receiver')
    c.go_build(c.path('packet-gen'), './cli/packet-gen')
finally:
    c.cleanup()
P
echo setup ok
