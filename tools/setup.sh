#!/bin/bash
# Compiles the harness once, with and without the race detector, so that the
# checks find a warm build cache. Nothing is kept but the cache.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, '.')
sys.dont_write_bytecode = True
import vlib
c = vlib.Check('setup')
try:
    c.build()
    c.build(race=True)
finally:
    c.cleanup()
P
