#!/bin/sh
# Builds the fact extractor and the facts of the current tree; every check also does this itself
# when it finds nothing built.
cd "$(dirname "$0")" || exit 1
exec python3 -c '
import sys
sys.path.insert(0, "lib")
import facts
try:
    f, i = facts.build()
    print("bodies", len(f["bodies"]), i)
except facts.NoFacts as e:
    print("not analysable now:", e)
'
