#!/bin/bash
# Nothing to build: checks that the interpreters the checks use can load the
# tree under test and the simulator.
cd "$(dirname "$0")" || exit 1
for py in /opt/venv/bin/python /opt/venv-nolxml/bin/python; do
  $py -B -c 'import sys; sys.path.insert(0, "."); sys.path.insert(0, "/repo")
from dst import sched, gen, model, core, world; world.mods()' || exit 1
done
