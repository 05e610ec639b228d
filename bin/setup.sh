#!/bin/bash
# Nothing is kept between runs: every check builds its harness from /repo's
# working tree. This only makes sure the tools are there.
set -e
for t in g++ python3 mpicxx.openmpi; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p /verif/build /verif/evidence
