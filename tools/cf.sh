#!/bin/bash
# demo-only confirmation of planted bugs, in parallel
cd /verif
printf '%s\n' "$@" | xargs -P 3 -I{} python3 tools/plant.py confirm {} --demo
