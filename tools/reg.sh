#!/bin/bash
# deductive regression over all contract files
cd /verif
ls contracts/C??.py | sed 's/.*\(C..\).py/\1/' | xargs -P ${P:-6} -I{} bash -c 'echo "{} $(timeout 880 ./lv {} 2>&1 | tail -1)"'
