#!/bin/bash
# ts.sh ID UNIT SECS : random search alone with a seeded change applied (development aid)
git -C /repo apply /verif/seeded/$1/patch.diff && timeout 400 python3-vt /verif/tools/trysearch.py "$2" $3; git -C /repo checkout -- .
