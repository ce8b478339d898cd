#!/bin/bash
# tryseed.sh HARNESS ID... : does the check catch seeded/ID (by mutation of a copy)
H=$1; shift
for i in "$@"; do
 P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
 echo "#### $i"
 python3 /verif/tools/mutate.py - /verif/seeded/$i/patch.diff '' $H $P | grep -E '^==|VIOLATION|KNOWN|error' | cut -c1-300
done
