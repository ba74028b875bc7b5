#!/bin/bash
# only.sh PROP REGEX: run some units and list their results
cd /verif; timeout 890 python3 vf/vf.py $1 --only="${2:-.}" $3 2>&1 | tail -${T:-12} | cut -c1-${W:-600}; python3 -c "
import json;[print(r['unit'],r['status'],r['discharged'],r['obligations'],r['seconds'],r['back_end'][:8],r['note'][:200]) for r in json.load(open('/tmp/w/ev.json'))['coverage']['unit_results']]"
