#!/bin/sh
python3 -c "
import json,sys
for u in json.load(open('/verif/evidence/$1.json'))['coverage']['unit_results']: print(u['unit'],u['status'],u['seconds'],u['obligations'],u['note'][:100])"
