#!/bin/bash
python3 - $1 <<'P'
import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
def f(o):
    if isinstance(o,dict):
        if 'scenario' in o and 'paths' in o: print(o['scenario'],o['paths'],o.get('wall_s'), o.get('exhaustive'))
        for v in o.values(): f(v)
    elif isinstance(o,list):
        for v in o: f(v)
f(e)
P
