#!/bin/bash
# developer front end: try.sh PROP [scale]
cd /verif && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python concrete/run.py $1 ${3:-quick} 1 0 1 ${2:-0.2} 300 > /tmp/out.$1.json; python3 - <<P
import json
d=json.load(open('/tmp/out.$1.json'))
print(d["evaluations"],d["nontrivial"],d["distinct"],d["checks"])
for f in d["failures"]: print(f["check"],json.dumps(f["case"]),"\n   ",f["reason"][:1500])
P
