#!/bin/bash
# run harness modules and summarise
for c in "$@"; do /opt/venv/bin/python /verif/harness/run.py $c --out /tmp/$c.json ${HARGS}; python3 - <<P
import json;d=json.load(open('/tmp/$c.json'));print('$c',d['evaluations'],d['wall'],'CUT' if d['time_cut'] else '',{k:(v['ok'],v['skip'],v['bad'],v['sec']) for k,v in d['per_contract'].items()})
for v in d['violations'][:3]: print(v['fn'],v['k'],v['detail'][:1200])
P
done
