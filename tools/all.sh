#!/bin/bash
# run every claimed check (8 at a time), last lines only
cd "$(dirname "$0")/.."
python3 analysis/dump.py >/dev/null 2>&1
ids=${*:-$(python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c['property'] if 'property' in c else c['id'])")}
echo $ids | tr ' ' '\n' | xargs -P 6 -I{} sh -c 'timeout 900 python3 check.py {} 2>&1 | cut -c1-400 | tail -6'
