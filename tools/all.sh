#!/bin/bash
# all claimed (or listed) checks in parallel:  all.sh [ids...]
cd "$(dirname "$0")/.."
ids="${*:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}"
printf '%s\n' $ids | xargs -P 8 -I{} sh -c 'out=$(python3 engine/chk.py {} ${TIER:-quick} 2>&1); echo "rc=$? $out" | cut -c1-1200'
