#!/bin/bash
# every check, one after the other (development aid)
cd "$(dirname "$0")/.."
for p in ${*:-$(python3 -c "import json;print(*json.load(open('contracts/index.json')))")}; do
  timeout 900 python3 check.py $p ${TIER:+--tier $TIER} 2>&1 | tail -2 | cut -c1-200
done
