#!/bin/bash
# bugrun ID...: run the property's quick check against a seeded bug (applied to /repo, undone afterwards)
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || continue
s=$(date +%s); out=$(cd /verif && ./check ${PROP:-$p} 2>/dev/null | cut -c1-400 | tail -3); e=$(date +%s)
git -C /repo checkout -q -- .
echo "$id $p $((e-s))s $(echo "$out" | grep -c '^VIOLATION') :: $(echo "$out" | head -c 300 | tr '\n' ' ')"
done
