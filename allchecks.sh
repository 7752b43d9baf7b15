#!/bin/bash
# allchecks.sh TIER [ID..]: runs the checks one after another and sums up.
cd "$(dirname "$0")" || exit 2
t=${1:-quick}; shift
for c in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14}; do
  ./check.sh $c $t 2>&1 | grep -v '^gen_ops'; rc=${PIPESTATUS[0]}
  python3 - $c $rc <<'P'
import json,sys
d=json.load(open(f'evidence/{sys.argv[1]}.json')); c=d['coverage']
print(sys.argv[1],'rc',sys.argv[2],'wall',d['wall_s'],' '.join('%s:%du/%dr/%.1fs/%dx'%(p['part'],p['units'],p['runs'],p['seconds'],p['distinct_executions']) for p in c['parts']),'edges',c.get('code_edges_reached'),c.get('code_edges'))
P
done
