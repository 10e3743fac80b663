# runs checks of all claimed properties one after another: tools/dev/runall.sh [PROP...]
cd /verif
ps=${*:-$(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for p in $ps; do s=$(date +%s); ./check $p >/tmp/r_$p.log 2>&1; e=$?; echo "$p exit $e $(( $(date +%s)-s ))s $(grep -c dropped /tmp/r_$p.log) dropped; $(tail -1 /tmp/r_$p.log | cut -c1-120)"; done
