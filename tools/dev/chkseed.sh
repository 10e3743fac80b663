# usage: chkseed.sh ID...  -- in a copy of /repo mounted over /repo (own namespace): demo, patch, build, tests, demo, check
if [ -z "$IN_NS" ]; then
  for id in "$@"; do IN_NS=1 unshare -Urm bash "$0" "$id"; done; exit
fi
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/cs.XXXXXX); trap 'umount -l /repo; rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mount --bind "$w/repo" /repo; mkdir -p "$w/ev" "$w/rp"; mount --bind "$w/ev" /verif/evidence; [ -d /verif/replays ] && mount --bind "$w/rp" /verif/replays
git -C /repo checkout -q -- .
bash $d/demo.sh >$w/d0.log 2>&1 || { echo "$id: demo fails on clean"; tail -5 $w/d0.log; }
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id BUILD FAILS"
bash /opt/vp/test.sh $w/o.json >/dev/null 2>&1
python3 - $w/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
m=set(b['stable'])-set(o['passed'])
if m: print('BASELINE MISSING', len(m), list(m)[:2])
P
bash $d/demo.sh >$w/d1.log 2>&1 && echo "$id: demo PASSES with the patch"
[ -n "$NOCHECK" ] || { s=$(date +%s); timeout 900 /verif/check $prop > $w/c.log 2>&1; echo "$id exit $? $(( $(date +%s)-s ))s: $(grep -h '^VIOLATION\|KNOWN' $w/c.log | cut -c1-200)"; cp /verif/replays/* /tmp/rep_$id.txt 2>/dev/null; cp $w/c.log /tmp/c_$id.log; grep -h "failing input\|^failed" $w/c.log | head -3 | cut -c1-300; }
