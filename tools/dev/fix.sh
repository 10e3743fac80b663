# fix.sh PROPS "message" : build, test, commit all changes in /repo
cd /repo; bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/o.json'))
m=b-set(o['passed']); print('missing',len(m),list(m)[:3]); sys.exit(1 if m else 0)
P
git commit -qam "fix: $2" && h=$(git log -1 --format=%h) && for p in $1; do echo "fixed: property=$p $h $3" >> /verif/known-findings.txt; done; git log --oneline | head -1
