# usage: mkseed.sh ID PROP FILE 'from' 'to' 'needs' 'breaks' DEMOTEST.go PKGDIR  -- builds seeded/ID from a scratch copy, verifies
set -e
id=$1 prop=$2 f=$3 from=$4 to=$5 needs=$6 breaks=$7 demo=$8 pkg=$9
d=/verif/seeded/$id
[ -d /tmp/rs ] || cp -a /repo /tmp/rs
git -C /tmp/rs checkout -q -- . ; git -C /tmp/rs pull -q /repo HEAD 2>/dev/null || git -C /tmp/rs fetch -q /repo && git -C /tmp/rs reset -q --hard FETCH_HEAD
python3 - "/tmp/rs/$f" "$from" "$to" <<'P'
import sys
f,a,b=sys.argv[1:]
s=open(f).read(); assert s.count(a)>=1,"no match"
open(f,'w').write(s.replace(a,b,1))
P
mkdir -p $d
git -C /tmp/rs diff > $d/patch.diff
cp "$demo" $d/demo_test.go.txt
cat > $d/demo.sh <<X
#!/bin/bash
# runs an in-package test through an overlay; exits nonzero when the property is broken
here=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
cd /repo
t=\$(mktemp -d)
trap 'rm -r "\$t"' EXIT
echo "{\"Replace\": {\"/repo/$pkg/zz_demo_test.go\": \"\$here/demo_test.go.txt\"}}" > "\$t/o.json"
go test -vet=off -count=1 -overlay "\$t/o.json" -run '^TestZZDemo\$' ./$pkg
X
chmod +x $d/demo.sh
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import sys,json
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
P
git -C /tmp/rs checkout -q -- .
