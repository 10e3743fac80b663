# usage: mut.sh file 'python-replace-from' 'to' prop...
f=$1; a=$2; b=$3; shift 3
cd /tmp/rp && git checkout -q -- . && python3 - "$f" "$a" "$b" <<'P'
import sys
f,a,b=sys.argv[1:]
s=open(f).read(); assert a in s,"no match"; open(f,'w').write(s.replace(a,b,1))
P
[ $? = 0 ] || exit 3
/tmp/govc ${GOVCFLAGS} -repo /tmp/rp "$@"; echo "exit $?"; git checkout -q -- .
