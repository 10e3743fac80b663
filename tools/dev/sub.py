def sub(p,*prs):
    p='/repo/pkg/'+p; s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(p,a,s.count(a)); s=s.replace(a,b)
    open(p,'w').write(s)
