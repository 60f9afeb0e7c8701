def sub(p,a,b,n=1):
    s=open(p).read()
    assert s.count(a)==n,(p,a,s.count(a))
    s=s.replace(a,b);open(p,'w').write(s)
