def ed(p,*rs):
    s=open(p,newline='').read(); crlf='\r\n' in s
    for a,b in rs:
        if crlf: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
        assert s.count(a)==1,(s.count(a),a); s=s.replace(a,b)
    open(p,'w',newline='').write(s)
