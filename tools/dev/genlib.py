import re,sys
OUT=[]
def E(name,*chg,kind='R'):
    files={}
    for f,a,b in chg:
        p='/repo/src/'+f
        s=files.get(f) or open(p).read()
        if a.startswith('re:'):
            s2,n=re.subn(a[3:],b,s)
        else:
            n=s.count(a); s2=s.replace(a,b)
            if n==0:
                # tolerate blank and comment lines between the given lines
                ls=[l for l in a.split('\n')]
                pat=r'\n(?:[ \t]*(?://[^\n]*)?\n)*'.join(re.escape(l)+(r'(?:[ \t]*//[^\n]*)?' if i<len(ls)-1 else '') for i,l in enumerate(ls) if l.strip() or i in (0,len(ls)-1))
                s2,n=re.subn(pat,lambda m:b,s)
        assert n>=1,(name,f,a)
        files[f]=s2
    for f,s in files.items():
        OUT.append((name,kind,f,open('/repo/src/'+f).read(),s))
def dump(path):
    with open(path,'w') as o:
        last=None
        for n,k,f,a,b in OUT:
            if n!=last: o.write('### %s | %s\n'%(n,k)); last=n
            # minimal differing region, line based
            A=a.split('\n');B=b.split('\n')
            i=0
            while A[i]==B[i]: i+=1
            j=1
            while A[-j]==B[-j] and len(A)-j>i and len(B)-j>i: j+=1
            lo=max(0,i-3); 
            x='\n'.join(A[lo:len(A)-j+4]); y='\n'.join(B[lo:len(B)-j+4])
            assert a.count(x)==1,(n,f,a.count(x))
            o.write('@@ src/%s\n<<<<\n%s\n====\n%s\n>>>>\n'%(f,x,y))
