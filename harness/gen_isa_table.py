
import re,collections,json,random,struct,subprocess
random.seed(2)
by=collections.defaultdict(set); words=set()
def dump(ws):
    ws=sorted(set(ws)-words); words.update(ws)
    open('w2.bin','wb').write(struct.pack('<%dI'%len(ws),*ws))
    out=subprocess.run('loongarch64-linux-gnu-objdump -D -b binary -m loongarch64 -M no-aliases w2.bin',shell=True,capture_output=True,text=True).stdout
    for l in out.splitlines():
        m=re.match(r'\s*[0-9a-f]+:\s+([0-9a-f]{8})\s+(\S+)(.*)',l)
        if m:
            w=int(m[1],16); dec[w]=m[2]; txt[w]=m[3].split('#')[0].strip()
            if m[2]!='.word': by[m[2]].add(w)
dec={};txt={}
base=[]
for l in open('od.txt'):
    m=re.match(r'\s*[0-9a-f]+:\s+([0-9a-f]{8})\s+(\S+)',l)
    if m and m[2]!='.word' and len(by[m[2]])<40: by[m[2]].add(int(m[1],16))
for w in [w for s in by.values() for w in s]: base.append(w)
dump(base)
for it in range(3):
    ws=[]
    for mn,L in list(by.items()):
        L=sorted(L); S=random.sample(L,min(8,len(L)))
        V=set(S)
        for s in S:
            for k in range(150 if len(L)<3000 else 20): V.add((s&~0x3ff)|random.getrandbits(10)); 
        for s in random.sample(sorted(V),min(30,len(V))):
            for b in range(32): V.add(s^(1<<b))
        ws+=V
    dump(ws); print(it,len(by),len(dec))
T={}
for mn,V in by.items():
    V=list(V)
    a=0xffffffff;o=0
    for v in V: a&=v;o|=v
    mask=~(a^o)&0xffffffff
    T[mn]=(a&mask,mask,txt.get(V[0]))
bad=collections.Counter();ex={}
for w,m in dec.items():
    hits=[mn for mn,(ma,mk,_) in T.items() if (w&mk)==ma]
    if (m=='.word' and hits) or (m!='.word' and (m not in hits or len(hits)>1)): bad[(m,tuple(hits))]+=1; ex[(m,tuple(hits))]=hex(w)
for k,v in bad.most_common(60): print(k,v,ex[k])
json.dump(T,open('isa.json','w'))
