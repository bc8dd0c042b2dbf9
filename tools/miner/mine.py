#!/usr/bin/env python3
"""Mines the PoW-valid header fixtures (offline tool, not part of any check).
Each header is valid in every respect except (possibly) the one rule its name says."""
import struct, subprocess, json, os, sys, hashlib
OUT='/verif/fixtures/headers.jsonl'
TS=1543816938
def pre(ver,h,scal,ts=TS,td=5000000,tag=''):
    f=lambda s: hashlib.sha256((tag+s).encode()).digest()
    return struct.pack('>HQq',ver,h,ts)+f('prev')+f('prevroot')+f('utxo')+f('rp')+f('kern')+f('off')+struct.pack('>QQQI',1234,567,td,scal)
J=[('h72',1,72,1,29),('link72',1,72,1,29),('link71',1,71,1,29),('link1000',1,1000,1,29),('v2_h95000',2,95000,1,29),('eb30_s1',1,100,1,30),('tsmax',1,100,1,29),('short4',1,100,1,29),
   ('v3_h250000',3,250000,1,29),('v2_h249999',2,249999,9,29),('v1_h94999_s0',1,94999,0,29),('v3_h499999',3,499999,1,29),
   ('eb19_s1',1,100,1,19),('eb24_s1',1,100,1,24),('eb27_s1',1,100,1,27),
   ('v2_h94999',2,94999,7,29),('eb30_s2',1,100,2,30),('v1_h95000',1,95000,1,29),
   ('v2_h250000',2,250000,1,29),('eb28_s1',1,100,1,28),('v3_h500000',3,500000,1,29),
   ('v3_h249999',3,249999,1,29),
   ('eb30_s0',1,100,0,30),('v0_h1',0,1,1,29),('v4_h500000',4,500000,1,29),('v3_h94999',3,94999,1,29),('v1_h250000',1,250000,1,29)]
have={json.loads(l)['name'] for l in open(OUT)} if os.path.exists(OUT) else set()
T=sys.argv[1] if len(sys.argv)>1 else '4'
def packed(eb,nonces):
    b=bytearray((eb*42+7)//8)
    for i,x in enumerate(nonces):
        for k in range(eb):
            if x>>k&1: o=i*eb+k; b[o//8]|=1<<(o%8)
    return bytes(b)
def bhash(eb,nonces): return hashlib.blake2b(packed(eb,nonces),digest_size=32).digest()
def work(eb,nonces): return 0x0fffffffffffffff//int.from_bytes(hashlib.blake2b(bytes([eb])+packed(eb,nonces),digest_size=32).digest()[:8],'big')
# a small linked chain g <- c1 <- c2 <- c3, and a fork g <- c1 <- f2 ; g is an arbitrary (not PoW-valid) genesis
GEN=[1000*(i+1) for i in range(42)]
CH=[('c1','g',60),('c2','c1',60),('c3','c2',60),('f2','c1',90)]
def mine(n,p,eb,L=42,**kw):
    r=subprocess.run(['/tmp/solve',str(eb),T,'2000','1',str(L)],input=p.hex(),capture_output=True,text=True)
    if r.returncode: return None
    a=[int(x) for x in r.stdout.split()]
    d=dict(name=n,eb=eb,pre=(p+struct.pack('>Q',a[0])).hex(),nonces=a[1:],**kw)
    with open(OUT,'a') as f: f.write(json.dumps(d)+'\n')
    print(n,flush=True); return d
def chain():
    st={'g':dict(h=0,ts=TS,td=1000,eb=29,nonces=GEN)}
    done={json.loads(l)['name']:json.loads(l) for l in open(OUT)} if os.path.exists(OUT) else {}
    for n,par,dt in CH:
        q=st[par]; f=lambda s: hashlib.sha256((n+s).encode()).digest()
        h=q['h']+1; ts=q['ts']+dt; td=q['td']+work(q['eb'],q['nonces'])
        p=struct.pack('>HQq',1,h,ts)+bhash(q['eb'],q['nonces'])+f('prevroot')+f('utxo')+f('rp')+f('kern')+f('off')+struct.pack('>QQQI',h,h,td,1)
        d=done.get('chain_'+n) or mine('chain_'+n,p,29,version=1,height=h,scaling=1,ts=ts,td=td,parent=par)
        st[n]=dict(h=h,ts=ts,td=td,eb=29,nonces=d['nonces'])
for n,v,h,s,eb in J:
    if n not in ('h72','link72','link71') and eb==29 and 'chain_f2' not in have: chain(); have.add('chain_f2')
    if n in have: continue
    ts=2**63-1 if n=='tsmax' else TS
    p=pre(v,h,s,ts=ts,tag=n)
    if n.startswith('link'):   # on a parent with a known (not valid) proof of work
        p=p[:18]+bhash(29,[1000*(i+1)+h for i in range(42)])+p[50:]
    mine(n,p,eb,L=4 if n=='short4' else 42,version=v,height=h,scaling=s,ts=ts)
