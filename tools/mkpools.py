#!/usr/bin/env python3
"""Generates sim/pools.hpp: codepoint pools for text generation, from the UCD
files of the pinned commit.  Run by hand; the output is committed, so the
simulator does not depend on the UCD files in /repo."""
import re,sys
P=sys.argv[1]+'/src/u5e/props/'
U={}
for l in open(P+'UnicodeData.txt'):
    f=l.split(';');U[int(f[0],16)]=(int(f[3]),f[5])
G={}
for l in open(P+'GraphemeBreakProperty.txt'):
    m=re.match(r'([0-9A-F]+)(?:\.\.([0-9A-F]+))?\s*;\s*(\w+)',l)
    if m:
        a=int(m[1],16);b=int(m[2] or m[1],16)
        G.setdefault(m[3].upper(),[]).extend(range(a,b+1) if b-a<200 else [a,a+1,(a+b)//2,b])
def dec(c,k):
    d=U.get(c,(0,''))[1]
    if not d: return [c]
    if d[0]=='<':
        if not (k and d.startswith('<compat>')): return [c]
        d=d[9:]
    return [y for x in d.split() for y in dec(int(x,16),k)]
marks={}
for c,(k,d) in U.items():
    if k: marks.setdefault(k,[]).append(c)
canon=[c for c in U if dec(c,0)!=[c]]
multi=[c for c in canon if len(dec(c,0))>2]
single=[c for c in canon if len(dec(c,0))==1]
compat=[c for c in U if dec(c,1)!=[c] and dec(c,0)==[c]]
pairs=[]
for c,(k,d) in U.items():
    if d and d[0]!='<' and len(d.split())==2 and not k:
        a,b=[int(x,16) for x in d.split()]
        if U[a][0]==0: pairs.append((a,b))
starter_marks=[c for c in G['EXTEND'] if U.get(c,(1,))[0]==0 and c in U]
o=[]
def arr(n,v): o.append('static const int %s[] = {%s};\nstatic const int n_%s = %d;'%(n,','.join(map(str,v)),n,len(v)))
o.append('// generated by tools/mkpools.py')
arr('pool_canon',canon);arr('pool_multi',multi);arr('pool_single',single[::2]);arr('pool_compat',compat)
arr('pool_pairs',[x for p in pairs for x in p])
ccs=sorted(marks);flat=[];idx=[]
for k in ccs: idx+= [len(flat),len(marks[k])];flat+=marks[k]
arr('pool_marks',flat);arr('pool_marks_idx',idx)
arr('pool_zeromarks',starter_marks)
for k in('PREPEND','SPACINGMARK','CONTROL','E_BASE','E_MODIFIER','ZWJ','GLUE_AFTER_ZWJ','E_BASE_GAZ','REGIONAL_INDICATOR','L','V','T','LV','LVT'):
    v=[c for c in G[k] if not 0xD800<=c<=0xDFFF]
    arr('pool_'+k,v[:400])
open(sys.argv[2],'w').write('\n'.join(o)+'\n')
