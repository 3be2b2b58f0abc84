#!/usr/bin/env python3
"""Rewrites the part counts of DESIGN.md's table from the evidence of the last quick runs."""
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def k(n): return str(n) if n<1000 else ("%.1fk"%(n/1000)).replace(".0k","k")
out=[]
for l in open(here+'/DESIGN.md'):
    m=re.match(r'\| ([A-Z]\d\d) \|',l)
    f=m and f'{here}/evidence/{m[1]}.json'
    if f and os.path.exists(f):
        d=json.load(open(f))
        if d['tier']=='quick':
            cells=l.rstrip('\n').split('|')
            pp=d['coverage']['evaluations_by_part']
            if m[1]=='T18':
                txt=f"growth {k(pp['growth'])}, 250 of each other part (12 of the crowds)"
            else: txt=", ".join(f"{a} {k(b)}" for a,b in sorted(pp.items()))
            cells[-2]=' '+txt+' '
            l='|'.join(cells)+'\n'
    out.append(l)
open(here+'/DESIGN.md','w').writelines(out)
