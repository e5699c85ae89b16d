#!/usr/bin/env python3
"""debug aid: print the dumped MIR of functions whose key contains the argument"""
import json,sys
def pl(p):
    s=f"_{p[0]}"
    for e in p[1]:
        if e=="*" or e==["*"]: s=f"(*{s})"
        elif e[0]=='f': s+=f".{e[2] or e[1]}"
        elif e[0]=='i': s+=f"[_{e[1]}]"
        elif e[0]=='dc': s+=f"@{e[2]}"
        else: s+=str(e)
    return s
def op(o):
    if o[0] in 'cm' : return pl(o[1])
    k=o[1]
    if k[0]=='fn': return 'fn:'+k[1].get('rkey',k[1]['key'])+('' if 'rkey' in k[1] else '?')
    return str(k[:2])
def rv(r):
    t=r[0]
    if t=='use': return op(r[1])
    if t=='ref': return f"&{r[1]} {pl(r[2])}"
    if t=='bin': return f"{r[1]}({op(r[2])},{op(r[3])})"
    if t=='un': return f"{r[1]}({op(r[2])})"
    if t=='cast': return f"{op(r[2])} as {r[3]['s']} [{r[1]}]"
    if t=='adt': return f"{r[1].split('::')[-1]}::{r[3]}({', '.join(map(op,r[4]))})"
    if t in('array','tuple'): return f"{t}({', '.join(map(op,r[1]))})"
    if t=='closure': return f"closure {r[1]}({', '.join(map(op,r[2]))})"
    if t=='discr': return f"discr({pl(r[1])})"
    return str(r)
def show(b):
    print(f"== {b['key']} promoted={b['promoted']} nargs={b['nargs']} {b['file']}:{b['line']}")
    print("   dbg:", {n:(pl(p) if p else None) for n,p,_ in b['dbg']})
    for i,bb in enumerate(b['blocks']):
        if bb is None: continue
        print(f" bb{i}:")
        for s in bb[0]:
            if s[0]=='=': print(f"    {pl(s[1])} = {rv(s[2])}")
            else: print("   ",s)
        t=bb[1]
        if t[0]=='call': print(f"    {pl(t[3])} = CALL {op(t[1])}({', '.join(map(op,t[2]))}) -> {t[4]}")
        elif t[0]=='switch': print(f"    switch {op(t[1])} {t[2]} else {t[3]}")
        elif t[0]=='assert': print(f"    assert {op(t[1])}=={t[2]} -> {t[4]}")
        elif t[0]=='drop': print(f"    drop {pl(t[1])} -> {t[2]}")
        else: print("   ",t)
if __name__=='__main__':
    d=json.load(open(__import__("os").environ.get("PPJ") or '/verif/build/dump.json'))
    for b in d['bodies']:
        if sys.argv[1] in b['key']: show(b)
