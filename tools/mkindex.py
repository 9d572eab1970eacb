#!/usr/bin/env python3
"""Write contracts/INDEX.md: every contract, the function it is about, its properties; every assumed specification."""
import glob,re,os
rows={};ext=[];ops=[]
for f in sorted(glob.glob('/verif/contracts/**/*.go',recursive=True)):
    rel=os.path.relpath(f,'/verif/contracts'); pkg=os.path.dirname(rel)
    cur=[]
    for l in open(f):
        if l.startswith('//@'): cur.append(l[3:].strip())
        elif l.startswith('//') : continue
        elif l.startswith('func '):
            name=re.match(r'func (\w+)',l)
            name=name.group(1) if name else '?'
            d={}
            for c in cur:
                k,_,v=c.partition(' '); d.setdefault(k,[]).append(v)
            if 'contract' in d:
                for p in ' '.join(d.get('property',['-'])).split():
                    rows.setdefault(p,[]).append((d['contract'][0],name,rel,'bounded '+d['bounded'][0] if 'bounded' in d else ('modular' if 'modular' in d else '')))
            elif 'extern' in d: ext.append((d['extern'][0],rel,' '.join(d.get('theory',['(all)']))))
            elif 'op' in d: ops.append((d['op'][0],rel,' '.join(d.get('theory',['(all)']))))
            cur=[]
        elif l.strip() and not l.startswith('//'): 
            if not l.startswith((' ','\t')): cur=[]
o=open('/verif/contracts/INDEX.md','w')
o.write('# Contracts (generated by tools/mkindex.py)\n\nOne line per contract: the function of /repo it is about, the contract, its file.\n')
for p in sorted(rows):
    o.write('\n## %s\n\n'%p)
    for r in rows[p]: o.write('- `%s` - %s (%s)%s\n'%(r[0],r[1],r[2],' **%s**'%r[3] if r[3] else ''))
o.write('\n## Assumed specifications of functions (extern)\n\n')
for e in sorted(set(ext)): o.write('- `%s` in %s, theory %s\n'%e)
o.write('\n## Observation points with ghost code (op)\n\n%d hooks on field accesses, calls of callbacks, channel and lock operations; those that `vcAssume` state what the environment may deliver there.\n'%len(ops))
print({p:len(r) for p,r in rows.items()},len(ext),len(ops))
