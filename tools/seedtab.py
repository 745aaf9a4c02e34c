import json,os,re
V='/verif'
rows=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json')); rows.append((m['property'],d,m['needs']))
from collections import defaultdict
g=defaultdict(list)
for p,d,n in rows: g[p].append((d,n))
out=['| check | planted bugs caught (what each needs) |','|---|---|']
for p in sorted(g):
    out.append('| %s | %s |'%(p,'; '.join('`%s` (%s)'%(d.split('-',1)[1],n) for d,n in g[p])))
text='''## 4. Planted bugs: which check catches which change

`seeded/` holds %d changes (id = check that catches it + name), each with a demonstration. **Every one is caught by the quick check of its property** (`tools/seeded.py` runs them all,
on scratch copies; `tools/seedtab.py` writes this table). Missed at first, each the reason for an extension: `C31-array-string` (zero bytes beyond the eighth), `C31-offset16` (fields far
into a large structure), `C25-next-narrow` (start positions beyond 8 bits), `C29-late` and `C06-static-next` (use from inside a callback), `C19-many` (300 keys),
`C13-count8` (300 parameters), `C11-float-zero`, `C14-clone-overlap` (handles with other field values), `C02-reset-empty` (a violation whose replay failed).

%s

### Mutation runs
`tools/mutate.py` plants one-token changes (operators, constants, conditions, deleted statements, narrowed types) in every module and runs the module's checks. The survivors were read one
by one; those that were not equivalent led to: C28 (rebase/reset combinations), C08-C10 (one-block pages, error codes -1, 2, 256, INT_MIN, writing after a refused init), C29 (72000 states),
C23 and C21 (flags of any non-zero value). What is left survives because it does not change behaviour: dead initialisations, loop
variables narrowed below a bound they cannot reach, `>` for `>=` where the equal case has the same result, statements whose effect is overwritten.

### Refactorings
Behaviour-preserving rewrites of every module (loops rewritten, helpers extracted, statements reordered, other internal counters, fields reordered, private constants changed) leave all 31 checks quiet.
The harnesses use no private field of a structure, so the layout is free too; the line-ending commit in /repo is cosmetic.
'''%(len(rows),'\n'.join(out))
s=open(V+'/DESIGN.md').read()
a=s.find('## 4. Planted bugs')
s=(s[:a] if a>=0 else s.split('@@SEEDED@@')[0])+text
open(V+'/DESIGN.md','w').write(s)
