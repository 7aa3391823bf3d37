"""Lists the functions of /repo/src which no Verus unit puts under contract (by hand)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
seen = set()
for u in sys.argv[1:] or ['values', 'sets']:
    t, fns = vx.render(u)
    for e in fns: seen.add(e.name.split(' as ')[0].split(' ')[0])
n = 0
for f in vx.index():
    if f.file == 'wins/format.rs': continue
    k = (vx.key(f.header) + '::' if f.header else '') + f.name
    if k.split(' ')[0] not in seen: print(f.file, '|', f.header, '::', f.name)
    else: n += 1
print(n, 'functions under contract')
