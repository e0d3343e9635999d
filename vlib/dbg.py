"""debug printer: python3 dbg.py UNITPREFIX[,..] FUNCTION..."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, gssa, effects, q


class C:
    pass


c = C()
c.P = facts.load(None if sys.argv[1] == '-' else sys.argv[1].split(','))
c.E = effects.Effects(c.P)
c.seen = set()
al = '-a' in sys.argv
w = 230
for a in sys.argv:
    if a.startswith('-w'):
        w = int(a[2:])
for fn in sys.argv[2:]:
    if fn.startswith('-'):
        continue
    c2 = [fn] if fn in c.P.byq else [x for x in c.P.byq if x.endswith('::' + fn)]
    if not c2:
        print('NOT FOUND', fn)
    for x in c2:
        for F in c.P.byq[x]:
            if not F.dep and F.body is not None:
                q.Fn(c, F).dump(w, al)
