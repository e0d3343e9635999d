"""regenerates spec/baseline_functions.txt and spec/baseline_decls.txt (run by hand on the pinned tree only)"""
import os
import facts
P = facts.load(None)
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
old = set(open(os.path.join(S, 'baseline_functions.txt')).read().split('\n'))
new = {F.d.q for F in P.funcs.values()}
print(len(old), len(new), sorted(new - old)[:5], sorted(old - new)[:5])
open(os.path.join(S, 'baseline_decls.txt'), 'w').write('\n'.join(sorted('\t'.join(k) for k in facts.decl_sigs(P))) + '\n')
