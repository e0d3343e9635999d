"""print the spec lines of functions: python3 mkspec.py [-a] [-p] FUNCTION...   (-a: all events, -p: as a table entry)"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, q
from facts import AnalysisError
NOISE = re.compile(r'call (math::|IntraComm::(is|getCommunication|getRank|getSize)|impl::get|std::|numeric_limits|range_detail|ParticipantState::\w+Contexts|Event::|Eigen|mpl|.*::(begin|end|size)\()|new profiling|ctor (profiling|string|vector|shared_ptr|logging)')
if __name__ == '__main__':
    c = check.Ctx('X')
    al, tab = '-a' in sys.argv, '-p' in sys.argv
    for n in sys.argv[1:]:
        if n.startswith('-'):
            continue
        try:
            fs = c.funcs(n)
        except AnalysisError as e:
            print('??', n)
            continue
        for F in fs:
            try:
                f = c.analyse(F)
            except Exception as e:
                print('!! %s %s' % (n, str(e)[:200]))
                continue
            print(('        (%r, %d, r"""' if tab else '@ %s(%s) %s:%s') % ((F.d.q, len(F.params)) if tab else (F.d.q, ', '.join(p.t for p in F.params), F.file, F.line)))
            seen = set()
            for l in q.mkspec(f, al):
                if (al or not NOISE.match(re.sub(r'^(for .*?: )', '', l))) and l not in seen:
                    seen.add(l)
                    print(('            ' if tab else '') + l)
            if tab:
                print('        """),')
