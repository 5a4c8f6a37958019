"""Development aid: print the abstract traces of a root, compactly."""
import sys, re
import analysis
from terms import *

def ev(e, full=False):
    a = e.a
    s = e.kind + '(' + ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in (a if isinstance(a, tuple) else (a,)))
    s += ')'
    if e.ret is not None:
        s += ' -> ' + show(e.ret)
    return s[:400 if full else 170]

if __name__ == '__main__':
    P = analysis.load('/verif/.work/sorock.json')
    A = analysis.Analysis(P, '/tmp/ancache')
    A.tasks()
    r = sys.argv[1]
    if r == 'roots':
        print(list(A.jobs)); sys.exit()
    A.need([r])
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
    pat = sys.argv[3] if len(sys.argv) > 3 else ''
    run = A.runs[r]
    print(len(run.traces))
    k = 0
    for t in sorted(run.traces, key=lambda t: len(t.events)):
        lines = [f'== {t.end} {show(t.ret)[:150] if t.ret else ""}']
        for e in t.events:
            lines.append('  ' + ev(e) + '   @' + str(e.site)[-40:] + (' held=' + str([(short(h[0][1]) if h[0][0]=='g' else show(h[0])[:30], h[1]) for h in e.held]) if e.held else ''))
        lines.append('  FACTS ' + '; '.join(show(x)[:120] for x in t.facts.log)[:1500])
        s = '\n'.join(lines)
        if pat and not re.search(pat, s):
            continue
        print(s)
        k += 1
        if k >= n:
            break
