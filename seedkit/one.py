"""one.py: apply edits given on stdin in a scratch copy and run all checks there (development aid).
Each edit: a line 'FILE:LINE[-LINE]' (relative to sorock/src) followed by replacement lines up to a line '==='; every edit is tried on its own
unless joined by '+++' instead of '==='. 'Edit' with no replacement deletes the lines."""
import sys, os, re, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import par
D = f'{par.W}/{os.environ.get("ONE", "one")}'
par.W = os.path.dirname(D)
par.prepare(os.path.basename(D))
src = f'{D}/repo/sorock/src/'


def run(edits):
    olds = {}
    name = '; '.join(e[0] for e in edits)
    for head, body in edits:
        f, l = head.split(':')
        a, _, b = l.partition('-')
        a, b = int(a), int(b or a)
        p = src + f
        s = open(p).read()
        olds.setdefault(p, s)
        L = s.split('\n')
        old = L[a - 1:b]
        L[a - 1:b] = body
        open(p, 'w').write('\n'.join(L))
        print('#', head, ' | '.join(x.strip() for x in old)[:100], '->', ' | '.join(x.strip() for x in body)[:100])
    r = par.check(D)
    hit = sorted(set(re.findall(r'VIOLATION property=(\S+)', r.stdout)))
    err = [l for l in r.stderr.splitlines() if 'error' in l]
    print('   ', 'exit', r.returncode, ' '.join(hit) or ('QUIET' if r.returncode == 0 else str(err[:2])[:200]), flush=True)
    if os.environ.get('V'):
        L = [l for l in r.stdout.splitlines() if 'analysed' not in l and l.strip() and not re.match(r'C\d\d ', l) and not l.startswith('      ') and '->' not in l[-6:]]
        print('\n'.join(x[:220] for x in L[:int(os.environ['V'])]))
    for p, s in ({} if os.environ.get('KEEP') else olds).items():
        open(p, 'w').write(s)


edits, cur = [], None
for l in sys.stdin.read().split('\n') + ['===']:
    if l in ('===', '+++'):
        if cur:
            edits.append((cur[0], cur[1:]))
            cur = None
        if l == '===' and edits:
            run(edits)
            edits = []
    elif cur is None:
        if l.strip():
            cur = [l.strip()]
    else:
        cur.append(l)
