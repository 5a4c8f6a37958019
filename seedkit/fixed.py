"""fixed.py [hash...]: take each repair back in a scratch copy; the check of its property has to report it again."""
import sys, os, re, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import par
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = f'{par.W}/fixed'
par.W = os.path.dirname(D)
par.prepare('fixed')
R = f'{D}/repo'


def git(*a):
    return subprocess.run(['git', '-C', R] + list(a), capture_output=True, text=True)


git('fetch', '-q', '/repo', 'main')
print(git('checkout', '-q', '-f', '-B', 'm', 'FETCH_HEAD').stderr)
for l in open(f'{V}/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\w+) (.*)', l)
    if not m or len(sys.argv) > 1 and m[2] not in sys.argv[1:]:
        continue
    git('reset', '-q', '--hard')
    x = git('-c', 'user.name=x', '-c', 'user.email=x', 'revert', '-n', m[2])
    if x.returncode:
        print(m[2], m[1], 'CONFLICT', m[3][:80], flush=True)
        git('revert', '--abort')
        git('reset', '-q', '--hard')
        continue
    r = par.check(D)
    hit = sorted(set(re.findall(r'VIOLATION property=(\S+)', r.stdout)))
    print(m[2], m[1], 'ok' if m[1] in hit else 'MISSED', r.returncode, ' '.join(hit), m[3][:80], flush=True)
    git('reset', '-q', '--hard')
