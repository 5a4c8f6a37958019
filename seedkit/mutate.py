"""mutate.py [-n] [-kN] [-sLOG] [file-regex]: small mechanical changes of /repo's sources, each run through all checks in scratch copies.
Prints the ones that compile and that no check reports (development aid: what survives is read by hand; -s: only those that survived in LOG)."""
import os, re, subprocess, sys, time, threading, queue, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import par

SRC = os.environ.get('SRCREPO', '/repo') + '/sorock/src'
SKIP = ('generated', 'lib.rs', 'reflection', 'client.rs', 'error.rs')


def statements(L):
    """(first, last) line of every statement that ends with ; or is a bare block call"""
    out = []
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(('//', '#', 'use ', 'pub ', 'mod ', 'let ', 'return', 'fn ', 'impl', '}', ')', '.', 'type ', 'const ', 'static ', 'async fn', '|', '&&', '||', 'else')):
            continue
        prev = next((p.strip() for p in reversed(L[:i]) if p.strip() and not p.strip().startswith('//')), '{')
        if not prev.endswith((';', '{', '}')) and not prev.endswith('=>'):
            continue
        d = 0
        for j in range(i, min(i + 40, len(L))):
            t = re.sub(r'"[^"]*"', '""', L[j].split('//')[0])
            d += sum(t.count(c) for c in '([{') - sum(t.count(c) for c in ')]}')
            if d < 0:
                break
            if d == 0 and (t.rstrip().endswith(';') or (t.rstrip().endswith('}') and s.startswith(('if ', 'match ', 'while ', 'for ', 'loop')))):
                out.append((i, j))
                break
    return out


def mutants(f):
    txt = open(f'{SRC}/{f}').read()
    L = txt.split('\n')
    L = L[:next((i for i, l in enumerate(L) if 'cfg(test)' in l), len(L))]
    rest = txt.split('\n')[len(L):]
    out = []

    def put(i, j, new, what):
        M = L[:i] + ([new] if new is not None else []) + L[j + 1:] + rest
        out.append((f, i + 1, what, '\n'.join(M)))
    for i, j in statements(L):
        if re.match(r'\s*(debug|info|warn|error|trace)!', L[i]):
            continue
        put(i, j, None, 'DEL ' + ' '.join(x.strip() for x in L[i:j + 1])[:90])
    subs = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
            (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ 1\b', ' + 2'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
            (r'\bmax\(', 'min('), (r'\bmin\(', 'max('), (r'fetch_max\(', 'store('), (r'\.await\?;', '.await.ok();'), (r'\bbreak\b', 'continue'), (r'\bcontinue\b', 'break'),
            (r'\bif !', 'if '), (r'ensure!\((?!!)', 'ensure!(!'), (r'ensure!\(!', 'ensure!('), (r'\bterm\b', 'index'), (r'\bindex\b', 'term'),
            (r'insert\(', 'remove('), (r'\.rev\(\)', ''), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\.read\(\)', '.write()'),
            (r'commit_pointer', 'kern_pointer'), (r'commit_pointer', 'user_pointer'), (r'user_pointer', 'kern_pointer'), (r'kern_pointer', 'user_pointer'), (r'snapshot_pointer', 'user_pointer'),
            (r'this_clock', 'prev_clock'), (r'prev_clock', 'this_clock'), (r'match_index', 'next_index'), (r'next_index', 'match_index'), (r'Some\((\w+)\)', 'None'),
            (r'_tx\b', '_rx'), (r'\bif (?!let)(.*) \{$', r'if !(\1) {'), (r'\bis_some\(', 'is_none('), (r'\bis_none\(', 'is_some('), (r'\bis_ok\(', 'is_err('),
            (r'\.is_empty\(\)', '.is_empty() == false'), (r'split_off\(', 'remove('), (r'_lock\.lock\(\)\.await', '_lock.lock()'), (r'user_completions', 'kern_completions'),
            (r'queue_tx', 'replication_tx'), (r'commit_tx', 'kern_tx'), (r'let _lk\w* = .*;', ''), (r'let _g\w* = .*;', ''), (r'\bLeader\b', 'Follower'), (r'\bFollower\b', 'Leader'), (r'\bCandidate\b', 'Leader'),
            (r'contains\(', 'is_superset('), (r'force_vote', 'pre_vote'), (r'pre_vote', 'force_vote'), (r'cur_term', 'cur_term + 1'), (r'ClusterConfiguration', 'Snapshot')]
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(('//', '#', 'use ', 'mod ')) or re.search(r'\b(fn|struct|impl|enum|trait)\b', s) or re.match(r'(debug|info|warn|error)!', s):
            continue
        seen = set()
        for a, b in subs:
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l and n not in seen:
                    seen.add(n)
                    put(i, i, n, 'SUB ' + n.strip()[:100])
    return out


def main():
    a = sys.argv[1:]
    dry = '-n' in a
    k = int(next((x[2:] for x in a if x.startswith('-k')), par.K))
    pat = next((x for x in a if not x.startswith('-')), '.')
    again = next((x[2:] for x in a if x.startswith('-s')), None)
    if again:
        again = {(m.group(1), m.group(2).split(' :: ')[0]) for m in re.finditer(r'^(?:SURVIVED|BROKEN) (\S+):\d+ (.*)$', open(again).read(), re.M)}
    fs = [os.path.relpath(os.path.join(d, f), SRC) for d, _, ff in os.walk(SRC) for f in ff if f.endswith('.rs')]
    fs = sorted(f for f in fs if re.search(pat, f) and not any(s in f for s in SKIP))
    q = queue.Queue()
    for f in fs:
        for m in mutants(f):
            if not again or (m[0], m[2]) in again:
                q.put(m)
    n = q.qsize()
    print(n, 'mutants of', len(fs), 'files', flush=True)
    if dry:
        return
    st = {'caught': 0, 'nobuild': 0, 'survived': 0, 'broken': 0}

    def work(w):
        par.prepare(w)
        d = f'{par.W}/{w}'
        while True:
            try:
                f, ln, what, txt = q.get_nowait()
            except queue.Empty:
                return
            p = f'{d}/repo/sorock/src/{f}'
            old = open(p).read()
            open(p, 'w').write(txt)
            r = par.check(d)
            if r.returncode == 1:
                st['caught'] += 1
            elif r.returncode == 0:
                st['survived'] += 1
                print(f'SURVIVED {f}:{ln} {what}', flush=True)
            elif 'could not compile' in r.stdout + r.stderr or 'error' in r.stderr and 'Traceback' not in r.stderr:
                st['nobuild'] += 1
            else:
                st['broken'] += 1
                e = (r.stderr.strip().splitlines() or ['?'])[-1]
                print(f'BROKEN {f}:{ln} {what} :: {e[:200]}', flush=True)
            open(p, 'w').write(old)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(k)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(st)


if __name__ == '__main__':
    main()
