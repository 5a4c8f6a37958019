"""par.py [-s] [-r] [ids]: run all checks against refactorings (-r: must stay quiet) and planted bugs (-s: must be caught),
several at a time, in scratch copies of /repo and /verif (development aid; the registered checks run on /repo itself)."""
import os, re, shutil, subprocess, sys, time, json, threading, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactors

W = '/tmp/par'
SRC = os.environ.get('SRCREPO', '/repo')
K = 6


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


def prepare(k):
    d = f'{W}/{k}'
    os.makedirs(d, exist_ok=True)
    sh(f'mkdir -p {d}/repo && cd {d}/repo && rm -rf {d}/repo/sorock {d}/repo/tests && git -C {SRC} archive HEAD | tar x -C {d}/repo && [ -d .git ] || git init -q .; git add -A >/dev/null; git -c user.name=x -c user.email=x commit -qm x')
    sh(f'mkdir -p {d}/verif && rsync -a --delete --exclude .git --exclude seeded --exclude .work /verif/ {d}/verif/ || (rm -rf {d}/verif/sa && cp -a /verif/sa /verif/driver /verif/known_findings.txt {d}/verif/)')
    if not os.path.exists(f'{d}/verif/.work'):
        sh(f'cp -a /verif/.work {d}/verif/.work')
    sh(f"sed -i \"s#^REPO = .*#REPO = '{d}/repo'#\" {d}/verif/sa/build.py")


def check(d):
    r = subprocess.run(['python3', f'{d}/verif/sa/check.py', 'all'], capture_output=True, text=True, cwd=f'{d}/verif')
    return r


def ref(i, d):
    for f, a, b in refactors.R[i]:
        p = f'{d}/repo/sorock/src/{f}'
        t = open(p).read()
        if t.count(a) != 1:
            return f'{i:24s} EDIT {f} {t.count(a)} {a[:60]}'
        open(p, 'w').write(t.replace(a, b))
    r = check(d)
    out = f'{i:24s} {"quiet" if r.returncode == 0 else "ALARM" if r.returncode == 1 else "BROKEN"}'
    if r.returncode:
        L = [l for l in r.stdout.splitlines() if 'analysed' not in l and l.strip()]
        bad = [l for l in L if '->' not in l[-6:] and not re.match(r'C\d\d ', l) and not l.startswith('      ')]
        e = [l for l in r.stderr.splitlines() if 'rror' in l]
        out += '\n' + '\n'.join(x[:220] for x in bad[:8] + e[:6])
    return out


def seed(i, d):
    s = f'/verif/seeded/{i}'
    pid = json.load(open(s + '/meta.json'))['property']
    r = sh(f'cd {d}/repo && git apply {s}/patch.diff')
    if r.returncode:
        return f'{i} does not apply'
    r = check(d)
    hit = sorted(set(re.findall(r'VIOLATION property=(\S+)', r.stdout)))
    return f'{i:32s} {pid} {"CAUGHT" if pid in hit else "missed"} by {" ".join(hit)}' + ('' if hit else ' ' + r.stderr[-300:])


def main():
    a = sys.argv[1:]
    what = {x for x in a if x in ('-s', '-r')} or {'-s', '-r'}
    ids = [x for x in a if x not in ('-s', '-r')]
    q = queue.Queue()
    if '-r' in what:
        for i in ids or refactors.R:
            if i in refactors.R:
                q.put((ref, i))
    if '-s' in what:
        for i in ids or sorted(os.listdir('/verif/seeded')):
            if os.path.exists(f'/verif/seeded/{i}/meta.json'):
                q.put((seed, i))
    n = q.qsize()
    quiet = [0]

    def work(k):
        prepare(k)
        d = f'{W}/{k}'
        while True:
            try:
                f, i = q.get_nowait()
            except queue.Empty:
                return
            try:
                out = f(i, d)
            except Exception as ex:
                out = f'{i} {ex!r}'
            if 'quiet' in out or 'CAUGHT' in out:
                quiet[0] += 1
                if f is seed:
                    print(out, flush=True)
            else:
                print(out, flush=True)
            sh(f'cd {d}/repo && git checkout -q . && git clean -fdq')
    ts = [threading.Thread(target=work, args=(k,)) for k in range(min(K, n))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(f'{quiet[0]} of {n} as they should be')


if __name__ == '__main__':
    main()
