"""mkseed.py [ids]: writes seeded/<id> from seeds.py after confirming in a scratch copy that the demonstration passes without
the change and fails with it. (The repository's own tests are run separately: stable.sh.)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds
W = '/tmp/seed/w'
HEAD = '''mod support;
use super::*;
use support::*;

'''


def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh(f'git archive HEAD | tar x -C {W}', '/repo')
    sh('git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', W)


def run_demo(d):
    p = f'{W}/sorock/src/process/raft_process'
    os.makedirs(p + '/demo', exist_ok=True)
    shutil.copy(d + '/demo.rs', p + '/demo/mod.rs')
    shutil.copy(d + '/support.rs', p + '/demo/support.rs')
    m = open(p + '/mod.rs').read()
    open(p + '/mod.rs', 'w').write(m + '#[cfg(test)] mod demo;\n')
    env = 'RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR=/tmp/seed/target'
    r = sh(f'{env} timeout 280 cargo test --offline -p sorock --lib -- raft_process::demo --nocapture', W)
    open(p + '/mod.rs', 'w').write(m)
    shutil.rmtree(p + '/demo')
    return r.returncode, r.stdout + r.stderr


def apply(s):
    for f, a, b in s['edits']:
        p = f'{W}/sorock/src/{f}'
        t = open(p).read()
        assert t.count(a) == 1, (f, t.count(a), a)
        open(p, 'w').write(t.replace(a, b))


def main():
    ids = sys.argv[1:] or list(seeds.SEEDS)
    fresh()
    for i in ids:
        s = seeds.SEEDS[i]
        d = f'/tmp/seed/out/{i}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.rs', 'w').write(HEAD + s['demo'].strip() + '\n')
        for x in ('support.rs', 'demo.sh'):
            shutil.copy(f'{HERE}/{x}', d + '/' + x)
        rc0, out0 = run_demo(d)
        try:
            apply(s)
        except AssertionError as e:
            print(i, 'EDIT', e)
            sh('git checkout -q .', W)
            continue
        diff = sh('git diff', W).stdout
        rc1, out1 = run_demo(d)
        sh('git checkout -q .', W)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        comp = 'could not compile' in out1
        ok = rc0 == 0 and rc1 != 0 and not comp
        print(i, s['property'], 'clean', rc0, 'patched', rc1, 'COMPILE' if comp else '', 'OK' if ok else 'NOT OK', flush=True)
        if not ok:
            o = out0 if rc0 else out1
            L = [l for l in o.splitlines() if 'error' in l or 'panicked' in l or 'assert' in l or '-->' in l or 'test ' in l or 'left' in l or 'right' in l]
            print('\n'.join(l[:200] for l in L[:14]))
        else:
            t = f'/verif/seeded/{i}'
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(d, t)


main()
