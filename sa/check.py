"""check.py <property> [--fresh] | setup | all : decide one property on /repo's current working tree.
--fresh: nothing is taken from earlier runs, the program is extracted and analysed again."""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
import analysis
from base import Ctx, AnchorMissing

VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, 'evidence')


def known():
    """(property, clause, key) of the findings recorded as not repaired"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=<id> key=<clause>/<key> <text>
                a = l[len('finding: '):].split(' ', 2)
                pid = a[0].split('=', 1)[1]
                key = a[1].split('=', 1)[1].replace('%20', ' ')
                out[(pid, key)] = a[2] if len(a) > 2 else ''
    return out


def load(fresh=False):
    dump, h = build.dump(fresh)
    P = analysis.load(dump)
    return analysis.Analysis(P, None if fresh else os.path.join(build.WORK, 'cache')), h


def registry():
    import props
    return props.PROPS


def decide(A, pid, tier, h, t0):
    spec = registry()[pid]
    cx = Ctx(A)
    for fn in spec['clauses']:
        cx.clause(fn)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    kf = known()
    bads, finds = [], []
    for (clause, key), (w, msg, root, path) in cx.bads.items():
        k = f'{clause}/{key}'
        (finds if (pid, k) in kf else bads).append((k, w, msg, root, path))
    nobs = sum(cx.obs.values())
    funcs = set()
    for r in cx.roots_used:
        funcs |= A.runs[r].used if r in A.runs else set()
    ntr = {r: len(A.runs[r].traces) for r in sorted(cx.roots_used) if r in A.runs}
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the type-checked program (MIR) of /repo: every abstract path from the entry points listed is enumerated by a '
                           'path-sensitive interprocedural dataflow analysis (loops are closed by a generic iteration) and the rules are decided on each of them.',
            'source_hash': h,
            'rules': [{'rule': n, 'says': d} for n, d in cx.clauses],
            'entry_points': ntr,
            'paths': sum(ntr.values()),
            'functions_analysed': len(funcs),
            'obligations_distinct': len(cx.obs),
            'obligations_checked': nobs,
            'sites': sorted({w for (_, _, w) in cx.obs})[:60],
            'samples': [f'{c}: {k} at {w} ({n} paths)' for (c, k, w), n in list(cx.obs.items())[:12]],
        },
        'assumptions': spec.get('assumes', []) + COMMON,
        'violations': len(bads),
        'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid} {spec["title"]}')
    print(f'  analysed: {len(ntr)} entry points, {sum(ntr.values())} abstract paths, {len(funcs)} functions; '
          f'{len(cx.clauses)} rules, {len(cx.obs)} distinct obligations ({nobs} checks)')
    for k, w, msg, root, path in finds:
        print(f'KNOWN-FINDING: property={pid} {k}: {msg} [{w}]')
    rp = os.path.join(EVID, pid + '.replay.txt')
    if bads:
        with open(rp, 'w') as f:
            for k, w, msg, root, path in bads:
                f.write(f'rule {k}\n  at {w}\n  {msg}\n  entry point {root}\n')
                for p in path:
                    f.write(f'    {p}\n')
        for k, w, msg, root, path in bads[:12]:
            print(f'  rule {k}: {msg}')
            print(f'    at {w}, entry point {root}')
            for p in path:
                print(f'      {p}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    return 0


COMMON = ['Calls that leave the crate behave as the models in sa/models.py say (std collections, tokio locks, timers and channels, redb, moka, flume).',
          'The store and application traits keep their documented contracts.']


def main(argv):
    t0 = time.time()
    fresh = '--fresh' in argv
    argv = [a for a in argv if a != '--fresh']
    what = argv[0]
    tier = 'thorough' if fresh else os.environ.get('VERIF_TIER', 'quick')
    try:
        A, h = load(fresh)
        if what == 'setup':
            names = A.all_process_roots()
            A.need(names + [n for n in A.jobs if n not in names])
            A.need(A.stream_jobs(list(A.runs)))
            print('setup: driver built, dump of /repo made, %d entry points analysed in %.1fs' % (len(A.runs), time.time() - t0))
            return 0
        if what == 'all':
            rc = 0
            only = argv[1:]
            for pid in registry():
                if only and pid not in only:
                    continue
                t1 = time.time()
                try:
                    r = decide(A, pid, tier, h, t1)
                except AnchorMissing as e:
                    print(f'{pid}: ANCHOR MISSING {e}')
                    r = 2
                print('   %.2fs -> %d' % (time.time() - t1, r))
                rc = max(rc, r)
            return rc
        return decide(A, what, tier, h, t0)
    except AnchorMissing as e:
        print(f'  the check found no {e} to anchor on: the mechanism that is meant to make the property hold is gone')
        os.makedirs(EVID, exist_ok=True)
        rp = os.path.join(EVID, what + '.replay.txt')
        with open(rp, 'w') as f:
            f.write(f'missing: {e}\n')
        with open(os.path.join(EVID, what + '.json'), 'w') as f:
            json.dump({'property': what, 'tier': tier, 'seed': 1, 'level': 'other', 'coverage': {'explanation': f'missing: {e}'}, 'violations': 1,
                       'wall_s': round(time.time() - t0, 2)}, f)
        print(f'VIOLATION property={what} replay={rp}')
        return 1
    except build.BuildError as e:
        print(f'error: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
