"""Which entry points exist, the abstract paths of each, and the wiring between them."""
import hashlib, json, os, pickle, sys, time
from concurrent.futures import ProcessPoolExecutor
import multiprocessing
from terms import *
import engine
from engine import Program, Analyzer, shape, TooMany

HERE = os.path.dirname(os.path.abspath(__file__))


class AnchorMissing(Exception):
    pass


def generalise(v, path):
    """captures of a spawned task: keep the wiring, forget which element of a collection it was"""
    k = v[0]
    if k in ('g', 'G', 'new', 'arg', 'c', 'k'):
        return v
    if k == 'agg':
        return ('agg', v[1], v[2], v[3], tuple((n, generalise(x, path + (n,))) for n, x in v[4]))
    if k in ('clo', 'cor'):
        return (k, v[1], tuple(generalise(x, path + (i,)) for i, x in enumerate(v[2])))
    if k == 'fld' and all(x[0] in ('g', 'G', 'fld', 'arg') for x in walk(v)):
        return v
    if k in ('coll', 'pf'):
        return v
    if k == 'fut':
        return tuple(generalise(x, path + (i,)) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                     (tuple(generalise(y, path + (i, j)) if isinstance(y, tuple) and y and isinstance(y[0], str) else y
                            for j, y in enumerate(x)) if isinstance(x, tuple) else x) for i, x in enumerate(v))
    return ('arg', 'task', '.'.join(str(x) for x in path))


_P = None


def load(dump):
    global _P
    with open(dump) as f:
        _P = Program(json.load(f))
    return _P


class Run:
    """result of analysing one root"""

    def __init__(self, name, an, secs):
        self.name = name
        self.traces = an.traces
        left = {e.a[0] for t in an.traces for e in t.events if e.kind == 'spawn'}
        self.spawned = [x for x in an.spawned if x[0] not in an.joined or x[0] in left]
        self.streams = an.streams
        self.inits = an.inits
        self.getwith = an.getwith
        self.phis = an.phis
        self.reread = an.reread
        self.phi_src = an.phi_src
        self.kept = an.kept
        self.unmodelled = an.unmodelled
        self.steps = an.steps
        self.used = set(an.p.used)
        self.secs = secs


def _go(job):
    name, kind, what = job
    t = time.time()
    _P.used = set()
    an = Analyzer(_P, name)
    if kind == 'fn':
        b = _P.bodies[what]
        an.run(what, [('arg', what.split('::')[-1], i + 1) for i in range(b['nargs'])])
    elif kind == 'fnraw':
        b = _P.bodies[what]
        an.run(what, [('arg', what.split('::')[-1], i + 1) for i in range(b['nargs'])], False)
    else:
        an.run_value(what)
    return Run(name, an, time.time() - t)


class Analysis:
    def __init__(self, prog, cache=None):
        self.p = prog
        self.cache = cache
        self.runs = {}
        self.jobs = {}
        self.discover()

    # -------------------------------------------------------------- entry points
    def discover(self):
        bs = self.p.bodies
        j = self.jobs
        fn = lambda b: b['kind'] == 'fn' and '{closure' not in b['key']
        for k, b in bs.items():
            if not fn(b) or 'generated' in k:
                continue
            tr = (b.get('trait') or '')
            n = k.split('::')[-1]
            if 'raft_server::Raft' in tr and not tr.endswith('RaftServer'):
                j['rpc:' + n] = ('fn', k)
            elif tr.startswith('crate::process::RaftLogStore') or tr.endswith('::RaftLogStore') or tr == 'process::RaftLogStore':
                j['log:' + n] = ('fn', k)
            elif tr.endswith('RaftBallotStore'):
                j['ballot:' + n] = ('fn', k)
            elif tr.endswith('ops::Drop'):
                j['drop:' + (b.get('self_ty') or k)] = ('fn', k)
        for self_ty, n, name in (('RaftProcess', 'new', 'boot'), ('Backend', 'new', 'backend'), ('Backend', 'get', 'backend_get'),
                                 ('RaftConnection', 'new', 'connection'), ('RaftNode', 'new', 'node:new'),
                                 ('RaftNode', 'attach_process', 'node:attach'), ('RaftNode', 'detach_process', 'node:detach'),
                                 ('RaftNode', 'get_driver', 'node:driver'), ('RaftNode', 'get_process', 'node:get')):
            for k, b in bs.items():
                if fn(b) and (b.get('self_ty') or '').split('::')[-1] == self_ty and k.endswith('::' + n):
                    j[name] = ('fn', k)

    def need(self, names):
        """analyse the named roots (those not analysed yet), in parallel"""
        todo = []
        for n in names:
            if n in self.runs:
                continue
            if n not in self.jobs and n.startswith(('task:', 'bg:')):
                self.tasks()
            if n in self.runs:
                continue
            if n not in self.jobs:
                raise AnchorMissing(f'entry point {n} not found in the crate')
            r = self.from_cache(n)
            if r is not None:
                self.runs[n] = r
            else:
                todo.append((n,) + self.jobs[n])
        if not todo:
            return
        if len(todo) == 1:
            rs = [_go(todo[0])]
        else:
            with ProcessPoolExecutor(min(8, len(todo)), mp_context=multiprocessing.get_context('fork')) as ex:
                rs = list(ex.map(_go, todo))
        for r in rs:
            self.runs[r.name] = r
            self.to_cache(r)

    # a cached result is used only if every body it was computed from is the same, and so are the
    # data types and the analysis itself
    def world(self):
        if not hasattr(self, '_world'):
            h = hashlib.sha1(json.dumps(self.p.adts, sort_keys=True).encode())
            for f in ('terms.py', 'engine.py', 'models.py', 'analysis.py'):
                with open(os.path.join(HERE, f), 'rb') as fh:
                    h.update(fh.read())
            h.update(sys.version.encode())
            self._world = h.hexdigest()
        return self._world

    def bodyhash(self, k):
        if not hasattr(self, '_bh'):
            self._bh = {}
        if k not in self._bh:
            b = self.p.bodies.get(k) or self.p.foreign.get(k)
            self._bh[k] = hashlib.sha1(strip_tok(b).encode()).hexdigest() if b else None
        return self._bh[k]

    def cpath(self, n):
        return os.path.join(self.cache, hashlib.sha1((self.world() + repr((n, self.jobs[n]))).encode()).hexdigest() + '.pkl')

    def from_cache(self, n):
        if self.cache and os.path.exists(self.cpath(n)):
            try:
                with open(self.cpath(n), 'rb') as f:
                    used = pickle.load(f)
                    if all(self.bodyhash(k) == h for k, h in used.items()):
                        return pickle.load(f)
            except Exception:
                return None
        return None

    def to_cache(self, r):
        if self.cache:
            os.makedirs(self.cache, exist_ok=True)
            tmp = self.cpath(r.name) + '.%d' % os.getpid()
            with open(tmp, 'wb') as f:
                pickle.dump({k: self.bodyhash(k) for k in r.used}, f, protocol=4)
                pickle.dump(r, f, protocol=4)
            os.replace(tmp, self.cpath(r.name))

    # -------------------------------------------------------------- derived roots
    def tasks(self):
        """roots of the background tasks spawned by booting a process or by a membership change"""
        self.need(['boot'])
        self._derive(['boot'], 'task:')
        bg = [r for r in ('backend', 'rpc:remove_server') if r in self.jobs]
        self.need(bg)
        self._derive(bg, 'bg:')
        return [n for n in self.jobs if n.startswith(('task:', 'bg:'))]

    def _derive(self, roots, prefix):
        for r in roots:
            for v, kr, site, fnk in self.runs[r].spawned:
                g = generalise(v, ())
                name = prefix + self.label(g)
                n, i = name, 1
                while n in self.jobs and self.jobs[n] != ('value', g):
                    i += 1
                    n = f'{name}#{i}'
                self.jobs[n] = ('value', g)

    def label(self, v):
        for x in walk(v):
            if x[0] in ('cor', 'clo'):
                parts = x[1].split('::')
                return next((q for q in reversed(parts) if not q.startswith('{') and q not in ('do_loop', 'new', 'run', 'thread')), parts[-1])
        return 'task'

    def stream_jobs(self, roots):
        out = []
        for r in roots:
            for v, site, fnk in self.runs[r].streams:
                g = generalise(v, ())
                n = 'stream:' + fnk.split('::{')[0].split('::')[-1] + ':' + hashlib.sha1(repr(shape(g)).encode()).hexdigest()[:6]
                self.jobs[n] = ('value', g)
                if n not in out:
                    out.append(n)
        return out

    def items(self, v):
        """(facts, item) for the generic items of the stream v, through the adapters applied to it"""
        an = Analyzer(self.p, 'items')
        an.run_value(v)
        return [(t.facts, t.ret) for t in an.traces if t.end == 'ret']

    def rpcs(self):
        return sorted(n for n in self.jobs if n.startswith('rpc:'))

    def all_process_roots(self):
        return ['boot'] + self.rpcs() + self.tasks()

    # -------------------------------------------------------------- wiring
    def wiring(self):
        """initial value of every field of the shared structures, from the constructors"""
        self.need(['boot'])
        w = {}
        run = self.runs['boot']
        insts = {k: set(v) for k, v in run.inits.items()}
        for t in run.traces:
            if t.end == 'ret' and t.ret is not None:
                for x in walk(t.ret):
                    if x[0] == 'agg' and x[2] in self.p.shared:
                        insts.setdefault(x[2], set()).add(x)
        for adt, vals in insts.items():
            if not isinstance(adt, str):
                w[adt] = vals
                continue
            for v in vals:
                for n, x in v[4]:
                    w.setdefault(('g', adt + '.' + n), set()).add(shape(x))
        return w

    def resolver(self):
        w = self.wiring()

        def res(t, d=0):
            """replace fields of the shared structures that are set once, at construction, by what they were set to"""
            if not isinstance(t, tuple) or not t:
                return t
            if t[0] == 'g':
                vs = w.get(t)
                if vs and len(vs) == 1:
                    v = next(iter(vs))
                    if d < 12 and is_wire(v):
                        return res(v, d + 1)
                return t
            if t[0] == 'fld':
                b = res(t[1], d)
                if b[0] == 'agg':
                    x = afield(b, t[2].rsplit('.', 1)[-1])
                    if x is not None:
                        return res(x, d + 1)
                return ('fld', b, t[2])
            return tuple(res(x, d) for x in t)
        return res


def strip_tok(x):
    """canonical text of a body (the memo fields the engine adds start with an underscore)"""
    return json.dumps(x, sort_keys=True, default=str) if not isinstance(x, dict) else json.dumps(clean(x), sort_keys=True)


def clean(x):
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if not k.startswith('_')}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return x


def is_wire(v):
    if v[0] in ('new', 'G', 'arg', 'g'):
        return True
    if v[0] == 'agg' and v[1] != 'enum':
        return any(is_wire(x) for _, x in v[4])
    return v[0] == 'fld' and is_wire(v[1])
