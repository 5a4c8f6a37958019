"""Shared vocabulary of the rules: projections, roles of the shared state, obligations."""
import re
from terms import *
from analysis import AnchorMissing

OKP = 'std::result::Result::Ok.0'
SOMEP = 'std::option::Option::Some.0'


def fname(t):
    return t[2].rsplit('.', 1)[-1]


def isf(t, name):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'fld' and fname(t) == name


def proj(v, q):
    """the field q (qualified) of the value v"""
    if v[0] == 'agg':
        x = afield(v, q.rsplit('.', 1)[-1])
        if x is not None:
            return x
    if v[0] == 'upd':
        for k, x in v[2]:
            if k == q or (isinstance(k, str) and k.rsplit('.', 1)[-1] == q.rsplit('.', 1)[-1]):
                return x
        return proj(v[1], q)
    return ('fld', v, q)


def ok_of(ret):
    return ('fld', ret, OKP)


def some_of(t):
    if t[0] == 'agg' and t[3] == 'Some':
        return t[4][0][1]
    return ('fld', t, SOMEP)


def is_ok(e, facts):
    return e.ret is not None and facts.variant(e.ret) == 'Ok'


def is_some(t, facts):
    if t[0] == 'agg':
        return t[3] == 'Some'
    return facts.variant(t) == 'Some'


def is_none(t, facts):
    if t[0] == 'agg':
        return t[3] == 'None'
    return facts.variant(t) == 'None'


def same(a, b, facts):
    """are the two values equal on this path?"""
    if a == b:
        return True
    if strip(a) == strip(b):
        return True
    if facts.bools.get(('eqv',) + eq_key(a, b)) is True:
        return True
    for x, y in ((a, b), (b, a)):
        if x[0] == 'agg' and x[1] == 'enum' and x[3] == 'Some' and y[0] != 'agg':
            if facts.variant(y) == 'Some' and same(x[4][0][1], some_of(y), facts):
                return True
        if x[0] == 'agg' and x[1] == 'enum' and x[3] == 'None' and facts.variant(y) == 'None':
            return True
    if a[0] == 'agg' and b[0] == 'agg' and a[1:4] == b[1:4] and len(a[4]) == len(b[4]):
        return all(same(x, y, facts) for (_, x), (_, y) in zip(a[4], b[4]))
    for x, y in ((a, b), (b, a)):
        if x[0] == 'agg' and x[1] in ('struct', 'adt') and y[0] != 'agg' and x[4] and x[2]:
            return all(same(v, proj(y, x[2] + '.' + n), facts) for n, v in x[4])
    if facts.le(a, b) and facts.le(b, a):
        return True
    return False


def strip(t):
    """look through references and clones"""
    while isinstance(t, tuple) and t and t[0] in ('ref', 'addr') and len(t) == 2:
        t = t[1]
    return t


def calls(t, name):
    return [e for e in t.events if e.kind == 'call' and e.a and e.a[0] == name]


def iscall(e, name):
    return e.kind == 'call' and e.a and e.a[0] == name


def variant_sets(e, names):
    """is e the assignment of a unit variant with one of the names to a shared cell?"""
    return e.kind == 'set' and len(e.a) == 2 and isinstance(e.a[1], tuple) and e.a[1][0] == 'agg' and e.a[1][3] in names


def where(e):
    return f'{fnname(e.fn)} ({e.site})'


def fnname(k):
    k = re.sub(r'\{impl#\d+\}::', '', k)
    k = re.sub(r'::\{closure#\d+\}', '', k)
    return k.replace('sorock::', '').replace('crate::', '')


def site_of(t):
    return t.site


def history(t):
    """what happens on the path, for telling paths apart"""
    return hash(tuple((g.kind, g.a, g.ret) for g in t.events if g.kind not in ('acquire', 'release', 'await')))


def path(t, upto=None, n=14):
    """the steps of the path, for the report"""
    out = []
    for e in t.events:
        if e.kind in ('release', 'item', 'yield'):
            pass
        else:
            d = e.a[0] if e.a else ''
            d = d if isinstance(d, str) else (short(d[1]) if d and d[0] == 'g' else show(d)[:40])
            out.append(f'{e.kind} {d} at {e.site.split("src/")[-1]}')
        if e is upto:
            break
    if len(out) > n:
        out = out[:3] + ['...'] + out[-(n - 3):]
    return out


class Violation(Exception):
    pass


class Ctx:
    """one check run"""

    def __init__(self, A):
        self.A = A
        self.P = A.p
        self.obs = {}
        self.bads = {}
        self.roots_used = set()
        self.traces_used = 0
        self.clauses = []
        self.cur = '?'
        self._tr = {}
        self.memo = {}

    # -------- analysis results
    def need(self, *roots):
        self.A.need([r for r in roots])

    def run(self, root):
        self.A.need([root])
        self.roots_used.add(root)
        return self.A.runs[root]

    def traces(self, root, ends=None):
        r = self.run(root)
        if root not in self._tr:
            self._tr[root] = r.traces
        ts = r.traces
        if ends:
            ts = [t for t in ts if t.end.startswith(ends)]
        return ts

    def done(self, root):
        """paths that run to the end of the request, or of one turn of the background loop"""
        return self.traces(root, ('ret', 'turn'))

    def process_roots(self):
        rs = self.A.all_process_roots()
        self.A.need(rs)
        return [r for r in rs]

    # -------- obligations
    def ok(self, key, where_):
        k = (self.cur, key, where_)
        self.obs[k] = self.obs.get(k, 0) + 1

    def bad(self, key, where_, msg, trace=None, ev=None):
        k = (self.cur, key, where_)
        self.obs[k] = self.obs.get(k, 0) + 1
        if (self.cur, key) not in self.bads:
            self.bads[(self.cur, key)] = (where_, msg, trace.root if trace else '', path(trace, ev) if trace else [])

    def check(self, cond, key, where_, msg, trace=None, ev=None):
        if cond:
            self.ok(key, where_)
        else:
            self.bad(key, where_, msg, trace, ev)
        return bool(cond)

    def floor(self, n, least, what):
        """a rule that matched less than was counted by hand does not hold vacuously"""
        if n < least:
            self.bad('missing: ' + what, '-', f'expected at least {least} of: {what}; found {n}')
        else:
            self.ok('present: ' + what, '-')

    def clause(self, fn, *args):
        old = self.cur
        self.cur = fn.__name__
        self.clauses.append((fn.__name__, (fn.__doc__ or '').strip().replace('\n', ' ')))
        try:
            fn(self, *args)
        finally:
            self.cur = old

    # -------- names
    def adt(self, name):
        c = [n for n in self.P.adts if n.split('::')[-1] == name and (self.P.adts[n] or {}).get('local')]
        if len(c) > 1:
            c2 = [n for n in c if n.startswith('crate::process::')]
            c = c2 or c
        if not c:
            raise AnchorMissing(f'type {name}')
        return c[0]

    def gen(self, name):
        """a generated protocol message"""
        c = [n for n in self.P.adts if n.split('::')[-1] == name and '::generated::' in n]
        if not c:
            raise AnchorMissing(f'message {name}')
        return c[0]

    def enum_with(self, *variants):
        for n, a in self.P.adts.items():
            if a and a.get('local') and set(variants) <= {v['n'] for v in a['variants']} and len(a['variants']) > 1:
                return n
        raise AnchorMissing('enum with variants ' + ', '.join(variants))

    def shared_field(self, name, pred=None):
        """the shared cell named `name`"""
        out = []
        for n in self.P.shared:
            a = self.P.adts.get(n)
            for v in a['variants']:
                for f in v['f']:
                    if f['n'] == name and (pred is None or pred(f['t'])):
                        out.append(('g', n + '.' + name))
        return out

    def arg(self, root, i):
        return ('arg', root.split(':')[-1], i)

    # -------- roles
    def ballot_q(self):
        b = self.adt('Ballot')
        return b + '.cur_term', b + '.voted_for'

    def entry_q(self):
        e, c = self.adt('Entry'), self.adt_exact('crate::process::Clock', 'Clock')
        return e, c

    def adt_exact(self, full, name):
        return full if full in self.P.adts else self.adt(name)

    def self_id(self):
        f = self.shared_field('self_node_id')
        f = [x for x in f if 'RaftDriver' in x[1]] or f
        if not f:
            raise AnchorMissing('self_node_id')
        return f[0]

    def election_enum(self):
        return self.enum_with('Leader', 'Candidate', 'Follower')

    def state_loc(self):
        if 'state_loc' not in self.memo:
            e = self.election_enum()
            for n in self.P.shared:
                for v in self.P.adts[n]['variants']:
                    for f in v['f']:
                        if e.replace('crate::', '') in f['t'].replace('crate::', '') and 'utex' in f['t'] or \
                                e.replace('crate::', '') in f['t'].replace('crate::', '') and 'RwLock' in f['t']:
                            self.memo['state_loc'] = ('g', n + '.' + f['n'])
            if 'state_loc' not in self.memo:
                raise AnchorMissing('the shared cell of the election state')
        return self.memo['state_loc']

    def state_sets(self, t, names):
        loc = self.state_loc()
        return [(i, e) for i, e in enumerate(t.events) if variant_sets(e, names) and e.a[0][0] == 'cell' and e.a[0][1] == loc]

    def state_is(self, facts, name):
        """did the path find the node in election state `name`? -> the serial of the last such reading, or None"""
        loc = self.state_loc()
        out = None
        for t, v in facts.var.items():
            if t[0] == 'cell' and t[1] == loc and v == name:
                out = max(out or 0, t[2])
        return out

    def atomic(self, name):
        f = self.shared_field(name)
        if not f:
            raise AnchorMissing(name)
        return f[0]

    def commit(self):
        return self.atomic('commit_pointer')

    def kern(self):
        return self.atomic('kern_pointer')

    def user(self):
        return self.atomic('user_pointer')

    def snapp(self):
        return self.atomic('snapshot_pointer')

    def memp(self):
        return self.atomic('membership_pointer')

    def safe(self):
        return self.atomic('safe_term')

    def membership(self):
        return self.atomic('membership')


def held_has(e, loc, mode=None):
    return [h for h in e.held if h[0] == loc and (mode is None or h[1] == mode)]


def common_guard(e1, e2, mode='w', kind='async'):
    """a lock guard (the same acquisition) held at both events"""
    return [h for h in e1.held if h in e2.held and h[1] == mode and (kind is None or h[2] == kind)]


def counted(cx, x):
    """a loop variable that only goes up or down by one: (what it starts from, 1 or -1)"""
    if x is None or x[0] != 'phi' or x[-1] is None or not isinstance(x[-1], tuple):
        return None
    if 'phis' not in cx.memo:
        ph = {}
        for r in cx.A.runs.values():
            for k, v in r.phis.items():
                ph.setdefault(k, set()).update(v)
        cx.memo['phis'] = ph
    start = x[-1]
    src = cx.memo['phis'].get(x, set()) - {start, x}
    for d in (-1, 1):
        if src and src <= {mk_add(start, d), mk_add(x, d)}:
            return start, d
    return None


def rng_of(cx, x, point=True):
    """the range of indices that a loop runs over with index x: ('rng', first, end (exclusive), 'rev' | 'fwd');
    an index that is none of a loop is the first of a search down from it"""
    b, k = lin(x)
    if b is not None and b[0] == 'elem' and b[1][0] == 'rng':
        return ('rng', mk_add(b[1][1], k), mk_add(b[1][2], k)) + b[1][3:]
    c = counted(cx, b)
    if c and c[1] == -1:
        return ('rng', C(1), mk_add(c[0], k + 1), 'rev')
    if c:
        return ('rng', mk_add(c[0], k), ('inf',), 'fwd')
    return ('rng', C(1), mk_add(x, 1), 'rev') if point else None


def whole(cx, roots, what):
    """no iteration in these activities leaves out some of the elements by their number or order"""
    for r in roots:
        seen = set()
        for t in cx.traces(r):
            for e in t.events:
                if e.kind == 'part' and (e.site, e.a[0]) not in seen:
                    seen.add((e.site, e.a[0]))
                    cx.bad('part', where(e), f'{what} ({e.a[0]})', t, e)
            left = [x for e in t.events if e.kind in ('send', 'part') for x in walk(e.a[0]) if x[0] == 'x' and isinstance(x[1], str) and x[1].endswith('|Vec::truncate')]
            if left and left[0] not in seen:
                seen.add(left[0])
                cx.bad('part', r, f'{what} (truncate)', t)
