"""Path-sensitive interprocedural dataflow over the built MIR of the crate.

Abstract state = (value numbers of the locals on the inlined call string, overlay of shared cells,
branch facts, locks held). The transfer function interprets MIR; calls to functions of the crate are
inlined, calls that leave the crate are transfer-function models (models.py) or opaque values. States
are partitioned by path; at a loop header the states of the first iteration are joined (changed
locals become phi value numbers, branch facts of the iteration are dropped) and one generic
iteration is analysed, so every loop is covered by finitely many abstract iterations.
What comes out is, per entry point, the set of abstract paths with the effects on each of them."""
import sys
import functools
from collections import namedtuple
from terms import *

sys.setrecursionlimit(100000)

Ev = namedtuple('Ev', 'kind a ret facts site held fn')


class Trace:
    __slots__ = ('root', 'end', 'ret', 'events', 'facts', 'site', 'loop')

    def __init__(self, root, end, ret, events, facts, site, loop=None):
        self.root, self.end, self.ret, self.events, self.facts, self.site = root, end, ret, events, facts, site
        # of a path that ends with an iteration: (function, loop head, number of events, of facts before the iteration)
        self.loop = loop


class TooMany(Exception):
    pass


class State:
    __slots__ = ('env', 'heap', 'facts', 'events', 'nev', 'held', 'nsym', 'nfid', 'loops', 'stack', 'timeouts')

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = self.facts
        s.events = self.events
        s.nev = self.nev
        s.held = self.held
        s.nsym = self.nsym
        s.nfid = self.nfid
        s.loops = dict(self.loops)
        s.stack = self.stack
        s.timeouts = self.timeouts
        return s

    @staticmethod
    def new():
        s = State.__new__(State)
        s.env, s.heap, s.facts, s.events, s.nev = {}, {}, Facts(), None, 0
        s.held, s.nsym, s.nfid, s.loops, s.stack = (), 0, 0, {}, ()
        s.timeouts = 0
        return s

    def with_facts(self, f):
        s = self.copy()
        s.facts = f
        return s

    def fresh(self):
        self.nsym += 1
        return self.nsym

    def event_list(self):
        out = []
        e = self.events
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


@functools.lru_cache(None)
def gstrip(p):
    out, d, i = [], 0, 0
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::')


class Program:
    def __init__(self, dump):
        self.dump = dump
        self.types = {i: t for i, t in dump['types']}
        self.adts = dump['adts']
        self.bodies = {b['key']: b for b in dump['bodies']}
        self.foreign = {b['key']: b for b in dump['foreign']}
        self.used = set()
        self._hdr = {}
        # ADTs that live behind an Arc are shared state: one instance per process.
        self.shared = set()
        for n, a in self.adts.items():
            if not a or not a.get('local'):
                continue
            for v in a['variants']:
                for f in v['f']:
                    t = f['t']
                    i = t.find('std::sync::Arc<')
                    if i >= 0:
                        inner = t[i + len('std::sync::Arc<'):]
                        for m, am in self.adts.items():
                            if am and am.get('local') and not m.endswith('>') and (
                                    inner.startswith(m + '>') or inner.startswith(m.replace('crate::', '') + '>')):
                                self.shared.add(m)
        for extra in ('crate::process::raft_process::RaftProcess', 'crate::node::RaftDriver'):
            if extra in self.adts:
                self.shared.add(extra)

    def body(self, key):
        b = self.bodies.get(key)
        return b

    def succs(self, b):
        succ = []
        for bl in b['blocks']:
            t = bl['t']
            s = []
            if t['k'] == 'switch':
                s = [x[1] for x in t['v']] + [t['o']]
            elif t['k'] in ('goto', 'drop', 'call', 'assert'):
                if t.get('t') is not None:
                    s = [t['t']]
            succ.append(s)
        return succ

    def endless(self, b, h):
        """no return of the function is reachable from block h"""
        k = (b['key'], h)
        if k not in self._hdr:
            succ = self.succs(b)
            seen, work = {h}, [h]
            while work:
                for m in succ[work.pop()]:
                    if m not in seen:
                        seen.add(m)
                        work.append(m)
            self._hdr[k] = not any(b['blocks'][i]['t']['k'] == 'ret' for i in seen)
        return self._hdr[k]

    def dominates(self, b, h, m):
        """does every path from the start of the function to block m pass h?"""
        k = (b['key'], h, 'dom')
        if k not in self._hdr:
            succ = self.succs(b)
            seen, work = {0} - {h}, [0] if h != 0 else []
            while work:
                for x in succ[work.pop()]:
                    if x not in seen and x != h:
                        seen.add(x)
                        work.append(x)
            self._hdr[k] = seen
        return m not in self._hdr[k]

    def loop_blocks(self, b, h):
        """blocks of the natural loop of header h"""
        k = (b['key'], h, 'blocks')
        if k in self._hdr:
            return self._hdr[k]
        succ = self.succs(b)
        pred = {}
        for i, s in enumerate(succ):
            for m in s:
                pred.setdefault(m, []).append(i)
        reach, work = {h}, [h]
        while work:
            for m in succ[work.pop()]:
                if m not in reach:
                    reach.add(m)
                    work.append(m)
        body = {h}
        work = [p for p in pred.get(h, ()) if p in reach and (p == h or self.dominates(b, h, p))]
        while work:
            n = work.pop()
            if n not in body:
                body.add(n)
                work += [p for p in pred.get(n, ()) if p in reach]
        self._hdr[k] = body
        return body

    def headers(self, b):
        """targets of DFS back edges (unwind edges excluded)"""
        k = b['key']
        if k in self._hdr:
            return self._hdr[k]
        succ = self.succs(b)
        color = {}
        hdr = set()
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m) == 1:
                    hdr.add(m)
                elif m not in color:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
            else:
                color[n] = 2
                stack.pop()
        self._hdr[k] = hdr
        return hdr


def callname(c):
    """short canonical name: Trait::method, crate|Type::method or crate|function"""
    n = c.get('_cn')
    if n is None:
        n = c['_cn'] = callname_(c)
    return n


def callname_(c):
    p = gstrip(c['p'])
    segs = [s for s in p.split('::') if s]
    if c.get('tr'):
        return gstrip(c['tr']).split('::')[-1] + '::' + c['n']
    kr = c['kr']
    if 'impl ' in c['p'] and segs and segs[-1] == c.get('n'):
        im = gstrip(c.get('im', '')).split('::')[-1]
        return f"{kr}|{im}::{c['n']}"
    if len(segs) >= 2 and (segs[-2][:1].isupper() or c.get('im')):
        return f"{kr}|{segs[-2]}::{segs[-1]}"
    return f"{kr}|{segs[-1]}"


class Analyzer:
    def __init__(self, prog, root, max_traces=40000):
        self.p = prog
        self.root = root
        self.traces = []
        self.phis = {}
        self.kept = set()
        self.phi_src = {}
        self.vias = {}
        self.spawned = []
        self.joined = set()
        self.reread = set()
        self.streams = []
        self.inits = {}
        self.getwith = set()
        self.unmodelled = {}
        self.max_traces = max_traces
        self.steps = 0
        self.ninst = 0
        self.quiet = False
        self.expanded = {}
        self.panics = set()
        VARIANTS[:] = [self.variants]
        import models
        self.models = models.TABLE
        self.m = models

    # ------------------------------------------------------------ events
    def site(self, st):
        return st.stack[-1][1] if st.stack else '?'

    def ev(self, st, kind, a=(), ret=None):
        e = Ev(kind, tuple(a), ret, st.facts, self.site(st), st.held, st.stack[-1][0] if st.stack else '')
        st.events = (st.events, e)
        st.nev += 1

    def end(self, st, kind, ret=None, loop=None):
        if self.quiet and kind not in ('ret', 'turn1', 'turn2'):
            # a panic there counts when another error leads to it than to those seen
            if kind != 'panic' or self.root.startswith('task:'):
                return
            k = (self.site(st), tuple((e.kind, e.a[:1], e.site, st.facts.variant(e.ret) if isinstance(e.ret, tuple) else None)
                                      for e in st.event_list() if e.kind in ('call', 'rpc', 'set', 'insert', 'store')))
            if k in self.panics:
                return
            self.panics.add(k)
        self.traces.append(Trace(self.root, kind, ret, st.event_list(), st.facts, self.site(st), loop))
        if len(self.traces) > self.max_traces:
            raise TooMany(self.root)

    # ------------------------------------------------------------ memory
    def fieldname(self, owner):
        if owner.startswith('('):
            return owner[1:-1]
        return owner.rsplit('.', 1)[-1]

    def project(self, v, e):
        if e[0] == 'd':
            if v[0] == 'agg':
                return v
            return ('as', v, e[1])
        if e[0] == 'f':
            name, idx = e[1], e[2]
            if v[0] == 'agg':
                fn = self.fieldname(name)
                x = afield(v, fn)
                if x is not None:
                    return x
                if v[1] in ('tup', 'arr') and idx < len(v[4]):
                    return v[4][idx][1]
                return ('fld', v, name)
            if v[0] in ('clo', 'cor'):
                return v[2][idx]
            if v[0] == 'upd':
                for k, x in v[2]:
                    if k == name:
                        return x
                return self.project(v[1], e)
            if v[0] == 'as':
                if v[1][0] == 'boolopt':
                    return v[1][2]
                return ('fld', v[1], name)
            owner = name.rsplit('.', 1)[0]
            if owner in self.p.shared:
                return ('g', name)
            if v[0] == 'coll' and name.startswith('('):
                return ('fld', v, name)
            return ('fld', v, name)
        if e[0] == 'ix':
            return ('index', v, e[1])
        if e[0] == 'ci':
            if v[0] == 'agg' and v[1] == 'arr' and not e[2] and e[1] < len(v[4]):
                return v[4][e[1]][1]
            return ('index', v, ('ci', e[1], e[2]))
        return ('fld', v, str(e))

    def load(self, st, loc):
        if loc[0] == 'L':
            v = st.env.get((loc[1], loc[2]))
            if v is None:
                v = ('undef', loc[1], loc[2])
            for e in loc[3]:
                v = self.project_mem(st, v, e)
            return v
        v = st.heap.get(loc[1], loc[1])
        a = loc[1]
        for e in loc[2]:
            a = self.project(a, e) if a is not None else None
            v = self.project(v, e)
            if a is not None and a in st.heap:
                v = st.heap[a]
        if v in st.heap and v[0] in ('g', 'fld', 'cell', 'mget', 'mval'):
            v = st.heap[v]
        return v

    def project_mem(self, st, v, e):
        v = self.project(v, e)
        if v[0] in ('g', 'fld') and v in st.heap:
            return st.heap[v]
        return v

    def address(self, st, loc):
        a = loc[1]
        for e in loc[2]:
            a = self.project(a, e)
        return a

    def rebuild(self, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        if e[0] == 'd':
            return self.rebuild(v, proj[1:], val)
        sub = self.project(v, e) if v[0] != 'undef' else ('undef', 0, 0)
        new = self.rebuild(sub, proj[1:], val)
        if v[0] == 'agg':
            fn = self.fieldname(e[1])
            fs = []
            hit = False
            for i, (k, x) in enumerate(v[4]):
                if k == fn or (e[0] == 'ci' and i == e[1]):
                    fs.append((k, new))
                    hit = True
                else:
                    fs.append((k, x))
            if not hit:
                fs.append((fn, new))
            return ('agg', v[1], v[2], v[3], tuple(fs))
        if v[0] in ('clo', 'cor'):
            ups = list(v[2])
            ups[e[2]] = new
            return (v[0], v[1], tuple(ups))
        if new == MOVED:
            return v
        key = e[1] if e[0] == 'f' else e
        if v[0] == 'upd':
            d = [(k, x) for k, x in v[2] if k != key] + [(key, new)]
            return ('upd', v[1], tuple(sorted(d, key=repr)))
        return ('upd', v, ((key, new),))

    def store(self, st, loc, val, quiet=False):
        if loc[0] == 'L':
            k = (loc[1], loc[2])
            if not loc[3]:
                st.env[k] = val
            else:
                st.env[k] = self.rebuild(st.env.get(k, ('undef', loc[1], loc[2])), loc[3], val)
            return
        # a prefix of the address that already has an overlay value is updated functionally
        a = loc[1]
        if not quiet and not (a[0] == 'new' and a[1] == 'box'):
            self.ev(st, 'set', (self.address(st, loc), self.deep(st, val)))
        if a in st.heap and st.heap[a][0] in ('agg', 'upd') and loc[2]:
            st.heap[a] = self.rebuild(st.heap[a], loc[2], val)
            return
        ad = self.address(st, loc)
        for k in [k for k in st.heap if k != ad and contains_term(k, ad)]:
            del st.heap[k]
        st.heap[ad] = val

    def place(self, st, fid, pl):
        loc = ('L', fid, pl[0], ())
        for e in pl[1:]:
            if e == '*':
                v = self.load(st, loc)
                if v[0] == 'ref':
                    loc = ('L', v[1], v[2], v[3])
                elif v[0] == 'addr':
                    loc = ('T', v[1], ())
                elif v[0] in ('agg', 'clo', 'cor', 'upd', 'coll', 'c', 'iter', 'undef', 'add'):
                    pass
                elif loc[0] == 'T':
                    loc = ('T', v, ())
                else:
                    loc = ('T', v, ())
            else:
                if e[0] == 'f':
                    pe = ('f', e[2], e[1])
                elif e[0] == 'd':
                    pe = ('d', e[2])
                elif e[0] == 'ix':
                    pe = ('ix', self.load(st, ('L', fid, e[1], ())))
                elif e[0] == 'ci':
                    pe = ('ci', e[1], e[2])
                else:
                    pe = ('o', str(e))
                if loc[0] == 'L':
                    loc = ('L', loc[1], loc[2], loc[3] + (pe,))
                else:
                    loc = ('T', loc[1], loc[2] + (pe,))
        return loc

    def loc_of(self, st, v):
        """location a reference value points to (None for a plain value)"""
        seen = 0
        loc = None
        while True:
            if v[0] == 'ref':
                loc = ('L', v[1], v[2], v[3])
            elif v[0] == 'addr':
                loc = ('T', v[1], ())
            else:
                return loc
            n = self.load(st, loc)
            if n[0] not in ('ref', 'addr'):
                return loc
            v = n
            seen += 1
            if seen > 50:
                return loc

    def val(self, st, v):
        n = 0
        while v[0] in ('ref', 'addr'):
            v = self.load(st, ('L', v[1], v[2], v[3]) if v[0] == 'ref' else ('T', v[1], ()))
            n += 1
            if n > 50:
                break
        return v

    def deep_clone(self, st, v):
        return self.val(st, v)

    def deep(self, st, v, d=0):
        v = self.val(st, v)
        if d > 12:
            return v
        if v[0] == 'agg':
            fs = tuple((k, self.deep(st, x, d + 1)) for k, x in v[4])
            return v if fs == v[4] else ('agg', v[1], v[2], v[3], fs)
        if v[0] in ('clo', 'cor'):
            fs = tuple(self.deep(st, x, d + 1) for x in v[2])
            return v if fs == v[2] else (v[0], v[1], fs)
        if v[0] == 'upd':
            fs = tuple((k, self.deep(st, x, d + 1)) for k, x in v[2])
            return v if fs == v[2] else ('upd', v[1], fs)
        if v[0] in ('fut', 'stream', 'iter'):
            return tuple(self.deep(st, x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                         (tuple(self.deep(st, y, d + 1) if isinstance(y, tuple) and y and isinstance(y[0], str) else y
                                for y in x) if isinstance(x, tuple) else x) for x in v)
        return v

    # ------------------------------------------------------------ operands and rvalues
    def const(self, k):
        if 'fn' in k:
            return ('fn', k['fn']['key'], _freeze(k['fn']))
        if 'b' in k:
            return C(k['b'])
        if 'i' in k:
            return C(k['i'])
        if 'str' in k:
            return C(k['str'])
        if 'promoted' in k:
            return ('promoted', k['pkey'], k['promoted'])
        if 'hex' in k:
            return ('k', 'hex:' + k['hex'])
        t = self.p.types[k['t']]
        if k.get('zst'):
            if t.get('k') == 'fn':
                return ('fn', t['callee']['key'], _freeze(t['callee']))
            if t.get('k') == 'closure':
                return ('clo', t['def'], ())
            return UNIT if t['s'] == '()' else ('k', t['s'])
        return ('k', k.get('path') or k.get('dbg') or k.get('x') or t['s'])

    def operand(self, st, fid, o):
        if o[0] == 'k':
            return self.const(o[1])
        if o[0] in ('c', 'm'):
            loc = self.place(st, fid, o[1])
            v = self.load(st, loc)
            if o[0] == 'm' and loc[0] == 'L' and (has_guard(v) or not loc[3]):
                self.store(st, loc, MOVED)
            return v
        return C(False)  # runtime checks

    def rvalue(self, st, fid, r, b):
        k = r[0]
        if k == 'use':
            return self.operand(st, fid, r[1])
        if k == 'ref':
            loc = self.place(st, fid, r[2])
            if loc[0] == 'L':
                return ('ref', loc[1], loc[2], loc[3], 'mut') if r[1] else ('ref', loc[1], loc[2], loc[3])
            return ('addr', self.address(st, loc), 'mut') if r[1] else ('addr', self.address(st, loc))
        if k == 'agg':
            h = r[1]
            ops = [self.operand(st, fid, o) for o in r[2]]
            if h[0] == 'tup':
                return tup(*ops)
            if h[0] == 'arr':
                return agg('arr', '', '', [(str(i), x) for i, x in enumerate(ops)])
            if h[0] == 'adt':
                return agg('enum' if h[3] else 'struct', h[1], h[2] if h[3] else '', list(zip(h[4], ops)))
            if h[0] in ('clo', 'cor', 'corclo'):
                return (h[0], h[1], tuple(ops))
            return ('agg', 'raw', '', '', ())
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fid, r[2]), self.operand(st, fid, r[3]))
        if k == 'un':
            v = self.val(st, self.operand(st, fid, r[2]))
            if r[1] == 'Not' and v[0] == 'c' and isinstance(v[1], bool):
                return C(not v[1])
            if r[1] == 'Not' and v[0] == 'un' and v[1] == 'Not':
                return v[2]
            if r[1] == 'PtrMetadata':
                return self.m.coll_len(self, st, v)
            return ('un', r[1], v)
        if k == 'discr':
            loc = self.place(st, fid, r[1])
            v = self.load(st, loc)
            v = self.val(st, v)
            return self.discr(st, v, r[2])
        if k == 'cast':
            v = self.operand(st, fid, r[2])
            if r[1].startswith('FloatToInt'):
                return ('cast', r[1], v)
            return v
        if k == 'rep':
            return ('rep', self.operand(st, fid, r[1]))
        return ('rv', k)

    def discr(self, st, v, ti):
        adt = self.p.types[ti].get('adt') if ti is not None else None
        if v[0] == 'upd':
            v = v[1]
        if v[0] == 'agg' and v[1] == 'enum':
            return C(self.discr_of(v[2], v[3]))
        k = st.facts.variant(v)
        if v[0] == 'boolopt':
            b = st.facts.truth(v[1])
            k = None if b is None else 'Some' if b else 'None'
        if k is not None and adt:
            return C(self.discr_of(adt, k))
        return ('discr', v, adt or '?')

    def discr_of(self, adt, variant):
        a = self.p.adts.get(adt)
        if a:
            for v in a['variants']:
                if v['n'] == variant:
                    return v['d']
        return {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1, 'Ready': 0, 'Pending': 1,
                'Less': -1, 'Equal': 0, 'Greater': 1}.get(variant, 0)

    def variants(self, adt):
        a = self.p.adts.get(adt)
        if a:
            return [(v['n'], v['d']) for v in a['variants']]
        return {'std::option::Option': [('None', 0), ('Some', 1)], 'std::result::Result': [('Ok', 0), ('Err', 1)],
                'std::cmp::Ordering': [('Less', -1), ('Equal', 0), ('Greater', 1)]}.get(adt)

    def binop(self, st, op, a, b):
        a, b = self.val(st, a), self.val(st, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub'):
            if b[0] == 'c' and isinstance(b[1], int):
                r = mk_add(a, b[1] if base == 'Add' else -b[1])
            elif base == 'Add' and a[0] == 'c' and isinstance(a[1], int):
                r = mk_add(b, a[1])
            else:
                (xb, xk), (yb, yk) = lin(a), lin(b)
                if base == 'Sub' and xb == yb:
                    r = C(xk - yk)
                elif base == 'Add':
                    # keep sums canonical: sort the two bases, and cancel x + (y - x)
                    r = None
                    for p, q in ((xb, yb), (yb, xb)):
                        if q is not None and q[0] == 'bin' and q[1] == 'Sub' and q[3] == p:
                            r = mk_add(q[2], xk + yk)
                    if r is None:
                        x, y = sorted((xb, yb), key=repr)
                        r = mk_add(('bin', 'Add', x, y), xk + yk)
                else:
                    r = None
                    if xb is not None and xb[0] == 'bin' and xb[1] == 'Add':
                        if xb[2] == yb:
                            r = mk_add(xb[3], xk - yk)
                        elif xb[3] == yb:
                            r = mk_add(xb[2], xk - yk)
                    if r is None:
                        r = mk_add(('bin', 'Sub', xb if xb is not None else C(0), yb if yb is not None else C(0)), xk - yk)
            if op.endswith('WithOverflow'):
                return tup(r, ('ovf', base, a, b))
            return r
        if base in ('Mul', 'Div', 'Rem', 'Shl', 'Shr'):
            if a[0] == 'c' and b[0] == 'c' and all(isinstance(x[1], int) for x in (a, b)):
                x, y = a[1], b[1]
                try:
                    r = C({'Mul': x * y, 'Div': x // y if y else 0, 'Rem': x % y if y else 0,
                           'Shl': x << y, 'Shr': x >> y}[base])
                except Exception:
                    r = ('bin', base, a, b)
            else:
                if base == 'Mul' and a[0] == 'c':
                    a, b = b, a
                if base == 'Shr' and b[0] == 'c':
                    base, b = 'Div', C(1 << b[1])
                if base == 'Shl' and b[0] == 'c':
                    base, b = 'Mul', C(1 << b[1])
                r = ('bin', base, a, b)
            if op.endswith('WithOverflow'):
                return tup(r, ('ovf', base, a, b))
            return r
        if op in CMP:
            t = st.facts.cmp_truth(op, a, b)
            if t is not None:
                return C(t)
            return ('bin', op, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and a[0] == 'c' and isinstance(a[1], bool) and b[0] == 'c':
            return C({'BitAnd': a[1] and b[1], 'BitOr': a[1] or b[1], 'BitXor': a[1] != b[1]}[op])
        return ('bin', op, a, b)

    # ------------------------------------------------------------ bodies
    def exec_body(self, st, b, args, callsite):
        """analyse body b from state st; returns [(state, returned value)]"""
        self.p.used.add(b['key'])
        st = st.copy()
        st.nfid += 1
        fid = st.nfid
        depth = len(st.stack)
        st.stack = st.stack + ((b['key'], callsite),)
        if depth > 80:
            raise RuntimeError('inlining depth ' + b['key'])
        for i, a in enumerate(args):
            st.env[(fid, i + 1)] = a
        # the same call, reached along the same static path: after FULL expansions of it, only
        # representatives of its outcomes are followed (see reduce)
        ck = (tuple(st.stack), tuple((k[1], r[0]) for k, r in st.loops.items()))
        n = self.expanded[ck] = self.expanded.get(ck, 0) + 1
        was, self.quiet = self.quiet, n > FULL
        log0, nev0 = len(st.facts.log), st.nev
        hdrs = self.p.headers(b)
        seen = {}
        out = []
        work = [(st, 0)]
        exits, backs = {}, {}
        while work or exits or backs:
            if not work:
                # innermost loop first; the ends of its iterations before its exits
                k = min(list(exits) + list(backs), key=lambda x: (len(self.p.loop_blocks(b, x)), x))
                if k in backs:
                    # the history with most events first: it covers the others
                    for s in sorted(backs.pop(k), key=lambda s: -len(self.loop_events(s, s.loops[(fid, k)][4]))):
                        s = self.loop_head(s, fid, k, b, seen)
                        if s is not None:
                            self.run_block(s, fid, b, k, depth, out, work)
                    continue
                # every iteration of the loop is analysed: its first iteration leaves it on paths that
                # the generic one covers, if there is a generic one
                for s, blk, inst in exits.pop(k):
                    if (k, inst, 'generic') not in seen:
                        work.append((s, blk))
                continue
            s, blk = work.pop()
            left = [k for k, r in s.loops.items() if k[0] == fid and blk not in self.p.loop_blocks(b, k[1])]
            if left:
                first = [k for k in left if s.loops[k][0] == 1]
                if first:
                    # leaving the outermost of them last
                    k = min(first, key=lambda x: (len(self.p.loop_blocks(b, x[1])), x[1]))
                    inst = s.loops[k][7]
                    s = s.copy()
                    del s.loops[k]
                    exits.setdefault(k[1], []).append((s, blk, inst))
                    continue
                s = s.copy()
                for k in left:
                    del s.loops[k]
            if blk in hdrs:
                if (fid, blk) in s.loops:
                    backs.setdefault(blk, []).append(s)
                    continue
                s = self.loop_head(s, fid, blk, b, seen)
            self.run_block(s, fid, b, blk, depth, out, work)
        self.quiet = was
        out = dedupe(out)
        if n > FULL and len(out) > 2:
            return reduce(out, log0)
        if len(out) > MANY and any(not r[8] for r in st.loops.values()):
            keep = reduce(out, log0, nev0)
            ids = {id(s) for s, v in keep}
            for s, v in out:
                if id(s) not in ids:
                    self.end(s, 'cut')
            return keep
        return out

    def run_block(self, s, fid, b, blk, depth, out, work):
        for r in self.block(s, fid, b, blk):
            if r[0] == 'ret':
                s2, v = r[1], r[2]
                for k in [k for k in s2.env if k[0] >= fid]:
                    del s2.env[k]
                for k in [k for k in s2.loops if k[0] >= fid]:
                    del s2.loops[k]
                s2.stack = s2.stack[:depth]
                out.append((s2, v))
            else:
                work.append((r[1], r[2]))

    def loop_events(self, s, nev0):
        return {(e.kind, e.site) for e in s.event_list()[nev0:] if e.kind not in ('set',)}

    def loop_head(self, s, fid, h, b, seen):
        k = (fid, h)
        rec = s.loops.get(k)
        if rec is None:
            s = s.copy()
            self.ninst += 1
            s.loops[k] = (1, dict(s.env), dict(s.heap), s.facts, s.nev, s.nsym, s.held, self.ninst, self.p.endless(b, h))
            return s
        cnt, env0, heap0, facts0, nev0, nsym0, held0, inst, endless = rec
        self.end(s, ('turn%d' if self.p.endless(b, h) else 'iter%d') % cnt, loop=(b['key'], h, nev0, len(facts0.log)))
        self.iter_facts = frozenset(s.facts.log[len(facts0.log):])
        # two instances of a loop on one path are kept apart by the calls that lead to them
        via = self.vias.setdefault(s.stack[:-1], len(self.vias))
        new_env, ch = {}, []
        for kk, v0 in env0.items():
            v = s.env.get(kk)
            if v is None or v == v0:
                new_env[kk] = v0
                if v is not None:
                    # a turn that leaves the variable as it was
                    self.kept.update(x for x in ((v0,) if v0[0] != 'agg' else (y for _, y in v0[4])) if x[0] == 'phi' and x[1] == b['key'] and x[2] == h)
                continue
            j, changed = self.join(('phi', b['key'], h, kk[1], depth_tag(kk[0], fid), via), v0, v)
            new_env[kk] = j
            if changed:
                ch.append(kk)
        new_heap = dict(heap0)
        for kk in set(heap0) | set(s.heap):
            if kk not in heap0 and newest(kk) > nsym0:
                continue  # a cell of an element that only this iteration could name
            v0, v = heap0.get(kk, kk), s.heap.get(kk, kk)
            if v0 == v:
                continue
            j, changed = self.join(('phi', b['key'], h, kk, via), v0, v)
            new_heap[kk] = j
            if changed:
                ch.append(kk)
        if not ch and (cnt == 2 or (self.p.endless(b, h) and s.held == held0)):
            return None
        sig = (h, frozenset((kk, shape(v)) for kk, v in new_env.items() if v != env0.get(kk)),
               frozenset((kk, shape(v)) for kk, v in new_heap.items()), s.held,
               frozenset(map(shape, facts0.log)))
        # the generic iteration starts in the joined state; it is repeated only for a history with
        # an event that no earlier history of the same joined state had
        es = self.loop_events(s, nev0)
        if sig in seen:
            return None
        seen.setdefault(sig, set()).update(es)
        if cnt == 2:
            # something not covered by the generic iteration changed: one more, wider, generic iteration
            n = sum(1 for x in seen if x[0] == h and x[2] != 'generic')
            if n > 400:
                raise TooMany('loop ' + b['key'])
        s = s.copy()
        s.env, s.heap, s.facts = new_env, new_heap, facts0
        for kk in [kk for kk in s.loops if kk[0] > fid or (kk[0] == fid and kk[1] != h and kk[1] in self.inner(b, h))]:
            del s.loops[kk]
        s.loops[k] = (2, dict(new_env), dict(new_heap), facts0, s.nev, nsym0, held0, inst, endless)
        if s.held == held0:
            seen[(h, inst, 'generic')] = True
        return s

    def inner(self, b, h):
        """headers nested in the loop of h, or after it"""
        return {m for m in self.p.headers(b) if m != h and self.p.dominates(b, h, m)}

    def join(self, name, v0, v):
        if v0 == v:
            return v0, False
        if v0[0] == 'phi' and v0[:len(name)] == name:
            self.phis.setdefault(v0, set()).add(v)
            self.phi_src.setdefault((v0, v), set()).add(self.iter_facts)
            return v0, False
        if v0[0] == 'coll' and v[0] == 'coll' and v0[3] == v[3]:
            shapes = {shape(o) for o in v0[2] if o[0] != 'add' or o[3] == 'many'}
            n = len(v0[2])
            rest = v[2][n:] if v[2][:n] == v0[2] else v[2]
            extra, seen = [], set()
            for o in rest:
                sh = shape(mark_many(o))
                if sh not in shapes and sh not in seen:
                    seen.add(sh)
                    extra.append(o)
            if not extra:
                return v0, False
            return ('coll', v0[1], v0[2] + tuple(mark_many(o) for o in extra), v0[3]), True
        if v0[0] == 'agg' and v[0] == 'agg' and v0[1:4] == v[1:4] and len(v0[4]) == len(v[4]) and v0[1] != 'enum':
            fs, ch = [], False
            for (k, x), (_, y) in zip(v0[4], v[4]):
                j, c = self.join(name + (k,), x, y)
                fs.append((k, j))
                ch = ch or c
            return ('agg', v0[1], v0[2], v0[3], tuple(fs)), ch
        if v0[0] in ('cor', 'clo') and v[0] == v0[0] and v0[1] == v[1] and len(v0[2]) == len(v[2]):
            cs, ch = [], False
            for k, (x, y) in enumerate(zip(v0[2], v[2])):
                j, c = self.join(name + (k,), x, y)
                cs.append(j)
                ch = ch or c
            return (v0[0], v0[1], tuple(cs)) + v0[3:], ch
        if v in (MOVED,) or v0 in (MOVED,) or v0[0] == 'undef':
            return MOVED, v0 != MOVED
        # a plain value goes into the name: it is what the variable starts from on this path
        name += (v0,) if small(v0) else (None,)
        self.phis.setdefault(name, set()).update((v0, v))
        self.phi_src.setdefault((name, v), set()).add(self.iter_facts)
        return name, True

    def set_site(self, st, ln):
        if ln and st.stack:
            f = st.stack[-1]
            if f[1] != ln:
                st.stack = st.stack[:-1] + ((f[0], ln),)

    def block(self, st, fid, b, blk):
        """interpret one block; returns [('ret', st, v) | ('goto', st, block)]"""
        self.steps += 1
        bl = b['blocks'][blk]
        for s in bl['s']:
            if s[0] == '=':
                if s[3]:
                    self.set_site(st, s[3])
                v = self.rvalue(st, fid, s[2], b)
                loc = self.place(st, fid, s[1])
                if loc[0] == 'L':
                    self.store(st, loc, v)
                else:
                    self.store(st, loc, v)
            elif s[0] == 'sd':
                pass
        t = bl['t']
        k = t['k']
        self.set_site(st, t.get('ln'))
        if k == 'goto':
            return [('goto', st, t['t'])]
        if k == 'ret':
            return [('ret', st, st.env.get((fid, 0), UNIT))]
        if k == 'drop':
            loc = self.place(st, fid, t['p'])
            v = self.load(st, loc)
            self.drop(st, v)
            if loc[0] == 'L' and not loc[3]:
                st.env[(loc[1], loc[2])] = MOVED
            return [('goto', st, t['t'])]
        if k == 'switch':
            return self.switch(st, fid, t)
        if k == 'assert':
            c = self.operand(st, fid, t['c'])
            if c[0] == 'ovf':
                if c[1] == 'Sub':
                    f = st.facts.with_cmp('Ge', c[2], c[3])
                    if f is None:
                        self.end(st, 'panic')
                        return []
                    st.facts = f
                return [('goto', st, t['t'])]
            out = []
            fs = st.facts.assume(c, t['e'])
            for f in fs:
                out.append(('goto', st.with_facts(f), t['t']))
            return out
        if k == 'call':
            return self.call(st, fid, b, t)
        if k in ('unreachable', 'resume', 'other', 'yield'):
            if k == 'yield':
                self.end(st, 'yield')
            return []
        raise RuntimeError('terminator ' + k)

    def switch(self, st, fid, t):
        d = self.val(st, self.operand(st, fid, t['d']))
        ty = self.p.types[t['ty']]['s']
        if d[0] == 'c':
            v = d[1]
            iv = int(v) if not isinstance(v, str) else v
            for x, tgt in t['v']:
                if x == iv or (iv < 0 and x in (iv + (1 << 8), iv + (1 << 16), iv + (1 << 32), iv + (1 << 64))):
                    return [('goto', st, tgt)]
            return [('goto', st, t['o'])]
        if d[0] == 'discr':
            return [('goto', s, tgt) for s, tgt in self.switch_discr(st, d, t)]
        out = []
        if ty == 'bool':
            tf = next((tgt for x, tgt in t['v'] if x == 0), t['o'])
            tt = next((tgt for x, tgt in t['v'] if x == 1), t['o'])
            for f in st.facts.assume(d, True):
                out.append(('goto', st.with_facts(f), tt))
            for f in st.facts.assume(d, False):
                out.append(('goto', st.with_facts(f), tf))
            return out
        rest = st.facts
        for x, tgt in t['v']:
            f = st.facts.with_cmp('Eq', d, C(x))
            if f is not None:
                out.append(('goto', st.with_facts(f), tgt))
            if rest is not None:
                rest = rest.with_cmp('Ne', d, C(x))
        if rest is not None:
            out.append(('goto', st.with_facts(rest), t['o']))
        return out

    def switch_discr(self, st, d, t):
        term, adt = d[1], d[2]
        vs = self.variants(adt)
        if vs is None:
            vs = {'std::cmp::Ordering': [('Less', -1), ('Equal', 0), ('Greater', 1)]}.get(adt)
        known = st.facts.variant(term)
        if known is not None and vs:
            vs = [x for x in vs if x[0] == known]
        if not vs:
            return [(st, tgt) for _, tgt in t['v']] + [(st, t['o'])]
        out = []
        for name, dv in vs:
            tgt = t['o']
            for x, tg in t['v']:
                if x == dv or (dv < 0 and x in (dv + (1 << 8), dv + (1 << 16), dv + (1 << 32), dv + (1 << 64))):
                    tgt = tg
            for f in self.assume_variant(st.facts, term, name):
                out.append((st.with_facts(f), tgt))
        return out

    def assume_variant(self, facts, term, name):
        if term[0] == 'ucmp':  # result of Ord::cmp / PartialOrd::partial_cmp on integers
            op = {'Less': 'Lt', 'Equal': 'Eq', 'Greater': 'Gt'}[name]
            f = facts.with_cmp(op, term[1], term[2])
            return [f] if f is not None else []
        if term[0] == 'boolopt':  # Option that is Some exactly when an atom holds
            return facts.assume(term[1], name in ('Some', 'Ok'))
        f = facts.with_variant(term, name)
        return [f] if f is not None else []

    def drop(self, st, v):
        for g in guards_in(v):
            self.release(st, g)

    def acquire(self, st, lock, mode, kind):
        n = st.fresh()
        g = ('guard', lock, n, mode, kind)
        self.ev(st, 'acquire', (lock, mode, kind))
        st.held = st.held + ((lock, mode, kind, n),)
        return g

    def release(self, st, g):
        key = (g[1], g[3], g[4], g[2])
        if key in st.held:
            st.held = tuple(h for h in st.held if h != key)
            self.ev(st, 'release', (g[1], g[3], g[4]))
            # what another holder does afterwards is unknown: forget the content
            cell = ('cell', g[1], g[2])
            if g[3] == 'w':
                c = st.heap.get(cell)
                sub = [(k, x) for k, x in st.heap.items() if contains_term(k, cell)]
                for k, _ in sub:
                    del st.heap[k]

    # ------------------------------------------------------------ calls
    def call(self, st, fid, b, t):
        f = self.operand(st, fid, t['f'])
        args = [self.operand(st, fid, a) for a in t['a']]
        dest = t['d']
        tgt = t['t']
        mx = t.get('mx') or ''
        if f[0] == 'fn':
            c = _thaw(f[2])
        else:
            c = None
        if mx.startswith('tracing::') or mx.startswith('log::') or (c and c['kr'] in ('tracing', 'tracing_core', 'log')):
            res = [(st, FALSE if self.p.types[t['dt']]['s'] == 'bool' else ('k', 'tracing'))]
        elif c is None:
            res = self.call_value(st, f, args, t.get('ln'))
        else:
            res = self.dispatch(st, c, args, t)
        out = []
        for s, v in res:
            if v is DIVERGE or tgt is None:
                self.end(s, 'panic')
                continue
            loc = self.place(s, fid, dest)
            self.set_site(s, t.get('ln'))
            self.store(s, loc, v)
            out.append(('goto', s, tgt))
        return out

    def dispatch(self, st, c, args, t):
        """c: callee record; returns [(state, value)]"""
        name = callname(c)
        m = self.models.get(name)
        ln = t.get('ln') if t else None
        dt = self.p.types[t['dt']] if t else None
        if m is not None:
            r = m(self, st, args, c, dt)
            if r is not None:
                return r
        key = c.get('rkey') or c['key']
        if not c.get('virt'):
            for kk in (c.get('rkey'), c['key']):
                bd = self.p.bodies.get(kk) if kk else None
                if bd is not None and not self.m.is_primitive(kk):
                    if sum(1 for x in st.stack if x[0] == kk) >= 2:
                        return [(st, ('rec', kk, st.fresh()))]
                    return self.exec_body(st, bd, args, ln)
        r = self.m.primitive(self, st, name, c, args, dt)
        if r is not None:
            return r
        for kk in (c.get('rkey'), c['key']):
            bd = self.p.foreign.get(kk) if kk else None
            if bd is not None:
                return self.exec_body(st, bd, args, ln)
        # constructor used as a function
        v = self.m.ctor(self, c, args)
        if v is not None:
            return [(st, v)]
        if t is not None and t.get('t') is None:
            return [(st, DIVERGE)]
        return self.m.opaque(self, st, name, c, args, t)

    def call_value(self, st, f, args, ln=None):
        """call a closure / function value with already untupled args"""
        f0 = f
        f = self.val(st, f)
        if f[0] in ('clo',):
            bd = self.p.bodies.get(f[1]) or self.p.foreign.get(f[1])
            if bd is None:
                return [(st, ('x', 'closure ' + f[1], tuple(self.deep(st, a) for a in args), st.fresh()))]
            self_arg = f0 if f0[0] in ('ref', 'addr') else f
            # by-value closure bodies and by-reference ones both read captures through field projections
            return self.exec_body(st, bd, [self_arg] + list(args), ln)
        if f[0] == 'fn':
            c = _thaw(f[2])
            return self.dispatch(st, c, list(args), None)
        st = st.copy()
        self.ev(st, 'dyncall', (f,) + tuple(self.deep(st, a) for a in args))
        return [(st, ('x', 'dyncall', (f,) + tuple(self.deep(st, a) for a in args), st.fresh()))]

    def poll(self, st, fut, ln=None):
        """complete a future; returns [(state, output)]"""
        fut = self.val(st, fut)
        if fut[0] == 'cor':
            bd = self.p.bodies.get(fut[1])
            if bd is None:
                return [(st, ('x', 'coroutine ' + fut[1], (), st.fresh()))]
            # the coroutine value lives in a pseudo local so that references to its captures resolve
            return self.exec_body(st, bd, [fut, ('k', 'cx')], ln)
        return self.m.poll_external(self, st, fut)

    # ------------------------------------------------------------ entry
    def run(self, key, args, await_result=True):
        b = self.p.bodies[key]
        st = State.new()
        res = self.exec_body(st, b, args, b['span'])
        self.finish(res, await_result, b)

    def run_value(self, fut, facts=None):
        st = State.new()
        if facts is not None:
            st.facts = facts
        st.stack = ()
        if fut[0] == 'stream':
            # the generic items of a stream, as the value returned
            from models import sgen
            for s, v in sgen(self, st, fut):
                self.end(s, 'ret', self.deep(s, v))
            return
        if fut[0] == 'clo':
            res = self.call_value(st, fut, [], None)
        else:
            res = self.poll(st, fut)
        for s, v in res:
            self.end(s, 'ret', self.deep(s, v))

    def finish(self, res, await_result, b):
        for s, v in res:
            v = self.val(s, v)
            if await_result and v[0] in ('cor', 'fut'):
                s = s.copy()
                for s2, v2 in self.poll(s, v, b['span']):
                    self.end(s2, 'ret', self.deep(s2, v2))
            else:
                self.end(s, 'ret', self.deep(s, v))


DIVERGE = ('diverge',)
_thawed = {}


def _freeze(c):
    """callee record -> hashable token"""
    k = id(c)
    tok = c.get('_tok')
    if tok is None:
        tok = repr(sorted((a, str(b)) for a, b in c.items() if a[0] != '_'))
        c['_tok'] = tok
        _thawed[tok] = c
    return tok


def _thaw(tok):
    return _thawed[tok]


def depth_tag(f, fid):
    return fid - f


def small(t, n=24):
    return t[0] not in ('agg', 'coll', 'cor', 'clo') and sum(1 for _ in walk(t)) <= n


_hg = {}


def has_guard(v):
    if not isinstance(v, tuple):
        return False
    r = _hg.get(v)
    if r is None:
        if v and v[0] == 'guard':
            r = True
        elif v and v[0] in ('ref', 'addr', 'c', 'cell'):
            r = False
        else:
            r = any(has_guard(x) for x in v)
        if len(_hg) > 200000:
            _hg.clear()
        _hg[v] = r
    return r


def guards_in(v):
    if not has_guard(v):
        return []
    if v[0] == 'guard':
        return [v]
    out = []
    for x in v:
        if isinstance(x, tuple):
            out += guards_in(x)
    return out


_sh = {}


def shape(t):
    """term with the serial numbers of fresh symbols erased"""
    if not isinstance(t, tuple):
        return t
    r = _sh.get(t)
    if r is not None:
        return r
    if t and t[0] in SERIAL:
        r = tuple(shape(x) for x in t[:-1])
    elif t and t[0] in ('guard', 'cell'):
        r = (t[0], shape(t[1]))
    else:
        r = tuple(shape(x) for x in t)
    if len(_sh) > 200000:
        _sh.clear()
    _sh[t] = r
    return r


def newest(t):
    return max([x[-1] for x in walk(t) if x[0] in SERIAL and isinstance(x[-1], int)] or [0])


SERIAL = {'elem', 'mkey', 'mval', 'ld', 'res', 'x', 'rec', 'new', 'opt', 'chan', 'it'}


def mark_many(o):
    if o[0] == 'add':
        return ('add', o[1], o[2], 'many')
    return o


FULL = 4
MANY = 200


def reduce(res, log0, nev0=None):
    """Outcomes of a call that differ only in how they came about (same returned value, same memory, same
    locks held, same facts about the returned value): keep the one with the longest and the one with the
    shortest history."""
    groups = {}
    for s, v in res:
        syms = {x for x in walk(v) if x[0] in ('res', 'ld', 'cell', 'elem', 'mval', 'mkey', 'arg', 'pf', 'phi')}
        rel = frozenset(shape(l[1:]) + (l[0],) for l in s.facts.log[log0:] if syms and any(x in syms for x in walk(l)))
        k = (shape(v), rel, s.held, frozenset((shape(a), shape(b)) for a, b in s.heap.items()),
             frozenset((a, shape(b)) for a, b in s.env.items()))
        if nev0 is not None:
            # the calls and stores made count as a difference here
            k += (frozenset((e.kind, e.a[0]) for e in s.event_list()[nev0:] if e.kind not in ('load', 'acquire', 'release', 'await')),)
        groups.setdefault(k, []).append((s, v))
    out = []
    for g in groups.values():
        g.sort(key=lambda x: (x[0].nev, len(x[0].facts.log)))
        out.append(g[-1])
        if len(g) > 1 and g[0][0].nev < g[-1][0].nev:
            out.append(g[0])
    return out


def dedupe(res):
    if len(res) < 2:
        return res
    seen, out = set(), []
    for s, v in res:
        k = (v, s.events if s.events is None else id(s.events), s.facts.key(), s.held,
             frozenset(s.heap.items()))
        if k in seen:
            continue
        seen.add(k)
        out.append((s, v))
    return out
