"""Value domain of the analysis: hash-consed tuples (value numbers), and the fact domain that
decides branches: variant facts, boolean atoms and difference bounds over integer value numbers."""

UNIT = ('agg', 'tup', '', '', ())
TRUE = ('c', True)
FALSE = ('c', False)
MOVED = ('moved',)


def C(v):
    return ('c', v)


def agg(kind, name, variant, fields):
    return ('agg', kind, name, variant, tuple(fields))


def tup(*xs):
    return ('agg', 'tup', '', '', tuple((str(i), x) for i, x in enumerate(xs)))


OPT = 'std::option::Option'
RES = 'std::result::Result'


def Some(x):
    return agg('enum', OPT, 'Some', (('0', x),))


NONE = agg('enum', OPT, 'None', ())


def Ok(x):
    return agg('enum', RES, 'Ok', (('0', x),))


def Err(x):
    return agg('enum', RES, 'Err', (('0', x),))


def is_agg(v, name=None, variant=None):
    return v[0] == 'agg' and (name is None or v[2] == name) and (variant is None or v[3] == variant)


def afield(v, n):
    for k, x in v[4]:
        if k == n:
            return x
    return None


def is_const(v):
    return v[0] == 'c'


def lin(t):
    """integer term -> (base, offset); constants have base None."""
    if t[0] == 'c':
        v = t[1]
        if isinstance(v, bool):
            return (None, int(v))
        if isinstance(v, int):
            return (None, v)
        return (t, 0)
    if t[0] == 'add':
        b, k = lin(t[1])
        return (b, k + t[2])
    return (t, 0)


def mk_add(t, k):
    b, o = lin(t)
    if b is None:
        return C(o + k)
    if o + k == 0:
        return b
    return ('add', b, o + k)


def walk(t):
    """every subterm of t"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(x)


def contains_term(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        return any(contains_term(x, sub) for x in t)
    return False


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if not isinstance(k, str):
        return '(' + ', '.join(show(x) for x in t) + ')'
    if k == 'c':
        return repr(t[1])
    if k == 'agg':
        n = t[2].split('::')[-1]
        if t[3]:
            n = n + '::' + t[3] if n else t[3]
        if t[1] == 'tup':
            return '(' + ', '.join(show(x) for _, x in t[4]) + ')'
        if not t[4]:
            return n
        return n + '{' + ', '.join(f'{a}: {show(x)}' for a, x in t[4]) + '}'
    if k == 'fld':
        return show(t[1]) + '.' + t[2].split('.')[-1]
    if k == 'g':
        return short(t[1])
    if k == 'G':
        return '<' + t[1].replace('crate::', '') + '>'
    if k == 'add' and len(t) == 3 and isinstance(t[2], int):
        return f'({show(t[1])}{t[2]:+d})'
    if k in ('clo', 'cor'):
        return f'{k}({t[1].split("::")[-1]})' if d else f'{k}({t[1]})[' + ', '.join(show(x) for x in t[2]) + ']'
    if k == 'bin':
        return f'({show(t[2])} {t[1]} {show(t[3])})'
    return k + '(' + ', '.join(show(x) for x in t[1:]) + ')'


def short(q):
    """last two components of a qualified field name"""
    q = q.replace('crate::', '')
    parts = q.split('::')
    return '::'.join(parts[-2:])


class Facts:
    """Conjunction of branch facts. Immutable: add() returns a new Facts or None when the fact
    contradicts what is known."""
    __slots__ = ('var', 'bools', 'edges', 'ne', 'log')

    def __init__(self, var=None, bools=None, edges=None, ne=None, log=()):
        self.var = var if var is not None else {}
        self.bools = bools if bools is not None else {}
        self.edges = edges if edges is not None else {}
        self.ne = ne if ne is not None else frozenset()
        self.log = log

    def key(self):
        return frozenset(self.log)

    # -- variants
    def variant(self, t):
        v = self.var.get(t)
        return v if isinstance(v, str) else None

    def excluded(self, t):
        v = self.var.get(t)
        return v if isinstance(v, frozenset) else frozenset()

    def with_variant(self, t, name):
        cur = self.var.get(t)
        if isinstance(cur, str):
            return self if cur == name else None
        if isinstance(cur, frozenset) and name in cur:
            return None
        d = dict(self.var)
        d[t] = name
        return Facts(d, self.bools, self.edges, self.ne, self.log + (('is', t, name),))

    def with_not_variant(self, t, names):
        cur = self.var.get(t)
        if isinstance(cur, str):
            return None if cur in names else self
        d = dict(self.var)
        d[t] = (cur or frozenset()) | frozenset(names)
        return Facts(d, self.bools, self.edges, self.ne, self.log + (('isnot', t, frozenset(names)),))

    # -- boolean atoms
    def truth(self, t):
        if t[0] == 'c':
            return bool(t[1])
        if t[0] == 'un' and t[1] == 'Not':
            r = self.truth(t[2])
            return None if r is None else not r
        if t[0] == 'bin' and t[1] in CMP:
            return self.cmp_truth(t[1], t[2], t[3])
        if t[0] == 'bin' and t[1] in ('BitAnd', 'BitOr'):
            a, b = self.truth(t[2]), self.truth(t[3])
            if t[1] == 'BitAnd':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
            return self.bools.get(t)
        return self.bools.get(t)

    def assume(self, t, val):
        """list of Facts refinements under which t == val"""
        r = self.truth(t)
        if r is not None:
            return [self] if r == val else []
        if t[0] == 'un' and t[1] == 'Not':
            return self.assume(t[2], not val)
        if t[0] == 'bin' and t[1] in CMP:
            f = self.with_cmp(t[1] if val else NEG[t[1]], t[2], t[3])
            return [f] if f is not None else []
        if t[0] == 'bin' and t[1] in ('BitAnd', 'BitOr'):
            if (t[1] == 'BitAnd') == val:
                return [g for f in self.assume(t[2], val) for g in f.assume(t[3], val)]
            out = []
            for f in self.assume(t[2], val):
                out.append(f)
            for f in self.assume(t[2], not val):
                out += f.assume(t[3], val)
            return out
        d = dict(self.bools)
        d[t] = val
        return [Facts(self.var, d, self.edges, self.ne, self.log + (('b', t, val),))]

    # -- integers
    def bound(self, x, y):
        """least known c with x - y <= c, or None. x, y are bases (None = the constant 0)."""
        if x == y:
            return 0
        # Bellman-Ford over the recorded edges; every value number is unsigned: 0 - t <= 0.
        dist = {x: 0}
        nodes = set()
        adj = {}
        for (a, b), c in self.edges.items():
            adj.setdefault(a, []).append((b, c))
            nodes.add(a)
            nodes.add(b)
        nodes |= {x, y, None}
        for _ in range(len(nodes) + 1):
            ch = False
            for a in list(dist):
                da = dist[a]
                for b, c in adj.get(a, ()):
                    if b not in dist or dist[b] > da + c:
                        dist[b] = da + c
                        ch = True
                if a is None:
                    for b in nodes:
                        if b is not None and (b not in dist or dist[b] > da):
                            dist[b] = da
                            ch = True
            if not ch:
                break
        else:
            return NEGINF
        return dist.get(y)

    def diff_le(self, a, b, c):
        """is a - b <= c entailed?"""
        (ba, ka), (bb, kb) = lin(a), lin(b)
        d = self.bound(ba, bb)
        return d is not None and d + ka - kb <= c

    def le(self, a, b):
        return self.diff_le(a, b, 0)

    def lt(self, a, b):
        return self.diff_le(a, b, -1) or (self.le(a, b) and self.known_ne(a, b))

    def known_ne(self, a, b):
        return ne_key(a, b) in self.ne

    def eq(self, a, b):
        return a == b or (self.le(a, b) and self.le(b, a))

    def discr_truth(self, d, k):
        vs = VARIANTS[0](d[2]) if VARIANTS else None
        if not vs or not isinstance(k, int):
            return None
        cur = self.var.get(d[1])
        if d[1][0] == 'boolopt':
            b = self.truth(d[1][1])
            cur = None if b is None else 'Some' if b else 'None'
        names = [n for n, v in vs if v == k]
        if isinstance(cur, str):
            return cur in names
        if not names or isinstance(cur, frozenset) and all(n in cur for n in names):
            return False
        return None

    def cmp_truth(self, op, a, b):
        if op in ('Eq', 'Ne'):
            r = None
            for x, y in ((a, b), (b, a)):
                if x[0] == 'discr' and y[0] == 'c':
                    r = self.discr_truth(x, y[1])
                    if r is not None:
                        return r if op == 'Eq' else not r
            if a == b:
                r = True
            elif a[0] == 'c' and b[0] == 'c':
                r = a[1] == b[1]
            elif self.known_ne(a, b):
                r = False
            elif self.bools.get(('eqv',) + eq_key(a, b)) is not None:
                r = self.bools[('eqv',) + eq_key(a, b)]
            elif self.le(a, b) and self.le(b, a):
                r = True
            elif self.diff_le(a, b, -1) or self.diff_le(b, a, -1):
                r = False
            if r is None:
                return None
            return r if op == 'Eq' else not r
        if op == 'Lt':
            if self.lt(a, b):
                return True
            if self.le(b, a):
                return False
        if op == 'Le':
            if self.le(a, b):
                return True
            if self.lt(b, a):
                return False
        if op == 'Gt':
            return self.cmp_truth('Lt', b, a)
        if op == 'Ge':
            return self.cmp_truth('Le', b, a)
        return None

    def with_edge(self, a, b, c):
        (ba, ka), (bb, kb) = lin(a), lin(b)
        c = c + kb - ka
        k = (ba, bb)
        if self.edges.get(k, 1 << 80) <= c:
            return self
        d = dict(self.edges)
        d[k] = c
        f = Facts(self.var, self.bools, d, self.ne, self.log)
        back = f.bound(bb, ba)
        if back is not None and (back == NEGINF or back + c < 0):
            return None
        return f

    def with_discr(self, op, d, k):
        """discriminant of d compared with k -> Facts, None (contradiction) or False (cannot tell)"""
        term, vs = d[1], VARIANTS[0](d[2]) if VARIANTS else None
        if not vs or not isinstance(k, int) or op not in ('Eq', 'Ne'):
            return False
        names = [n for n, v in vs if (v == k) == (op == 'Eq')]
        if not names:
            return None
        if term[0] == 'boolopt':
            if len(names) != 1:
                return self
            r = self.assume(term[1], names[0] in ('Some', 'Ok'))
            return r[0] if len(r) == 1 else None if not r else False
        if term[0] == 'ucmp':
            return False
        if len(names) == 1:
            return self.with_variant(term, names[0])
        cur = self.var.get(term)
        if isinstance(cur, frozenset):
            names = [n for n in names if n not in cur]
            if len(names) == 1:
                return self.with_variant(term, names[0])
        return self.with_not_variant(term, [n for n, v in vs if n not in names])

    def with_cmp(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'discr' and y[0] == 'c':
                r = self.with_discr(op, x, y[1])
                if r is not False:
                    return r
        t = self.cmp_truth(op, a, b)
        if t is True:
            return self
        if t is False:
            return None
        f = self
        if op == 'Gt':
            return self.with_cmp('Lt', b, a)
        if op == 'Ge':
            return self.with_cmp('Le', b, a)
        if op == 'Lt':
            f = f.with_edge(a, b, -1)
        elif op == 'Le':
            f = f.with_edge(a, b, -1 if f.known_ne(a, b) else 0)
        elif op == 'Eq':
            f = f.with_edge(a, b, 0)
            f = f and f.with_edge(b, a, 0)
        elif op == 'Ne':
            ne = f.ne | {ne_key(a, b)}
            f = Facts(f.var, f.bools, f.edges, ne, f.log)
            if f.le(a, b):
                f = f.with_edge(a, b, -1)
            elif f.le(b, a):
                f = f.with_edge(b, a, -1)
        if f is None:
            return None
        return Facts(f.var, f.bools, f.edges, f.ne, f.log + (('cmp', op, a, b),))

    def with_eqv(self, a, b, val):
        """structural equality atom on non-integers"""
        k = ('eqv',) + eq_key(a, b)
        return self.assume(k, val)


VARIANTS = []      # [function: name of an enum -> [(variant, discriminant)]]
NEGINF = -(1 << 90)
CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}
NEG = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le'}


def eq_key(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


def ne_key(a, b):
    return frozenset((a, b))
