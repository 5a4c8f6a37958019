"""Transfer functions for calls that leave the crate (std, tokio, futures, redb, tonic, ...).

A model takes (analyzer, state, args, callee record, result type) and returns [(state, value)], or
None to decline. A callee without a model is an opaque call: one 'call' event and a fresh value."""
from terms import *
import engine as E

TABLE = {}
POLL = 'std::task::Poll'
CF = 'std::ops::ControlFlow'
ORD = 'std::cmp::Ordering'
INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'char'}
OK0 = 'std::result::Result::Ok.0'
ERR0 = 'std::result::Result::Err.0'
SOME0 = 'std::option::Option::Some.0'


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def ready(v):
    return agg('enum', POLL, 'Ready', (('0', v),))


def payload(v, variant):
    """payload of an Option/Result value known to be in the given variant"""
    if v[0] == 'agg':
        return v[4][0][1] if v[4] else UNIT
    if v[0] == 'boolopt':
        return v[2]
    return ('fld', v, {'Ok': OK0, 'Err': ERR0, 'Some': SOME0}.get(variant, variant + '.0'))


def cases(an, st, v, adt):
    """split on the variant of v: [(state, variant, payload)]"""
    v = an.val(st, v)
    if v[0] == 'agg' and v[1] == 'enum':
        return [(st, v[3], payload(v, v[3]))]
    names = ('Some', 'None') if adt == OPT else ('Ok', 'Err')
    k = st.facts.variant(v)
    out = []
    for n in names:
        if k is not None and k != n:
            continue
        for f in an.assume_variant(st.facts, v, n):
            out.append((st.with_facts(f), n, payload(v, n) if n != 'None' else UNIT))
    return out


def adt_of(an, c, i='st'):
    t = an.p.types[c[i]] if i in c and isinstance(c.get(i), int) else None
    if not t:
        return None
    return t.get('adt') or strip_ref(t['s'])


def strip_ref(s):
    while s.startswith('&'):
        s = s[1:]
        if s.startswith("'"):
            s = s.split(' ', 1)[1]
        if s.startswith('mut '):
            s = s[4:]
    return s


def call(an, st, name, args, ret=None):
    """an effect: event plus fresh result"""
    st = st.copy()
    args = tuple(an.deep(st, a) for a in args)
    r = ret if ret is not None else ('res', name, args, st.fresh())
    an.ev(st, 'call', (name,) + args, r)
    return [(st, r)]


def pure(name, args):
    return ('pf', name, tuple(args))


# ------------------------------------------------------------------ plumbing
IDENT = '''Box::new Box::pin Arc::clone Pin::new Pin::new_unchecked IntoFuture::into_future Pin::as_mut Pin::get_mut
Pin::get_unchecked_mut Pin::into_inner Request::into_inner Response::into_inner Response::new Request::new
must_use unconstrained AsRef::as_ref AsMut::as_mut Borrow::borrow BorrowMut::borrow_mut ToOwned::to_owned String::as_str
String::as_bytes str::as_bytes str::to_owned str::to_string Vec::as_slice Vec::as_mut_slice Vec::into_boxed_slice
Bytes::to_vec [T]::to_vec Bytes::from Bytes::copy_from_slice Vec::leak [T]::into_vec String::into_bytes Into::into From::from
Option::as_deref Option::as_deref_mut Option::as_ref Option::as_mut Option::cloned Option::copied Option::as_pin_mut
black_box identity Cow::into_owned Wrapping AssertUnwindSafe Bytes::slice_ref Arguments::from_str
Arguments::from_str_nonconst Argument::new_display Argument::new_debug Clone::clone Clone::clone_from Rc::new
FutureExt::boxed StreamExt::boxed FutureExt::fuse StreamExt::fuse Iterator::fuse Iterator::peekable Iterator::by_ref
Iterator::cloned Iterator::copied Vec::into_iter Instrument::instrument Pin::set Result::as_ref Result::as_mut
Result::cloned Result::copied AccessGuard::value TryFrom::try_from_ AsyncRead FutureExt::map_into Future::boxed
Box::into_pin Box::into_inner Arc::from Box::from Cow::Owned unpin'''.split()
ident_names = set(IDENT)


def base(name):
    return name.split('|', 1)[-1]


def deref_target(an, st, v):
    """&Wrapper<T> -> &T for the transparent wrappers"""
    x = an.val(st, v)
    if x[0] == 'guard':
        return ('addr', ('cell', x[1], x[2]))
    return v


def m_deref(an, st, args, c, dt):
    k = c.get('rkey')
    if k and k in an.p.bodies:
        return None
    return [(st, deref_target(an, st, args[0]))]


TABLE['Deref::deref'] = m_deref
TABLE['DerefMut::deref_mut'] = m_deref


def conv_body(an, c):
    """local From impl behind Into::into / From::from"""
    ta = c.get('ta') or []
    if c['n'] == 'into' and len(ta) >= 2:
        src, dst = ta[0], ta[1]
    elif c['n'] == 'from' and len(ta) >= 2:
        dst, src = ta[0], ta[1]
    else:
        return None
    for b in an.p.bodies.values():
        if b.get('trait', '').startswith('std::convert::From') and b['key'].endswith('::from') and 'generated' not in b['key']:
            if dst in (b['self_ty'], 'crate::' + b['self_ty']) and ('<' not in b['trait'] or src.split('::')[-1] in b['path']):
                return b
    return None


def wrap_arc(an, st, v):
    """a value of a type that is shared behind an Arc becomes the one shared instance of the process"""
    v = an.val(st, v)
    if v[0] == 'agg' and v[2] in an.p.shared:
        an.inits.setdefault(v[2], set()).add(an.deep(st, v))
        return ('G', v[2])
    return v


@model('Into::into', 'From::from')
def m_into(an, st, args, c, dt):
    b = conv_body(an, c)
    if b is not None:
        return an.exec_body(st, b, args, an.site(st))
    if dt and dt['s'].startswith('std::sync::Arc<'):
        return [(st, shared_cell(an, st, args[0], dt))]
    kd = dt and kind_of_type(dt['s'])
    if kd:
        v = an.deep(st, args[0])
        if v[0] == 'agg' and v[1] == 'arr':
            v = arr_coll(v)
        if v[0] == 'coll' and v[1] != kd and all(o[0] == 'add' for o in v[2]):
            ops = v[2]
            if kd == 'map':
                ops = tuple(('add', (an.project(o[1], ('f', '(0)', 0)), an.project(o[1], ('f', '(1)', 1)))) + o[2:] for o in ops)
            return [(st, ('coll', kd, ops, v[3]))]
        if v[0] == 'coll':
            return [(st, v)]
    return [(st, args[0])]


@model('core|Option::unwrap_or_default', 'Option::unwrap_or_default', 'core|Result::unwrap_or_default', 'Result::unwrap_or_default')
def m_unwrap_or_default(an, st, args, c, dt):
    out = []
    v = an.val(st, args[0])
    adt = OPT if 'Option' in c['p'] else RES
    for s, n, p in cases(an, st, v, adt):
        out.append((s, p if n in ('Some', 'Ok') else default_of(an, dt['s'] if dt else '')))
    return out


def shared_cell(an, st, v, dt):
    """Arc<Mutex<T>>: the cell has an identity of its own (its allocation site)"""
    t = dt['s'] if dt else ''
    if any(t.startswith('std::sync::Arc<' + p) for p in ('spin::', 'tokio::sync::Mutex', 'tokio::sync::RwLock', 'std::sync::Mutex',
                                                       'std::sync::RwLock', 'std::sync::atomic', 'lock_api', 'parking_lot')):
        r = ('new', 'shared', site_id(st))
        an.inits.setdefault(r, set()).add(an.deep(st, v))
        return r
    return wrap_arc(an, st, v)


@model('alloc|Arc::new')
def m_arc(an, st, args, c, dt):
    return [(st, shared_cell(an, st, args[0], dt))]


@model('Clone::clone')
def m_clone(an, st, args, c, dt):
    k = c.get('rkey')
    b = an.p.bodies.get(k) if k else None
    if b is not None and not b.get('derived'):
        return None
    return [(st, an.val(st, args[0]))]


@model('core|get_context')
def m_ctx(an, st, args, c, dt):
    return [(st, ('k', 'cx'))]


@model('Future::poll')
def m_poll(an, st, args, c, dt):
    return [(s, ready(v)) for s, v in an.poll(st, args[0])]


@model('FutureExt::poll_unpin')
def m_poll2(an, st, args, c, dt):
    return m_poll(an, st, args, c, dt)


@model('Try::branch')
def m_branch(an, st, args, c, dt):
    adt = adt_of(an, c) or RES
    if adt.startswith(OPT):
        adt = OPT
    elif adt.startswith(RES):
        adt = RES
    elif adt.startswith(CF):
        return None
    out = []
    for s, n, p in cases(an, st, args[0], adt):
        if n in ('Ok', 'Some', 'Ready'):
            out.append((s, agg('enum', CF, 'Continue', (('0', p),))))
        else:
            out.append((s, agg('enum', CF, 'Break', (('0', Err(p) if n == 'Err' else NONE),))))
    return out


@model('FromResidual::from_residual')
def m_resid(an, st, args, c, dt):
    v = an.val(st, args[0])
    return [(st, v)]


@model('anyhow|not')
def m_not(an, st, args, c, dt):
    v = an.val(st, args[0])
    return [(st, C(not v[1]) if v[0] == 'c' else v[2] if v[0] == 'un' and v[1] == 'Not' else ('un', 'Not', v))]


@model('Not::not')
def m_not2(an, st, args, c, dt):
    return m_not(an, st, args, c, dt)


@model('Context::context', 'Context::with_context')
def m_context(an, st, args, c, dt):
    t = an.p.types[c['st']]['s'] if 'st' in c else ''
    adt = OPT if strip_ref(t).startswith(OPT) else RES
    out = []
    for s, n, p in cases(an, st, args[0], adt):
        if n in ('Ok', 'Some'):
            out.append((s, Ok(p)))
        else:
            out.append((s, Err(pure('context', (an.deep(s, args[1]),)))))
    return out


@model('FnOnce::call_once', 'Fn::call', 'FnMut::call_mut', 'AsyncFn::async_call')
def m_callonce(an, st, args, c, dt):
    f = args[0]
    t = an.val(st, args[1]) if len(args) > 1 else UNIT
    xs = [x for _, x in t[4]] if t[0] == 'agg' else [t]
    return an.call_value(st, f, xs, an.site(st))


@model('core|drop')
def m_drop(an, st, args, c, dt):
    st = st.copy()
    an.drop(st, args[0])
    return [(st, UNIT)]


@model('core|forget')
def m_forget(an, st, args, c, dt):
    st = st.copy()
    an.ev(st, 'forget', (an.deep(st, args[0]),))
    return [(st, UNIT)]


@model('core|ManuallyDrop::new', 'ManuallyDrop::new', 'core|Box::leak', 'alloc|Box::leak', 'Box::leak', 'core|Box::into_raw', 'alloc|Box::into_raw', 'core|Arc::into_raw', 'alloc|Arc::into_raw')
def m_leak(an, st, args, c, dt):
    st = st.copy()
    an.ev(st, 'forget', (an.deep(st, args[0]),))
    return [(st, args[0])]


@model('core|replace')
def m_replace(an, st, args, c, dt):
    loc = an.loc_of(st, args[0])
    old = an.val(st, args[0])
    st = st.copy()
    if loc:
        an.store(st, loc, args[1])
    return [(st, old)]


@model('core|take', 'Option::take', 'core|Option::take')
def m_take(an, st, args, c, dt):
    loc = an.loc_of(st, args[0])
    old = an.val(st, args[0])
    st = st.copy()
    if loc:
        new = default_of(an, dt['s'] if dt else '', old)
        an.store(st, loc, new)
    return [(st, old)]


@model('core|swap')
def m_swap(an, st, args, c, dt):
    la, lb = an.loc_of(st, args[0]), an.loc_of(st, args[1])
    a, b = an.val(st, args[0]), an.val(st, args[1])
    st = st.copy()
    if la and lb:
        an.store(st, la, b)
        an.store(st, lb, a)
    return [(st, UNIT)]


def default_of(an, ty, old=None):
    if ty.startswith(OPT):
        return NONE
    if ty in INTS:
        return C(0)
    if ty == 'bool':
        return FALSE
    k = kind_of_type(ty)
    if k:
        return empty(k)
    if old is not None and old[0] == 'coll':
        return empty(old[1])
    if 'String' in ty:
        return C('')
    return pure('default', (ty,))


@model('Default::default')
def m_default(an, st, args, c, dt):
    k = c.get('rkey')
    if k in an.p.bodies:
        return None
    return [(st, default_of(an, dt['s'] if dt else ''))]


# ------------------------------------------------------------------ comparison
def is_int_type(s):
    return strip_ref(s) in INTS


def int_struct(an, adt):
    a = an.p.adts.get(adt)
    if a and a.get('local') and len(a['variants']) == 1 and a['variants'][0]['f'] and \
            all(f['t'] in INTS for f in a['variants'][0]['f']):
        return [f['n'] for f in a['variants'][0]['f']]
    return None


def conj(xs):
    r = None
    for x in xs:
        if x == TRUE:
            continue
        if x == FALSE:
            return FALSE
        r = x if r is None else ('bin', 'BitAnd', r, x)
    return r if r is not None else TRUE


def eq_term(an, st, a, b, ty):
    """[(state, truth term)] for a == b"""
    a, b = an.val(st, a), an.val(st, b)
    if a == b:
        return [(st, TRUE)]
    ty = strip_ref(ty)
    if a[0] == 'c' and b[0] == 'c':
        return [(st, C(a[1] == b[1]))]
    if ty in INTS:
        return [(st, an.binop(st, 'Eq', a, b))]
    if ty == 'bool':
        if a[0] == 'c':
            a, b = b, a
        if b[0] == 'c':
            return [(st, a if b[1] else ('un', 'Not', a))]
    if ty.startswith(ORD):
        if b[0] == 'agg' and a[0] == 'ucmp':
            op = {'Less': 'Lt', 'Equal': 'Eq', 'Greater': 'Gt'}[b[3]]
            return [(st, an.binop(st, op, a[1], a[2]))]
    if ty.startswith(OPT) or ty.startswith(RES):
        adt = OPT if ty.startswith(OPT) else RES
        inner = ty[len(adt) + 1:-1] if ty.endswith('>') else ''
        out = []
        for s, n, p in cases(an, st, a, adt):
            for s2, n2, p2 in cases(an, s, b, adt):
                if n != n2:
                    out.append((s2, FALSE))
                elif n == 'None':
                    out.append((s2, TRUE))
                else:
                    out += eq_term(an, s2, p, p2, inner)
        return out
    if a[0] == 'agg' and b[0] == 'agg':
        if a[1] == 'enum' and b[1] == 'enum' and a[3] != b[3]:
            return [(st, FALSE)]
        if a[1:4] == b[1:4] and len(a[4]) == len(b[4]) and a[1] in ('struct', 'tup', 'enum'):
            fts = None
            ad = an.p.adts.get(a[2])
            if ad:
                for v in ad['variants']:
                    if v['n'] == a[3] or len(ad['variants']) == 1:
                        fts = [f['t'] for f in v['f']]
            if a[1] == 'tup':
                fts = split_tuple(ty)
            acc = [(st, [])]
            for i, ((_, x), (_, y)) in enumerate(zip(a[4], b[4])):
                ft = fts[i] if fts and i < len(fts) else ('u64' if is_intlike(x) or is_intlike(y) else '')
                acc = [(s2, l + [t]) for s, l in acc for s2, t in eq_term(an, s, x, y, ft)]
            return [(s, conj(l)) for s, l in acc]
    fs = int_struct(an, ty if ty.startswith('crate::') else 'crate::' + ty)
    if fs:
        adt = ty if ty.startswith('crate::') else 'crate::' + ty
        ts = [an.binop(st, 'Eq', an.val(st, an.project(a, ('f', adt + '.' + f, i))),
                       an.val(st, an.project(b, ('f', adt + '.' + f, i)))) for i, f in enumerate(fs)]
        return [(st, conj(ts))]
    if a[0] == 'agg' and b[0] != 'agg':
        a, b = b, a
    if b[0] == 'agg' and b[1] == 'enum' and not b[4]:
        # comparison with a unit variant
        out = []
        for f in an.assume_variant(st.facts, a, b[3]):
            out.append((st.with_facts(f), TRUE))
        f = st.facts.with_not_variant(a, (b[3],))
        if f is not None:
            out.append((st.with_facts(f), FALSE))
        return out
    atom = ('eqv',) + eq_key(an.deep(st, a), an.deep(st, b))
    t = st.facts.truth(atom)
    return [(st, C(t) if t is not None else atom)]


def is_intlike(x):
    return x[0] == 'add' or (x[0] == 'c' and isinstance(x[1], int) and not isinstance(x[1], bool)) or x[0] == 'ld'


def split_tuple(s):
    if not s.startswith('('):
        return None
    out, d, cur = [], 0, ''
    for ch in s[1:-1]:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def ty_of_cmp(an, c):
    if 'st' in c:
        return strip_ref(an.p.types[c['st']]['s'])
    ta = c.get('ta') or ['']
    return strip_ref(ta[0])


def local_impl(an, c):
    k = c.get('rkey')
    b = an.p.bodies.get(k) if k else None
    return b


@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(an, st, args, c, dt):
    ne = c['n'] == 'ne'
    ty = ty_of_cmp(an, c)
    b = local_impl(an, c)
    if b is None:
        # eq/ne of a crate type through a reference or the provided `ne`
        for x in an.p.bodies.values():
            if x.get('trait') == 'std::cmp::PartialEq' and x['key'].endswith('::eq') and x['self_ty'] in (ty, ty.replace('crate::', '')):
                b = x
    if b is not None and not b.get('derived'):
        rs = an.exec_body(st, b, [args[0], args[1]], an.site(st))
        # references to references: the body dereferences once
    else:
        rs = eq_term(an, st, args[0], args[1], ty)
    out = []
    for s, v in rs:
        v = an.val(s, v)
        if ne:
            v = C(not v[1]) if v[0] == 'c' else v[2] if v[0] == 'un' and v[1] == 'Not' else ('un', 'Not', v)
        out.append((s, v))
    return out


OPN = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}


def fields_of(an, st, v, ty):
    v = an.val(st, v)
    if v[0] == 'agg' and v[1] in ('tup', 'struct'):
        return [an.val(st, x) for _, x in v[4]]
    adt = ty if ty.startswith('crate::') else 'crate::' + ty
    fs = int_struct(an, adt)
    if fs:
        return [an.val(st, an.project(v, ('f', adt + '.' + f, i))) for i, f in enumerate(fs)]
    if ty.startswith('('):
        return [an.val(st, an.project(v, ('f', '(%d)' % i, i))) for i in range(len(split_tuple(ty)))]
    return None


def lex(an, st, op, xs, ys):
    """lexicographic comparison as a truth term"""
    if len(xs) == 1:
        return an.binop(st, op, xs[0], ys[0])
    strict = 'Lt' if op in ('Lt', 'Le') else 'Gt'
    a = an.binop(st, strict, xs[0], ys[0])
    e = an.binop(st, 'Eq', xs[0], ys[0])
    r = lex(an, st, op, xs[1:], ys[1:])
    er = conj([e, r])
    if a == TRUE or er == TRUE:
        return TRUE
    if a == FALSE:
        return er
    if er == FALSE:
        return a
    return ('bin', 'BitOr', a, er)


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ord(an, st, args, c, dt):
    ty = ty_of_cmp(an, c)
    a, b = an.val(st, args[0]), an.val(st, args[1])
    op = OPN[c['n']]
    if ty not in INTS:
        bd = None
        for x in an.p.bodies.values():
            if x.get('trait') == 'std::cmp::PartialOrd' and x['self_ty'] in (ty, ty.replace('crate::', '')) and not x.get('derived'):
                bd = x
        if bd is not None:
            out = []
            for s, v in an.exec_body(st, bd, args, an.site(st)):
                for s2, n, p in cases(an, s, v, OPT):
                    if n == 'None':
                        out.append((s2, FALSE))
                        continue
                    p = an.val(s2, p)
                    if p[0] == 'ucmp':
                        out.append((s2, an.binop(s2, op, p[1], p[2])))
                    elif p[0] == 'agg':
                        t = {'Less': -1, 'Equal': 0, 'Greater': 1}[p[3]]
                        out.append((s2, C({'Lt': t < 0, 'Le': t <= 0, 'Gt': t > 0, 'Ge': t >= 0}[op])))
                    else:
                        out.append((s2, ('bin', op, p, C(0))))
            return out
        fa, fb = fields_of(an, st, a, ty), fields_of(an, st, b, ty)
        if fa and fb and len(fa) == len(fb):
            return [(st, lex(an, st, op, fa, fb))]
    return [(st, an.binop(st, op, a, b))]


@model('Ord::cmp', 'PartialOrd::partial_cmp')
def m_cmp(an, st, args, c, dt):
    ty = ty_of_cmp(an, c)
    b = local_impl(an, c)
    if b is not None and not b.get('derived'):
        return None
    wrap = Some if c['n'] == 'partial_cmp' else (lambda x: x)
    a, b = an.val(st, args[0]), an.val(st, args[1])
    rev = False
    if a[0] == 'agg' and a[2].endswith('cmp::Reverse'):
        a, b = an.val(st, b[4][0][1]), an.val(st, a[4][0][1])
        ty = ''
    if ty not in INTS:
        fa, fb = fields_of(an, st, a, ty), fields_of(an, st, b, ty)
        if fa and fb and len(fa) == len(fb):
            out = []
            cur = [st]
            for i, (x, y) in enumerate(zip(fa, fb)):
                if i == len(fa) - 1:
                    out += [(s, wrap(ucmp(s, x, y))) for s in cur]
                    break
                nxt = []
                for s in cur:
                    for op, n in (('Lt', 'Less'), ('Gt', 'Greater')):
                        f = s.facts.with_cmp(op, x, y)
                        if f is not None:
                            out.append((s.with_facts(f), wrap(agg('enum', ORD, n, ()))))
                    f = s.facts.with_cmp('Eq', x, y)
                    if f is not None:
                        nxt.append(s.with_facts(f))
                cur = nxt
            return out
    return [(st, wrap(ucmp(st, a, b)))]


def ucmp(st, x, y):
    for op, n in (('Lt', 'Less'), ('Eq', 'Equal'), ('Gt', 'Greater')):
        if st.facts.cmp_truth(op, x, y):
            return agg('enum', ORD, n, ())
    return ('ucmp', x, y)


def m_minmax(an, st, args, c, dt):
    a, b = an.val(st, args[0]), an.val(st, args[1])
    out = []
    lo = c['n'] == 'min'
    f = st.facts.with_cmp('Le', a, b)
    if f is not None:
        out.append((st.with_facts(f), a if lo else b))
    f = st.facts.with_cmp('Gt', a, b)
    if f is not None:
        out.append((st.with_facts(f), b if lo else a))
    return out


for _n in ('core|min', 'core|max', 'Ord::min', 'Ord::max'):
    TABLE[_n] = m_minmax


def m_satsub(an, st, args, c, dt):
    a, b = an.val(st, args[0]), an.val(st, args[1])
    out = []
    n = c['n']
    f = st.facts.with_cmp('Ge', a, b)
    if f is not None:
        v = an.binop(st, 'Sub', a, b)
        out.append((st.with_facts(f), Some(v) if n.startswith('checked') else v))
    f = st.facts.with_cmp('Lt', a, b)
    if f is not None:
        out.append((st.with_facts(f), NONE if n.startswith('checked') else C(0)))
    return out


def m_arith(op, opt=False):
    def f(an, st, args, c, dt):
        v = an.binop(st, op, args[0], args[1])
        return [(st, Some(v) if opt else v)]
    return f


for _t in INTS:
    for _p in ('core|' + _t, 'core|{}'.format(_t)):
        TABLE[_p + '::saturating_sub'] = m_satsub
        TABLE[_p + '::checked_sub'] = m_satsub
        TABLE[_p + '::saturating_add'] = m_arith('Add')
        TABLE[_p + '::wrapping_add'] = m_arith('Add')
        TABLE[_p + '::checked_add'] = m_arith('Add', True)
        TABLE[_p + '::saturating_mul'] = m_arith('Mul')
        TABLE[_p + '::checked_mul'] = m_arith('Mul', True)
        TABLE[_p + '::wrapping_sub'] = m_arith('Sub')
        TABLE[_p + '::div_euclid'] = m_arith('Div')

for _tr, _m in (('Add::add', 'Add'), ('Mul::mul', 'Mul'), ('Div::div', 'Div')):
    def _mk(op):
        def f(an, st, args, c, dt):
            if dt and dt['s'] in INTS:
                return [(st, an.binop(st, op, args[0], args[1]))]
            return [(st, pure(op, tuple(an.deep(st, a) for a in args)))]
        return f
    TABLE[_tr] = _mk(_m)


@model('Sub::sub')
def m_sub(an, st, args, c, dt):
    if dt and dt['s'] in INTS:
        return [(st, an.binop(st, 'Sub', args[0], args[1]))]
    return [(st, pure('Sub', tuple(an.deep(st, a) for a in args)))]


@model('AddAssign::add_assign', 'SubAssign::sub_assign')
def m_opassign(an, st, args, c, dt):
    loc = an.loc_of(st, args[0])
    v = an.binop(st, 'Add' if 'add' in c['n'] else 'Sub', an.val(st, args[0]), args[1])
    st = st.copy()
    if loc:
        an.store(st, loc, v)
    return [(st, UNIT)]


# ------------------------------------------------------------------ strings, codecs, formatting
@model('ToString::to_string', 'alloc|format', 'NodeId::to_string')
def m_tostring(an, st, args, c, dt):
    v = an.deep(st, args[0])
    if c['n'] == 'format':
        return [(st, v)]
    ty = ty_of_cmp(an, c)
    if ty in ('std::string::String', 'str'):
        return [(st, v)]
    return [(st, pure('to_string', (v,)))]


@model('core|str::parse', 'FromStr::from_str')
def m_parse(an, st, args, c, dt):
    v = an.deep(st, args[0])
    if v[0] == 'pf' and v[1] == 'to_string':
        return [(st, Ok(v[2][0]))]
    return [(st, pure('parse', (v, dt['s'] if dt else '')))]


@model('core|Arguments::new')
def m_fmtargs(an, st, args, c, dt):
    xs = []
    for a in args:
        v = an.deep(st, a)
        if v[0] == 'agg' and v[1] == 'arr':
            xs += [x for _, x in v[4]]
        else:
            xs.append(v)
    return [(st, pure('fmt', tuple(xs)))]


@model('bincode|serialize')
def m_ser(an, st, args, c, dt):
    return [(st, Ok(('ser', an.deep(st, args[0]))))]


@model('bincode|deserialize')
def m_deser(an, st, args, c, dt):
    v = an.deep(st, args[0])
    if v[0] == 'ser':
        return [(st, Ok(v[1]))]
    t = dt['s'] if dt else ''
    t = t.replace("'_", '').replace("'{erased}", '')
    return [(st, pure('deser', (v, E.gstrip(t.split('<', 1)[-1].split(',')[0]).strip())))]


# ------------------------------------------------------------------ atomics
def loc_term(an, st, v):
    loc = an.loc_of(st, v)
    if loc is None:
        return an.val(st, v)
    if loc[0] == 'T':
        return an.address(st, loc)
    return an.val(st, v)


def m_atomic(an, st, args, c, dt):
    n = c['n']
    st = st.copy()
    a = loc_term(an, st, args[0])
    if n == 'new':
        return [(st, args[0])]
    if n == 'load':
        r = ('ld', a, st.fresh())
        an.ev(st, 'load', (a,), r)
        return [(st, r)]
    vals = [an.val(st, x) for x in args[1:]]
    if n == 'store':
        an.ev(st, 'store', (a, vals[0]))
        return [(st, UNIT)]
    if n in ('fetch_max', 'fetch_min', 'fetch_add', 'fetch_sub', 'swap'):
        r = ('ld', a, st.fresh())
        an.ev(st, 'load', (a,), r)
        if n in ('fetch_add', 'fetch_sub'):
            an.ev(st, 'store', (a, an.binop(st, 'Add' if n == 'fetch_add' else 'Sub', r, vals[0])))
        elif n == 'swap':
            an.ev(st, 'store', (a, vals[0]))
        else:
            an.ev(st, n, (a, vals[0]))
        return [(st, r)]
    if n in ('compare_exchange', 'compare_exchange_weak'):
        r = ('ld', a, st.fresh())
        out = []
        f = st.facts.with_cmp('Eq', r, vals[0])
        if f is not None:
            s = st.with_facts(f)
            an.ev(s, 'load', (a,), r)
            an.ev(s, 'store', (a, vals[1]))
            out.append((s, Ok(r)))
        s = st.copy()
        an.ev(s, 'load', (a,), r)
        out.append((s, Err(r)))
        return out
    return None


for _n in ('new load store fetch_max fetch_min fetch_add fetch_sub swap compare_exchange compare_exchange_weak').split():
    for _p in ('core|Atomic::', 'core|AtomicU64::', 'core|AtomicBool::', 'core|AtomicUsize::'):
        TABLE[_p + _n] = m_atomic


# ------------------------------------------------------------------ locks
def lockterm(an, st, v):
    return loc_term(an, st, v)


def m_spinlock(mode):
    def f(an, st, args, c, dt):
        st = st.copy()
        l = lockterm(an, st, args[0])
        if any(h[0] == l and h[2] == 'spin' and (h[1] == 'w' or mode == 'w') for h in st.held):
            an.ev(st, 'selfdeadlock', (l,))
        return [(st, an.acquire(st, l, mode, 'spin'))]
    return f


for _k in ('spin', 'std', 'parking_lot', 'lock_api'):
    for _n, _m in (('Mutex::lock', 'w'), ('RwLock::read', 'r'), ('RwLock::write', 'w')):
        if _k == 'std':
            def _mk2(m):
                g = m_spinlock(m)

                def f(an, st, args, c, dt):
                    return [(s, Ok(v)) for s, v in g(an, st, args, c, dt)]
                return f
            TABLE['std|' + _n] = _mk2(_m)
        else:
            TABLE[_k + '|' + _n] = m_spinlock(_m)


@model('spin|Mutex::try_lock', 'spin|RwLock::try_read', 'spin|RwLock::try_write')
def m_trylock(an, st, args, c, dt):
    mode = 'r' if 'read' in c['n'] else 'w'
    s1 = st.copy()
    g = an.acquire(s1, lockterm(an, s1, args[0]), mode, 'spin')
    return [(s1, Some(g)), (st.copy(), NONE)]


def m_newlock(an, st, args, c, dt):
    return [(st, args[0])]


for _n in ('spin|Mutex::new', 'spin|RwLock::new', 'tokio|Mutex::new', 'tokio|RwLock::new', 'std|Mutex::new', 'std|RwLock::new'):
    TABLE[_n] = m_newlock


def m_tlock(mode):
    def f(an, st, args, c, dt):
        return [(st, ('fut', 'lock', (lockterm(an, st, args[0]), C(mode), C('async'))))]
    return f


TABLE['tokio|Mutex::lock'] = m_tlock('w')
TABLE['tokio|RwLock::read'] = m_tlock('r')
TABLE['tokio|RwLock::write'] = m_tlock('w')
TABLE['tokio|Mutex::lock_owned'] = m_tlock('w')


@model('tokio|Mutex::try_lock')
def m_ttry(an, st, args, c, dt):
    s1 = st.copy()
    g = an.acquire(s1, lockterm(an, s1, args[0]), 'w', 'async')
    return [(s1, Ok(g)), (st.copy(), Err(pure('TryLockError', ())))]


@model('tokio|Semaphore::acquire', 'tokio|Semaphore::acquire_owned')
def m_sem(an, st, args, c, dt):
    return [(st, ('fut', 'sem', (lockterm(an, st, args[0]),)))]


# ------------------------------------------------------------------ tasks, time, channels
def site_id(st):
    return tuple(ln for _, ln in st.stack)


@model('tokio|Notify::new')
def m_notify_new(an, st, args, c, dt):
    return [(st, ('new', 'Notify', site_id(st)))]


@model('tokio|Notify::notify_one', 'tokio|Notify::notify_waiters', 'tokio|Notify::notify_last')
def m_notify(an, st, args, c, dt):
    st = st.copy()
    an.ev(st, 'notify', (an.deep(st, args[0]), c['n']))
    return [(st, UNIT)]


@model('tokio|Notify::notified')
def m_notified(an, st, args, c, dt):
    return [(st, ('fut', 'notified', (an.deep(st, args[0]),)))]


def m_fut(name):
    def f(an, st, args, c, dt):
        return [(st, ('fut', name, tuple(an.deep(st, a) for a in args)))]
    return f


TABLE['tokio|sleep'] = m_fut('sleep')
TABLE['tokio|sleep_until'] = m_fut('sleep')
TABLE['tokio|Interval::tick'] = m_fut('tick')
TABLE['tokio|yield_now'] = m_fut('yield_now')
TABLE['tokio|interval'] = lambda an, st, args, c, dt: [(st, pure('interval', (an.deep(st, args[0]),)))]
TABLE['tokio|timeout'] = lambda an, st, args, c, dt: [(st, ('fut', 'timeout', (an.deep(st, args[0]), an.val(st, args[1]))))]
TABLE['futures_util|join_all'] = lambda an, st, args, c, dt: [(st, ('fut', 'join_all', (an.val(st, args[0]),)))]
TABLE['futures_util|try_join_all'] = lambda an, st, args, c, dt: [(st, ('fut', 'try_join_all', (an.val(st, args[0]),)))]
TABLE['futures_util|ready'] = lambda an, st, args, c, dt: [(st, ('fut', 'ready', (an.val(st, args[0]),)))]
TABLE['core|ready'] = TABLE['futures_util|ready']


@model('tokio|spawn', 'tokio|spawn_blocking', 'std|spawn', 'tokio|spawn_local')
def m_spawn(an, st, args, c, dt):
    st = st.copy()
    v = an.deep(st, args[0])
    an.ev(st, 'spawn', (v, c['kr']))
    an.spawned.append((v, c['kr'], an.site(st), st.stack[-1][0]))
    return [(st, ('res', 'spawn', (v,), st.fresh()))]


@model('tokio|JoinHandle::abort_handle', 'JoinSet::spawn_')
def m_aborth(an, st, args, c, dt):
    return [(st, ('abort', an.deep(st, args[0])))]


@model('tokio|AbortHandle::abort', 'tokio|JoinHandle::abort')
def m_abort(an, st, args, c, dt):
    st = st.copy()
    an.ev(st, 'abort', (an.deep(st, args[0]),))
    return [(st, UNIT)]


@model('tokio|channel', 'oneshot|channel', 'futures_channel|channel')
def m_oneshot(an, st, args, c, dt):
    st = st.copy()
    n = st.fresh()
    if args:
        return [(st, tup(('chan', 'mtx', n), ('chan', 'mrx', n)))]
    return [(st, tup(('chan', 'tx', n), ('chan', 'rx', n)))]


@model('flume|unbounded', 'flume|bounded', 'tokio|unbounded_channel', 'std|channel')
def m_queue(an, st, args, c, dt):
    st = st.copy()
    return [(st, tup(('new', 'qtx', site_id(st)), ('new', 'qrx', site_id(st))))]


@model('tokio|Sender::send', 'oneshot|Sender::send', 'flume|Sender::send', 'tokio|UnboundedSender::send', 'std|Sender::send')
def m_send(an, st, args, c, dt):
    st = st.copy()
    tx, v = an.deep(st, args[0]), an.deep(st, args[1])
    if dt is not None and 'Result' not in dt['s']:
        return [(st, ('fut', 'send', (tx, v)))]
    # a oneshot send gives the value back when the receiver is gone
    s_ok, s_err = st.copy(), st.copy()
    an.ev(s_ok, 'send', (tx, v, C(c['kr'])), C(True))
    an.ev(s_err, 'send', (tx, v, C(c['kr'])), C(False))
    return [(s_ok, Ok(UNIT)), (s_err, Err(v))]


@model('tokio|Sender::is_closed', 'oneshot|Sender::is_closed')
def m_isclosed(an, st, args, c, dt):
    return [(st, pure('is_closed', (an.deep(st, args[0]),)))]


@model('flume|Receiver::recv', 'std|Receiver::recv', 'oneshot|Receiver::recv', 'flume|Receiver::recv_timeout')
def m_recv(an, st, args, c, dt):
    return call(an, st, 'recv', [args[0]])


@model('flume|Receiver::drain', 'flume|Receiver::try_iter', 'std|Receiver::try_iter')
def m_rdrain(an, st, args, c, dt):
    st = st.copy()
    rx = an.deep(st, args[0])
    r = ('res', 'drain', (rx,), st.fresh())
    an.ev(st, 'call', ('drain', rx), r)
    return [(st, ('iter', r, 'e', ()))]


# ------------------------------------------------------------------ collections
def kind_of_type(s):
    s = strip_ref(s)
    for p, k in (('std::vec::Vec<', 'vec'), ('std::collections::HashMap<', 'map'), ('std::collections::BTreeMap<', 'map'),
                 ('std::collections::HashSet<', 'set'), ('std::collections::BTreeSet<', 'set'),
                 ('std::collections::VecDeque<', 'vec'), ('[', 'vec'), ('std::boxed::Box<[', 'vec')):
        if s.startswith(p):
            return k
    return None


def empty(kind):
    return ('coll', kind, (), ('empty',))


def m_newcoll(kind):
    return lambda an, st, args, c, dt: [(st, empty(kind))]


for _t, _k in (('alloc|Vec', 'vec'), ('alloc|VecDeque', 'vec'), ('std|HashMap', 'map'), ('alloc|BTreeMap', 'map'), ('std|HashSet', 'set'),
               ('alloc|BTreeSet', 'set'), ('futures_util|FuturesUnordered', 'futs'), ('tokio|JoinSet', 'futs')):
    TABLE[_t + '::new'] = m_newcoll(_k)
    TABLE[_t + '::with_capacity'] = m_newcoll(_k)


def coll(v, kind):
    return v if v[0] == 'coll' else ('coll', kind, (), v)


def plain(v):
    """a collection without pending operations is its base"""
    if v[0] == 'coll' and not v[2] and v[3] != ('empty',):
        return v[3]
    return v


def coll_len(an, st, v):
    v = an.val(st, v)
    if v[0] == 'agg' and v[1] == 'arr':
        return C(len(v[4]))
    if v[0] == 'coll':
        ops = [o for o in v[2] if o[0] not in ('sort', 'rev')]
        if v[3] == ('empty',) and v[1] == 'vec' and all(o[0] == 'add' and o[3] == 'one' for o in ops):
            return C(len(ops))
        if v[3] == ('empty',) and not ops:
            return C(0)
        return ('len', ('coll', v[1], tuple(ops), v[3]) if ops else v[3])
    return ('len', v)


def same_key(st, a, b):
    if a == b:
        return True
    if a[0] == 'c' and b[0] == 'c':
        return False
    t = st.facts.bools.get(('eqv',) + eq_key(a, b))
    if t is not None:
        return t
    if st.facts.known_ne(a, b):
        return False
    return None


def coll_has(an, st, m, k):
    """truth term of 'k is a key/element of m'"""
    m, k = an.val(st, m), an.deep(st, k)
    if m[0] == 'coll':
        ops = m[2]
        for i in range(len(ops) - 1, -1, -1):
            o = ops[i]
            if o[0] in ('sort', 'rev'):
                continue
            if o[0] in ('add', 'del'):
                key = o[1] if o[0] == 'del' or m[1] != 'map' else o[1][0]
                e = same_key(st, key, k)
                if e is True and o[0] == 'add':
                    return TRUE
                if e is True and o[0] == 'del':
                    return FALSE
                if e is False:
                    continue
            t = ('has', m, k)
            b = st.facts.truth(t)
            return C(b) if b is not None else t
        m = m[3]
        if m == ('empty',):
            return FALSE
    t = ('has', m, k)
    b = st.facts.truth(t)
    return C(b) if b is not None else t


def coll_get(an, st, m, k):
    """value term stored under k (meaningful when k is in m)"""
    m, k = an.val(st, m), an.deep(st, k)
    if m[0] == 'coll':
        for o in reversed(m[2]):
            if o[0] == 'add' and m[1] == 'map':
                e = same_key(st, o[1][0], k)
                if e is True:
                    return o[1][1], True
                if e is False:
                    continue
                return ('mval', m, k), False
            if o[0] in ('del',):
                if same_key(st, o[1], k) is False:
                    continue
                return ('mval', m, k), False
            return ('mval', m, k), False
        m = m[3]
    return ('mval', m, k), False


def elem_conds(st, val):
    """branch facts that talk about the generic elements this value was made from"""
    els = {x for x in walk(val) if x[0] in ('elem', 'mkey')}
    out = []
    for l in st.facts.log:
        ws = {x for x in walk(l) if x[0] in ('elem', 'mkey')}
        if ws and (ws & els or not els) or not els and l[0] == 'b' and val[0] in ('fld', 'pf') and any(x == val for x in walk(l)):
            out.append(l)
    return tuple(out)


def mutate(an, st, recv, kind, op, ev, evargs, ret=UNIT):
    st = st.copy()
    loc = an.loc_of(st, recv)
    if loc is None:
        an.ev(st, ev, (an.deep(st, recv),) + tuple(evargs))
        return [(st, ret)]
    cur = an.load(st, loc)
    new = cur
    if op is not None:
        cc = coll(cur, kind)
        ops = cc[2]
        if op[0] == 'clear':
            new = ('coll', cc[1], (), ('empty',))
        else:
            if op[0] == 'add' and any(o == op for o in ops) and kind in ('set', 'map'):
                pass
            else:
                ops = ops + (op,)
            new = ('coll', cc[1], ops, cc[3])
    if loc[0] == 'T':
        an.ev(st, ev, (an.address(st, loc),) + tuple(evargs))
    an.store(st, loc, new, quiet=True)
    return [(st, ret)]


def m_vecpush(an, st, args, c, dt):
    v = an.deep(st, args[1])
    return mutate(an, st, args[0], 'vec', ('add', v, elem_conds(st, v), 'one'), 'push', (v,))


for _n in ('alloc|Vec::push', 'alloc|VecDeque::push_back', 'futures_util|FuturesUnordered::push', 'alloc|VecDeque::push_front', 'tokio|JoinSet::spawn'):
    TABLE[_n] = m_vecpush


def m_setinsert(an, st, args, c, dt):
    v = an.deep(st, args[1])
    had = coll_has(an, st, args[0], v)
    r = C(not had[1]) if had[0] == 'c' else ('un', 'Not', had)
    return mutate(an, st, args[0], 'set', ('add', v, elem_conds(st, v), 'one'), 'insert', (v,), r)


def m_setremove(an, st, args, c, dt):
    v = an.deep(st, args[1])
    had = coll_has(an, st, args[0], v)
    return mutate(an, st, args[0], 'set', ('del', v), 'remove', (v,), had)


def m_mapinsert(an, st, args, c, dt):
    k, v = an.deep(st, args[1]), an.deep(st, args[2])
    had = coll_has(an, st, args[0], k)
    old = opt(had, coll_get(an, st, args[0], k)[0])
    return mutate(an, st, args[0], 'map', ('add', (k, v), elem_conds(st, (k, v)), 'one'), 'insert', (k, v), old)


def opt(cond, val):
    if cond == TRUE:
        return Some(val)
    if cond == FALSE:
        return NONE
    return ('boolopt', cond, val)


def m_mapremove(an, st, args, c, dt):
    k = an.deep(st, args[1])
    had = coll_has(an, st, args[0], k)
    v = coll_get(an, st, args[0], k)[0]
    r = opt(had, tup(k, v) if c['n'] == 'remove_entry' else v)
    out = []
    if had[0] == 'c':
        ss = [st]
    else:
        ss = [st.with_facts(f) for t in (True, False) for f in st.facts.assume(had, t)]
    for s in ss:
        h = s.facts.truth(had)
        rr = Some(tup(k, v) if c['n'] == 'remove_entry' else v) if h else NONE
        out += mutate(an, s, args[0], 'map', ('del', k), 'remove', (k, C(bool(h))), rr)
    return out


def m_mapget(an, st, args, c, dt):
    k = an.deep(st, args[1])
    had = coll_has(an, st, args[0], k)
    loc = an.loc_of(st, args[0])
    v, known = coll_get(an, st, args[0], k)
    if known:
        return [(st, opt(had, v))]
    return [(st, opt(had, ('addr', v)))]


def m_contains(an, st, args, c, dt):
    return [(st, coll_has(an, st, args[0], args[1]))]


for _t in ('std|HashSet', 'alloc|BTreeSet'):
    TABLE[_t + '::insert'] = m_setinsert
    TABLE[_t + '::remove'] = m_setremove
    TABLE[_t + '::take'] = m_setremove
    TABLE[_t + '::contains'] = m_contains
for _t in ('std|HashMap', 'alloc|BTreeMap'):
    TABLE[_t + '::insert'] = m_mapinsert
    TABLE[_t + '::remove'] = m_mapremove
    TABLE[_t + '::remove_entry'] = m_mapremove
    TABLE[_t + '::get'] = m_mapget
    TABLE[_t + '::get_mut'] = m_mapget
    TABLE[_t + '::contains_key'] = m_contains
TABLE['core|[T]::contains'] = m_contains
TABLE['alloc|Vec::contains'] = m_contains


@model('core|[T]::is_empty', 'alloc|Vec::is_empty', 'std|HashSet::is_empty', 'std|HashMap::is_empty', 'alloc|BTreeMap::is_empty',
       'alloc|BTreeSet::is_empty', 'futures_util|FuturesUnordered::is_empty', 'alloc|VecDeque::is_empty')
def m_isempty(an, st, args, c, dt):
    return [(st, an.binop(st, 'Eq', coll_len(an, st, args[0]), C(0)))]


@model('core|[T]::len', 'alloc|Vec::len', 'std|HashSet::len', 'std|HashMap::len', 'alloc|BTreeMap::len', 'alloc|BTreeSet::len',
       'futures_util|FuturesUnordered::len', 'ExactSizeIterator::len', 'alloc|VecDeque::len')
def m_len(an, st, args, c, dt):
    v = an.val(st, args[0])
    if v[0] == 'iter':
        v = v[1]
    return [(st, coll_len(an, st, v))]


@model('alloc|BTreeMap::split_off')
def m_splitoff(an, st, args, c, dt):
    k = an.deep(st, args[1])
    m = an.val(st, args[0])
    return mutate(an, st, args[0], 'map', ('trunc', k), 'split_off', (k,), ('tail', m, k))


def m_clear(an, st, args, c, dt):
    return mutate(an, st, args[0], 'map', ('clear',), 'clear', ())


for _t in ('alloc|Vec', 'std|HashMap', 'alloc|BTreeMap', 'std|HashSet', 'alloc|BTreeSet'):
    TABLE[_t + '::clear'] = m_clear


def m_retain(an, st, args, c, dt):
    """keep-condition, as the facts under which the predicate holds on a generic key"""
    m = an.val(st, args[0])
    st = st.copy()
    kind = m[1] if m[0] == 'coll' else 'map'
    key = ('mkey', m, st.fresh())
    ar = [key, ('mval', m, key)] if 'Map' in (c.get('im') or '') else [key]
    keep, lose = [], []
    for s, v in an.call_value(st, args[1], ar, an.site(st)):
        n0 = len(st.facts.log)
        v = an.val(s, v)
        for f in s.facts.assume(v, True):
            keep.append(f.log[n0:])
        for f in s.facts.assume(v, False):
            lose.append(f.log[n0:])
    return mutate(an, st, args[0], kind, ('retain', key, tuple(keep)), 'retain', (key, tuple(keep), tuple(lose)))


for _t in ('alloc|Vec', 'std|HashMap', 'alloc|BTreeMap', 'std|HashSet', 'alloc|BTreeSet'):
    TABLE[_t + '::retain'] = m_retain


@model('alloc|BTreeMap::entry', 'std|HashMap::entry')
def m_entry(an, st, args, c, dt):
    return [(st, ('mentry', args[0], an.deep(st, args[1])))]


def m_ordefault(an, st, args, c, dt):
    e = an.val(st, args[0])
    if e[0] != 'mentry':
        return None
    m, k = an.val(st, e[1]), e[2]
    loc = an.loc_of(st, e[1])
    st = st.copy()
    if loc is not None and loc[0] == 'T':
        an.ev(st, 'entry', (an.address(st, loc), k))
    return [(st, ('addr', ('mval', m, k)))]


for _t in ('alloc|Entry', 'std|Entry'):
    for _n in ('or_default', 'or_insert', 'or_insert_with', 'or_insert_with_key'):
        TABLE[_t + '::' + _n] = m_ordefault


@model('alloc|Box::new_uninit')
def m_newuninit(an, st, args, c, dt):
    st = st.copy()
    return [(st, ('addr', ('new', 'box', st.fresh())))]


@model('alloc|box_assume_init_into_vec_unsafe', 'alloc|Box::assume_init')
def m_boxvec(an, st, args, c, dt):
    v = an.deep(st, args[0])
    arr = next((x for x in walk(v) if x[0] == 'agg' and x[1] == 'arr'), None)
    if arr is None and v[0] == 'new':
        # written through the fields of the uninitialised box
        arr = next((an.deep(st, x) for k, x in st.heap.items() if contains_term(k, v) and x[0] == 'agg' and x[1] == 'arr'), None)
    if arr is None:
        return [(st, v)]
    return [(st, arr_coll(arr))]


def arr_coll(arr):
    return ('coll', 'vec', tuple(('add', x, (), 'one') for _, x in arr[4]), ('empty',))


@model('alloc|from_elem')
def m_fromelem(an, st, args, c, dt):
    return [(st, ('coll', 'vec', (('add', an.deep(st, args[0]), (), 'many'),), ('empty',)))]


# ---- ordering
def sort_key(an, st, f, asc=True):
    """(key term over ('var','x'), direction)"""
    x = ('var', 'x')
    rs = an.call_value(st, f, [x], an.site(st))
    k = an.deep(rs[0][0], rs[0][1]) if rs else x
    if k[0] == 'agg' and k[2].endswith('cmp::Reverse'):
        return k[4][0][1], not asc
    return k, asc


def m_sort(an, st, args, c, dt):
    n = c['n']
    if 'by_key' in n or 'by_cached_key' in n:
        k, asc = sort_key(an, st, args[1])
    elif '_by' in n:
        x, y = ('var', 'x'), ('var', 'y')
        rs = an.call_value(st, args[1], [x, y], an.site(st))
        v = an.deep(rs[0][0], rs[0][1]) if len(rs) == 1 else ('?',)
        if v[0] == 'agg' and v[3] == 'Some':
            v = v[4][0][1]
        if v[0] == 'ucmp':
            a, b = v[1], v[2]
            if contains_term(a, x):
                k, asc = a, True
            else:
                k, asc = b if False else subst(a, y, x), False
        else:
            k, asc = ('?', v), True
    else:
        k, asc = ('var', 'x'), True
    return mutate(an, st, args[0], 'vec', ('sort', k, asc), 'sort', (k, C(asc)))


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


for _n in ('sort', 'sort_unstable', 'sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key'):
    TABLE['alloc|[T]::' + _n] = m_sort
    TABLE['core|[T]::' + _n] = m_sort


@model('core|[T]::reverse')
def m_reverse(an, st, args, c, dt):
    return mutate(an, st, args[0], 'vec', ('rev',), 'reverse', ())


def nonempty(an, st, m):
    """[(state, is non-empty)]"""
    t = an.binop(st, 'Eq', coll_len(an, st, m), C(0))
    if t[0] == 'c':
        return [(st, not t[1])]
    return [(st.with_facts(f), not b) for b in (True, False) for f in st.facts.assume(t, b)]


def pick(m, which):
    m = plain(m)
    if m[0] == 'coll' and len(m[2]) == 1 and m[2][0][0] == 'add' and m[2][0][3] == 'one' and m[3] == ('empty',):
        return m[2][0][1]
    return ('pick', m, which)


def m_ends(an, st, args, c, dt):
    n = c['n']
    m = an.val(st, args[0])
    which = 'first' if n in ('first', 'pop_first', 'pop_front', 'front', 'first_key_value', 'swap_remove_') else 'last'
    out = []
    for s, ne in nonempty(an, st, m):
        if not ne:
            out.append((s, NONE))
        else:
            v = pick(m, which)
            if n.startswith('pop'):
                out += mutate(an, s, args[0], 'vec', ('pop', which), n, (), Some(v))
            else:
                out.append((s, Some(v)))
    return out


for _n in ('alloc|Vec::pop', 'core|[T]::last', 'core|[T]::first', 'alloc|VecDeque::pop_front', 'alloc|VecDeque::pop_back', 'alloc|BTreeMap::pop_first',
           'alloc|BTreeMap::first_key_value', 'alloc|BTreeMap::last_key_value'):
    TABLE[_n] = m_ends


@model('Index::index', 'IndexMut::index_mut')
def m_index(an, st, args, c, dt):
    m = plain(an.val(st, args[0]))
    i = an.deep(st, args[1])
    ty = strip_ref(an.p.types[c['st']]['s']) if 'st' in c else ''
    if kind_of_type(ty) == 'map':
        return [(st, ('addr', coll_get(an, st, m, i)[0]))]
    if is_agg(i) and 'Range' in i[2]:
        return [(st, pure('slice', (m, i)))]
    return [(st, ('index', m, i))]


@model('core|[T]::get', 'alloc|Vec::get', 'core|[T]::get_mut')
def m_vecget(an, st, args, c, dt):
    m, i = plain(an.val(st, args[0])), an.deep(st, args[1])
    t = an.binop(st, 'Lt', i, coll_len(an, st, m))
    out = []
    for b in (True, False):
        for f in st.facts.assume(t, b):
            out.append((st.with_facts(f), Some(('index', m, i)) if b else NONE))
    return out


@model('core|[T]::select_nth_unstable')
def m_nth(an, st, args, c, dt):
    m, i = an.val(st, args[0]), an.deep(st, args[1])
    mm = coll(m, 'vec')
    s = ('coll', 'vec', mm[2] + (('sort', ('var', 'x'), True),), mm[3])
    return [(st, tup(pure('lo', (s, i)), ('index', s, i), pure('hi', (s, i))))]


# ---- iterators: ('iter', source, mode, adaptors); mode: e elements, kv pairs, k keys, v values
def m_iter(mode):
    def f(an, st, args, c, dt):
        m = plain(an.val(st, args[0]))
        if m[0] == 'agg' and m[1] == 'arr':
            m = arr_coll(m)
        if m[0] == 'iter':
            return [(st, m)]
        return [(st, ('iter', m, mode, ()))]
    return f


for _t in ('std|HashMap', 'alloc|BTreeMap'):
    for _n, _m in (('iter', 'kv'), ('iter_mut', 'kv'), ('keys', 'k'), ('values', 'v'), ('values_mut', 'v'), ('into_keys', 'k'), ('into_values', 'v')):
        TABLE[_t + '::' + _n] = m_iter(_m)
for _n in ('core|[T]::iter', 'core|[T]::iter_mut', 'std|HashSet::iter', 'alloc|BTreeSet::iter', 'alloc|Vec::iter', 'alloc|VecDeque::iter'):
    TABLE[_n] = m_iter('e')


def m_drain(an, st, args, c, dt):
    m = plain(an.val(st, args[0]))
    mode = 'kv' if 'Map' in (c.get('im') or '') else 'e'
    return mutate(an, st, args[0], 'map', ('clear',), 'drain', (), ('iter', m, mode, ()))


for _n in ('std|HashMap::drain', 'alloc|Vec::drain', 'std|HashSet::drain'):
    TABLE[_n] = m_drain


@model('alloc|BTreeMap::range', 'alloc|BTreeMap::range_mut')
def m_brange(an, st, args, c, dt):
    return [(st, ('iter', ('mrange', plain(an.val(st, args[0])), an.deep(st, args[1])), 'kv', ()))]


def m_setop(name):
    def f(an, st, args, c, dt):
        a, b = plain(an.val(st, args[0])), an.val(st, args[1])
        if name == 'union':
            return [(st, ('iter', ('chain', ('iter', a, 'e', ()), ('iter', plain(b), 'e', (('hasnot', a),))), 'e', ()))]
        return [(st, ('iter', a, 'e', (('hasnot' if name == 'difference' else 'has', b),)))]
    return f


for _t in ('std|HashSet', 'alloc|BTreeSet'):
    TABLE[_t + '::difference'] = m_setop('difference')
    TABLE[_t + '::intersection'] = m_setop('intersection')
    TABLE[_t + '::union'] = m_setop('union')

RANGES = ('std::ops::Range', 'std::ops::RangeInclusive')


def as_iter(an, st, v, ty=''):
    v = an.val(st, v)
    if v[0] in ('iter', 'stream'):
        return v
    if v[0] == 'agg' and v[2].endswith('::RangeInclusive'):
        return ('iter', ('rng', an.val(st, afield(v, 'start')), mk_add(an.val(st, afield(v, 'end')), 1)), 'e', ())
    if v[0] == 'agg' and v[2].endswith('ops::Range'):
        return ('iter', ('rng', an.val(st, afield(v, 'start')), an.val(st, afield(v, 'end'))), 'e', ())
    if v[0] == 'agg' and v[1] == 'arr':
        v = arr_coll(v)
    if v[0] == 'agg' and v[2] == OPT:
        return ('iter', ('coll', 'vec', tuple(('add', x, (), 'one') for _, x in v[4]), ('empty',)), 'e', ())
    mode = 'kv' if kind_of_type(ty) == 'map' or (v[0] == 'coll' and v[1] == 'map') else 'e'
    return ('iter', plain(v), mode, ())


@model('IntoIterator::into_iter')
def m_intoiter(an, st, args, c, dt):
    ty = an.p.types[c['st']]['s'] if 'st' in c else ''
    v = as_iter(an, st, args[0], strip_ref(ty))
    return [(st, v)]


@model('core|RangeInclusive::new')
def m_rinc(an, st, args, c, dt):
    return [(st, agg('struct', 'std::ops::RangeInclusive', '', (('start', args[0]), ('end', args[1]))))]


def gen(an, st, it):
    """generic elements of an iterator: [(state, element)]"""
    if it[0] != 'iter':
        st = st.copy()
        return [(st, ('elem', it, st.fresh()))]
    _, src, mode, ads = it
    out = []
    rev = any(a[0] == 'rev' for a in ads)
    if src[0] == 'chain':
        out = gen(an, st, src[1]) + gen(an, st, src[2])
    elif src[0] == 'rng':
        s = st.copy()
        e = ('elem', ('rng', src[1], src[2], 'rev' if rev else 'fwd'), s.fresh())
        f = s.facts.with_cmp('Le', src[1], e)
        f = f and f.with_cmp('Lt', e, src[2])
        if f is None:
            return []
        s.facts = f
        out = [(s, e)]
    elif src[0] == 'mrange':
        s = st.copy()
        m, b = src[1], src[2]
        k = ('mkey', m, s.fresh())
        fs = s.facts.assume(('has', m, k), True)
        f = fs[0] if fs else None
        if f is not None and is_agg(b):
            lo, hi = afield(b, 'start'), afield(b, 'end')
            if lo is not None:
                f = f.with_cmp('Le', lo, k)
            if f is not None and hi is not None:
                f = f.with_cmp('Le' if 'Inclusive' in b[2] else 'Lt', k, hi)
        if f is None:
            return []
        s.facts = f
        out = [(s, tup(k, ('addr', ('mval', m, k))))]
    elif src[0] == 'coll' and all(o[0] in ('add', 'sort', 'rev', 'del', 'retain') for o in src[2]):
        def gone(outs, ops):
            """without the elements removed afterwards"""
            for o in ops:
                if o[0] != 'del' or src[1] == 'map' and mode == 'v':
                    continue
                nxt = []
                for s2, v2 in outs:
                    k2 = v2[4][0][1] if src[1] == 'map' and mode != 'k' and is_agg(v2) else v2
                    t = same_key(s2, k2, o[1])
                    if t is None:
                        f2 = s2.facts.with_eqv(k2, o[1], False)
                        nxt += [(s2.with_facts(x), v2) for x in f2]
                    elif t is False:
                        nxt.append((s2, v2))
                outs = nxt
            return outs
        for j, o in enumerate(src[2]):
            if o[0] != 'add':
                continue
            s = st.copy()
            val, conds = o[1], o[2]
            if o[3] == 'many' or any(x[0] in ('elem', 'mkey') for x in walk(val)):
                ren = {}
                for x in walk((val, conds)):
                    if x[0] in ('elem', 'mkey') and x not in ren:
                        ren[x] = x[:-1] + (s.fresh(),)
                val, conds = rename((val, conds), ren)
            f = s.facts
            for l in conds:
                f = apply_log(an, f, l)
                if f is None:
                    break
            if f is None:
                continue
            s.facts = f
            if src[1] == 'map':
                val = {'kv': tup(*val), 'k': val[0], 'v': val[1], 'e': tup(*val)}[mode]
            out += gone([(s, val)], src[2][j + 1:])
        if src[3] != ('empty',):
            out += gone(gen(an, st, ('iter', src[3], 'kv' if src[1] == 'map' and mode == 'e' else mode, ())), src[2])
    else:
        s = st.copy()
        if mode == 'e':
            e = ('elem', src, s.fresh())
            fs = s.facts.assume(('has', src, e), True)
            s.facts = fs[0]
            out = [(s, e)]
        else:
            k = ('mkey', src, s.fresh())
            fs = s.facts.assume(('has', src, k), True)
            s.facts = fs[0]
            v = ('addr', ('mval', src, k))
            out = [(s, {'kv': tup(k, v), 'k': k, 'v': v}[mode])]
    for a in ads:
        nxt = []
        for s, e in out:
            if a[0] in PART:
                s = s.copy()
                an.ev(s, 'part', (a[0], src))
            nxt += adapt(an, s, e, a)
        out = nxt
    return out


# adaptors that leave some of the elements out
PART = ('take', 'skip', 'step', 'step_by', 'take_while', 'skip_while', 'take_until')


def rename(t, ren):
    if t in ren:
        return ren[t]
    if isinstance(t, tuple):
        return tuple(rename(x, ren) for x in t)
    return t


def apply_log(an, f, l):
    if l[0] == 'is':
        g = an.assume_variant(f, l[1], l[2])
        return g[0] if g else None
    if l[0] == 'isnot':
        return f.with_not_variant(l[1], l[2])
    if l[0] == 'b':
        g = f.assume(l[1], l[2])
        return g[0] if g else None
    if l[0] == 'cmp':
        return f.with_cmp(l[1], l[2], l[3])
    return f


def truth_fork(an, s, v, want):
    v = an.val(s, v)
    return [s.with_facts(f) for f in s.facts.assume(v, want)]


def adapt(an, s, e, a):
    k = a[0]
    if k in ('rev', 'skip', 'take', 'step', 'peek'):
        return [(s, e)]
    if k == 'map':
        return an.call_value(s, a[1], [e], an.site(s))
    if k in ('filter', 'take_while', 'skip_while'):
        out = []
        for s2, v in an.call_value(s, a[1], [e], an.site(s)):
            if k == 'skip_while':
                out.append((s2, e))
                continue
            out += [(s3, e) for s3 in truth_fork(an, s2, v, True)]
        return out
    if k in ('filter_map', 'map_while'):
        out = []
        for s2, v in an.call_value(s, a[1], [e], an.site(s)):
            for s3, n, p in cases(an, s2, v, OPT):
                if n == 'Some':
                    out.append((s3, p))
        return out
    if k == 'flatten':
        out = []
        for n_, adt in (('Some', OPT),):
            v = an.val(s, e)
            if v[0] == 'agg' or v[0] == 'boolopt':
                for s3, n, p in cases(an, s, v, OPT):
                    if n in ('Some', 'Ok'):
                        out.append((s3, p))
                return out
        for s2, x in gen(an, s, as_iter(an, s, e)):
            out.append((s2, x))
        return out
    if k == 'flat_map':
        out = []
        for s2, v in an.call_value(s, a[1], [e], an.site(s)):
            out += gen(an, s2, as_iter(an, s2, v))
        return out
    if k == 'enumerate':
        s = s.copy()
        return [(s, tup(('idx', s.fresh()), e))]
    if k in ('has', 'hasnot'):
        return [(s2, e) for s2 in truth_fork(an, s, coll_has(an, s, a[1], e), k == 'has')]
    if k == 'zip':
        out = []
        for s2, y in gen(an, s, a[1]):
            out.append((s2, tup(e, y)))
        return out
    if k == 'inspect':
        return [(s2, e) for s2, _ in an.call_value(s, a[1], [e], an.site(s))]
    return [(s, e)]


def m_adaptor(kind, nargs):
    def f(an, st, args, c, dt):
        it = as_iter(an, st, args[0])
        a = (kind,) + tuple(an.deep(st, x) for x in args[1:1 + nargs])
        return [(st, it[:3] + (it[3] + (a,),))]
    return f


for _n, _k, _c in (('map', 'map', 1), ('filter', 'filter', 1), ('filter_map', 'filter_map', 1), ('rev', 'rev', 0), ('enumerate', 'enumerate', 0),
                   ('skip', 'skip', 1), ('take', 'take', 1), ('take_while', 'take_while', 1), ('skip_while', 'skip_while', 1),
                   ('flat_map', 'flat_map', 1), ('flatten', 'flatten', 0), ('map_while', 'map_while', 1), ('step_by', 'step', 1),
                   ('inspect', 'inspect', 1)):
    TABLE['Iterator::' + _n] = m_adaptor(_k, _c)


@model('Iterator::zip')
def m_zip(an, st, args, c, dt):
    it = as_iter(an, st, args[0])
    return [(st, it[:3] + (it[3] + (('zip', as_iter(an, st, args[1])),),))]


@model('Iterator::chain')
def m_chain(an, st, args, c, dt):
    return [(st, ('iter', ('chain', as_iter(an, st, args[0]), as_iter(an, st, args[1])), 'e', ()))]


@model('core|once')
def m_once(an, st, args, c, dt):
    return [(st, ('iter', ('coll', 'vec', (('add', an.deep(st, args[0]), (), 'one'),), ('empty',)), 'e', ()))]


@model('Iterator::next', 'DoubleEndedIterator::next_back')
def m_next(an, st, args, c, dt):
    it = as_iter(an, st, args[0])
    if c['n'] == 'next_back':
        it = it[:3] + (it[3] + (('rev',),),)
    out = [(st.copy(), NONE)]
    for s, e in gen(an, st, it):
        out.append((s, Some(e)))
    return out


def summarize(an, st, it):
    """(state, add-operations): the elements of an iterator as collection content"""
    ops = []
    end = st
    for s, e in gen(an, st, it):
        v = an.deep(s, e)
        n0 = len(st.facts.log)
        conds = tuple(s.facts.log[n0:])
        ops.append(('add', v, conds, 'many'))
        if s.nev > st.nev:
            # effects of the closures happen for every element
            e2 = end.copy()
            e2.events, e2.nev = s.events, s.nev
            end = e2
        e2 = end.copy()
        e2.nsym = max(end.nsym, s.nsym)
        end = e2
    return end, tuple(ops)


def to_coll(an, st, it, kind):
    if it[0] == 'iter' and not it[3] and it[2] in ('e', 'kv') and it[1][0] not in ('chain', 'rng', 'mrange'):
        src = it[1]
        if src[0] == 'coll':
            return st, ('coll', kind, src[2], src[3])
        return st, src
    end, ops = summarize(an, st, it)
    if kind == 'map':
        ops = tuple(('add', tuple(x for _, x in o[1][4]) if o[1][0] == 'agg' else (an.project(o[1], ('f', '(0)', 0)), an.project(o[1], ('f', '(1)', 1))), o[2], o[3]) for o in ops)
    rev = tuple(('rev',) for a in (it[3] if it[0] == 'iter' else ()) if a[0] == 'rev' and kind == 'vec' and False)
    return end, ('coll', kind, ops + rev, ('empty',))


@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(an, st, args, c, dt):
    it = as_iter(an, st, args[0])
    ty = dt['s'] if dt else ''
    kind = kind_of_type(ty)
    if kind is None and ty.startswith(RES):
        # collect::<Result<Coll, _>>: every element Ok, or some element Err
        inner = kind_of_type(ty[len(RES) + 1:]) or 'vec'
        oks, errs = [], []
        for s, e in gen(an, st, it):
            for s2, n, p in cases(an, s, e, RES):
                (oks if n == 'Ok' else errs).append((s2, p))
        out = [(s2, Err(p)) for s2, p in errs]
        ops = tuple(('add', an.deep(s, p), elem_conds(s, an.deep(s, p)), 'many') for s, p in oks)
        out.append((st.copy(), Ok(('coll', inner, ops, ('empty',)))))
        return out
    if kind is None:
        kind = 'futs' if 'FuturesUnordered' in ty else 'vec'
    end, v = to_coll(an, st, it, kind)
    return [(end, v)]


@model('Extend::extend')
def m_extend(an, st, args, c, dt):
    it = as_iter(an, st, args[1])
    end, ops = summarize(an, st, it)
    ty = strip_ref(an.p.types[c['st']]['s']) if 'st' in c else ''
    kind = kind_of_type(ty) or 'vec'
    res = [(end, UNIT)]
    for o in ops:
        if kind == 'map':
            o = ('add', tuple(x for _, x in o[1][4]) if o[1][0] == 'agg' else (o[1], o[1])) + o[2:]
        out = []
        for s, _ in res:
            out += mutate(an, s, args[0], kind, o, 'insert' if kind != 'vec' else 'push', o[1] if kind == 'map' else (o[1],))
        res = out
    return res


TABLE['alloc|Vec::extend_from_slice'] = m_extend
TABLE['alloc|Vec::append'] = m_extend


@model('Iterator::count')
def m_count(an, st, args, c, dt):
    it = as_iter(an, st, args[0])
    end, ops = summarize(an, st, it)
    if not it[3]:
        return [(st, coll_len(an, st, it[1]))]
    return [(end, ('len', ('coll', 'vec', ops, ('empty',))))]


def m_anyall(an, st, args, c, dt):
    it = as_iter(an, st, args[0])
    want = c['n'] == 'any'
    out = []
    simple = None
    for s, e in gen(an, st, it):
        for s2, v in an.call_value(s, args[1], [e], an.site(s)):
            v = an.val(s2, v)
            if want and v[0] == 'eqv' and e in v[1:] and it[0] == 'iter' and not it[3]:
                simple = (v[1] if v[2] == e else v[2])
            out += [(s3, C(want)) for s3 in truth_fork(an, s2, v, want)]
    if simple is not None:
        return [(st, coll_has(an, st, it[1], simple))]
    s = st.copy()
    out.append((s, C(not want)))
    return out


TABLE['Iterator::any'] = m_anyall
TABLE['Iterator::all'] = m_anyall


@model('Iterator::find', 'Iterator::find_map', 'Iterator::position')
def m_find(an, st, args, c, dt):
    it = as_iter(an, st, args[0])
    out = [(st.copy(), NONE)]
    for s, e in gen(an, st, it):
        for s2, v in an.call_value(s, args[1], [e], an.site(s)):
            if c['n'] == 'find_map':
                for s3, n, p in cases(an, s2, v, OPT):
                    if n == 'Some':
                        out.append((s3, Some(p)))
            else:
                for s3 in truth_fork(an, s2, v, True):
                    out.append((s3, Some(e if c['n'] == 'find' else ('idx', s3.fresh()))))
    return out


@model('Iterator::for_each')
def m_foreach(an, st, args, c, dt):
    it = as_iter(an, st, args[0])
    out = [(st.copy(), UNIT)]
    for s, e in gen(an, st, it):
        out += [(s2, UNIT) for s2, _ in an.call_value(s, args[1], [e], an.site(s))]
    return out


@model('Iterator::fold')
def m_fold(an, st, args, c, dt):
    it = as_iter(an, st, args[0])
    end, ops = summarize(an, st, it)
    acc, x = ('var', 'acc'), ('var', 'x')
    rs = an.call_value(end, args[2], [acc, x], an.site(end))
    body = tuple(an.deep(s, v) for s, v in rs)
    return [(end, pure('fold', (an.deep(st, args[1]), ('coll', 'vec', ops, ('empty',)), body)))]


def m_iterpick(an, st, args, c, dt):
    n = c['n']
    it = as_iter(an, st, args[0])
    end, ops = summarize(an, st, it)
    if n in ('max_by_key', 'min_by_key'):
        k, asc = sort_key(an, st, args[1])
    elif n in ('max', 'min'):
        k, asc = ('var', 'x'), True
    elif n in ('max_by', 'min_by'):
        x, y = ('var', 'x'), ('var', 'y')
        rs = an.call_value(st, args[1], [x, y], an.site(st))
        v = an.deep(rs[0][0], rs[0][1])
        if v[0] == 'agg' and v[3] == 'Some':
            v = v[4][0][1]
        if v[0] == 'ucmp':
            k, asc = (v[1], True) if contains_term(v[1], x) else (subst(v[1], y, x), False)
        else:
            k, asc = ('?', v), True
    else:
        k, asc = None, True
    m = ('coll', 'vec', ops + ((('sort', k, asc),) if k else ()), ('empty',))
    which = 'first' if n.startswith('min') else 'last'
    if n == 'nth':
        which = ('nth', an.deep(st, args[1]))
    out = []
    for s, ne in nonempty(an, end, m):
        out.append((s, Some(pick(m, which)) if ne else NONE))
    return out


for _n in ('max', 'min', 'max_by_key', 'min_by_key', 'max_by', 'min_by', 'last', 'nth'):
    TABLE['Iterator::' + _n] = m_iterpick


@model('Iterator::sum')
def m_sum(an, st, args, c, dt):
    it = as_iter(an, st, args[0])
    end, ops = summarize(an, st, it)
    return [(end, pure('sum', (('coll', 'vec', ops, ('empty',)),)))]


# ------------------------------------------------------------------ moka caches
@model('moka|Cache::get_with')
def m_getwith(an, st, args, c, dt):
    m, k = an.deep(st, args[0]), an.deep(st, args[1])
    for s, v in an.call_value(st.copy(), args[2], [], an.site(st)):
        sp, x = (), s.events
        while x is not None and x is not st.events:
            sp += (x[1].a[0],) if x[1].kind == 'spawn' else ()
            x = x[0]
        an.getwith.add((m, k, an.deep(s, v), sp, an.site(st)))
    st = st.copy()
    an.ev(st, 'get_with', (m, k))
    return [(st, ('mval', m, k))]


@model('moka|Cache::contains_key')
def m_mokahas(an, st, args, c, dt):
    st = st.copy()
    return [(st, ('has', an.deep(st, args[0]), an.deep(st, args[1])))]


@model('moka|Cache::get')
def m_mokaget(an, st, args, c, dt):
    m, k = an.deep(st, args[0]), an.deep(st, args[1])
    return [(st, opt(('has', m, k), ('mval', m, k)))]


@model('moka|Cache::insert', 'moka|Cache::invalidate', 'moka|Cache::remove')
def m_mokains(an, st, args, c, dt):
    st = st.copy()
    an.ev(st, 'insert' if c['n'] == 'insert' else 'remove', tuple(an.deep(st, a) for a in args))
    return [(st, UNIT)]


# ------------------------------------------------------------------ streams
@model('async_stream|pair')
def m_aspair(an, st, args, c, dt):
    st = st.copy()
    n = st.fresh()
    return [(st, tup(('chan', 'ytx', n), ('chan', 'yrx', n)))]


@model('async_stream|AsyncStream::new')
def m_asnew(an, st, args, c, dt):
    v = an.deep(st, args[1])
    an.streams.append((v, an.site(st), st.stack[-1][0]))
    return [(st, ('stream', v, ()))]


@model('async_stream|Sender::send')
def m_assend(an, st, args, c, dt):
    return [(st, ('fut', 'yield', (an.deep(st, args[1]),)))]


def as_stream(an, st, v):
    v = an.val(st, v)
    return v if v[0] == 'stream' else ('stream', v, ())


def m_sadapt(kind, nargs):
    def f(an, st, args, c, dt):
        s = as_stream(an, st, args[0])
        return [(st, ('stream', s[1], s[2] + ((kind,) + tuple(an.deep(st, x) for x in args[1:1 + nargs]),)))]
    return f


for _n, _c in (('map', 1), ('filter', 1), ('then', 1), ('filter_map', 1), ('take_while', 1), ('take', 1), ('skip', 1), ('enumerate', 0),
               ('map_ok', 1), ('map_err', 1), ('buffered', 1), ('buffer_unordered', 1), ('and_then', 1), ('rev', 0), ('flatten', 0),
               ('chunks', 1), ('ready_chunks', 1), ('flat_map', 1), ('take_until', 1), ('skip_while', 1), ('scan', 2)):
    TABLE['StreamExt::' + _n] = m_sadapt(_n, _c)
    TABLE['TryStreamExt::' + _n] = m_sadapt(_n, _c)


@model('StreamExt::chain')
def m_schain(an, st, args, c, dt):
    return [(st, ('stream', ('schain', as_stream(an, st, args[0]), as_stream(an, st, args[1])), ()))]


@model('futures_util|iter')
def m_siter(an, st, args, c, dt):
    return [(st, ('stream', as_iter(an, st, args[0]), ()))]


@model('futures_util|once')
def m_sonce(an, st, args, c, dt):
    return [(st, ('stream', ('sonce', an.val(st, args[0])), ()))]


def sgen(an, st, s):
    """generic items of a stream"""
    if s[0] != 'stream':
        st = st.copy()
        return [(st, ('elem', s, st.fresh()))]
    src, ads = s[1], s[2]
    if src[0] == 'schain':
        out = sgen(an, st, src[1]) + sgen(an, st, src[2])
    elif src[0] == 'iter':
        out = gen(an, st, src)
    elif src[0] == 'sonce':
        out = an.poll(st, src[1])
    else:
        st = st.copy()
        out = [(st, ('elem', src, st.fresh()))]
    for a in ads:
        nxt = []
        for s1, e in out:
            if a[0] in PART:
                s1 = s1.copy()
                an.ev(s1, 'part', (a[0], src))
            if a[0] in ('map_ok', 'map_err'):
                for s2, n, p in cases(an, s1, e, RES):
                    if n == ('Ok' if a[0] == 'map_ok' else 'Err'):
                        nxt += [(s3, (Ok if n == 'Ok' else Err)(v)) for s3, v in an.call_value(s2, a[1], [p], an.site(s2))]
                    else:
                        nxt.append((s2, (Ok if n == 'Ok' else Err)(p)))
            elif a[0] in ('map', 'filter_sync'):
                nxt += adapt(an, s1, e, a)
            elif a[0] in ('take', 'skip', 'rev', 'enumerate'):
                nxt += adapt(an, s1, e, a)
            elif a[0] in ('then', 'filter_map', 'filter', 'take_while'):
                for s2, f in an.call_value(s1, a[1], [e], an.site(s1)):
                    for s3, v in an.poll(s2, f):
                        if a[0] == 'then':
                            nxt.append((s3, v))
                        elif a[0] == 'filter_map':
                            nxt += [(s4, p) for s4, n, p in cases(an, s3, v, OPT) if n == 'Some']
                        else:
                            nxt += [(s4, e) for s4 in truth_fork(an, s3, v, True)]
            else:
                nxt.append((s1, ('x', 'stream.' + a[0], (an.deep(s1, e),), s1.fresh())))
        out = nxt
    return out


@model('StreamExt::next', 'TryStreamExt::try_next')
def m_snext(an, st, args, c, dt):
    return [(st, ('fut', 'next', (args[0], C(c['n']))))]


@model('Stream::poll_next')
def m_pollnext(an, st, args, c, dt):
    return [(s, ready(v)) for s, v in poll_external(an, st, ('fut', 'next', (args[0], C('next'))))]


@model('StreamExt::collect')
def m_scollect(an, st, args, c, dt):
    return [(st, ('fut', 'collect', (as_stream(an, st, args[0]),)))]


def sref(an, st, s):
    """a short description of a stream for awaiting events"""
    return s


# ------------------------------------------------------------------ futures of external code
def poll_external(an, st, fut):
    st = st.copy()
    k = fut[0]
    if k == 'chan' and fut[1] == 'rx':
        r = ('res', 'recv', (fut,), st.fresh())
        an.ev(st, 'await', ('recv', fut), r)
        return [(st, r)]
    if k == 'agg' and fut[2] == OPT:
        return [(st, fut)]
    if k == 'res' and fut[1] == 'spawn' and fut[2][0][0] == 'cor' and st.events and st.events[1].kind == 'spawn' and st.events[1].a[0] == fut[2][0]:
        # a task that is waited for at once: its steps belong to the request, and happen even if the request is given up
        an.joined.add(fut[2][0])
        st.events, st.nev = st.events[0], st.nev - 1
        an.ev(st, 'shield')
        out = []
        for s2, v in an.poll(st, fut[2][0]):
            s2 = s2.copy()
            an.ev(s2, 'unshield')
            out.append((s2, Ok(v)))
        return out
    if k != 'fut':
        r = ('res', 'await', (an.deep(st, fut),), st.fresh())
        an.ev(st, 'await', ('?', an.deep(st, fut)), r)
        return [(st, r)]
    name, args = fut[1], fut[2]
    if name == 'lock':
        an.ev(st, 'await', ('lock', args[0]))
        if any(h[0] == args[0] and (h[1] == 'w' or args[1][1] == 'w') for h in st.held):
            an.ev(st, 'selfdeadlock', (args[0],))
        return [(st, an.acquire(st, args[0], args[1][1], 'async'))]
    if name == 'sem':
        an.ev(st, 'await', ('sem', args[0]))
        return [(st, Ok(an.acquire(st, args[0], 'w', 'async')))]
    if name == 'ready':
        return [(st, args[0])]
    if name == 'timeout':
        an.ev(st, 'await', ('timeout', args[0]))
        out = [(st.copy(), Err(('k', 'Elapsed')))]
        s = st.copy()
        s.timeouts += 1
        for s2, v in an.poll(s, args[1]):
            s2 = s2.copy()
            s2.timeouts -= 1
            out.append((s2, Ok(v)))
        return out
    if name in ('join_all', 'try_join_all'):
        it = as_iter(an, st, args[0])
        st = st.copy()
        an.ev(st, 'await', (name, an.deep(st, it[1])))
        ops, outs = [], []
        empty_path = st.copy()
        for s, f in gen(an, st, it):
            for s2, v in an.poll(s, f):
                v = an.deep(s2, v)
                if name == 'join_all':
                    outs.append((s2, ('coll', 'vec', (('add', v, elem_conds(s2, v), 'many'),), ('empty',))))
                else:
                    for s3, n, p in cases(an, s2, v, RES):
                        if n == 'Err':
                            outs.append((s3, Err(p)))
                        else:
                            outs.append((s3, Ok(('coll', 'vec', (('add', p, elem_conds(s3, p), 'many'),), ('empty',)))))
        e = empty('vec')
        outs.append((empty_path, e if name == 'join_all' else Ok(e)))
        return outs
    if name == 'next':
        v = an.val(st, args[0])
        if v[0] == 'coll':
            out = [(st.copy(), NONE)]
            for s, f in gen(an, st, ('iter', v, 'e', ())):
                for s2, x in an.poll(s, f):
                    out.append((s2, Some(x)))
            return out
        s = as_stream(an, st, v)
        an.ev(st, 'await', ('next', an.deep(st, s)))
        out = [(st.copy(), NONE)]
        for s2, e in sgen(an, st, s):
            if s2.nsym <= st.nsym:
                s2 = s2.copy()
            an.ev(s2, 'item', (an.deep(s2, e),))
            out.append((s2, Some(e)))
        return out
    if name == 'yield':
        an.ev(st, 'yield', args)
        return [(st, UNIT)]
    if name in ('notified', 'sleep', 'tick', 'yield_now', 'send'):
        r = ('res', name, args, st.fresh())
        an.ev(st, 'await', (name,) + args, r)
        return [(st, r)]
    if name.startswith('rpc.'):
        r = ('res', name, args[1:], st.fresh())
        an.ev(st, 'rpc', (name[4:], dest_of(args[0])) + args[1:] + (C(st.timeouts),), r)
        return [(st, r)]
    r = ('res', name, args, st.fresh())
    old = last_read(an, st, name, args)
    an.ev(st, 'call', (name,) + args, r)
    if old is not None:
        st.facts = same_read(an, st.facts, old, r) or st.facts
    return [(st, r)]


# what is read again under the same possession of a lock, with none of the given calls in between, is the same
REREAD = {'RaftBallotStore::load_ballot': ('RaftBallotStore::save_ballot',)}


def last_read(an, st, name, args):
    if name not in REREAD:
        return None
    x = st.events
    while x:
        e, x = x[1], x[0]
        if e.kind != 'call':
            continue
        if e.a[0] in REREAD[name]:
            return None
        if e.a[0] == name and e.a[1:] == args:
            common = frozenset(h[0] for h in e.held if h in st.held and h[1] == 'w')
            if common:
                an.reread.add((name, common))
                return e.ret
            return None
    return None


def same_read(an, f, a, b):
    """f with: the fields of the Ok payloads of a and b are the same"""
    for q in (k for k in an.p.adts if k.endswith('::Ballot')):
        for fl in an.p.adts[q]['variants'][0]['f']:
            x, y = (('fld', ('fld', r, RES + '::Ok.0'), q + '.' + fl['n']) for r in (a, b))
            if fl['t'] in ('u64', 'u32', 'usize'):
                f = f and f.with_cmp('Eq', x, y)
            else:
                f = f and Facts(f.var, dict(f.bools, **{}) | {('eqv',) + eq_key(x, y): True}, f.edges, f.ne, f.log)
    return f


def dest_of(client):
    for x in walk(client):
        if x[0] == 'mval':
            return x[2]
    return client


# ------------------------------------------------------------------ primitives, constructors, opaque calls
STORES = ('RaftLogStore', 'RaftBallotStore', 'RaftApp')


def is_primitive(key):
    return '::raft_client::' in key or '::raft_server::' in key


def primitive(an, st, name, c, args, dt):
    tr = name.split('::')[0]
    if tr in STORES and c.get('tr'):
        return [(st, ('fut', name, tuple(an.deep(st, a) for a in args[1:])))]
    if '::raft_client::' in c['key']:
        if c['n'] in ('new', 'connect', 'with_origin', 'with_interceptor'):
            return [(st, pure('client', tuple(an.deep(st, a) for a in args)))]
        if dt is not None and len(args) >= 2:
            return [(st, ('fut', 'rpc.' + c['n'], tuple(an.deep(st, a) for a in args)))]
        return [(st, args[0])]
    b = base(name)
    if c['kr'] not in ('sorock',) and (b in ident_names or c['n'] in ('into_inner', 'as_slice', 'as_str', 'as_bytes', 'as_ref', 'as_mut', 'borrow', 'to_owned', 'to_vec', 'boxed')) and args:
        if b in ident_names or c['n'] not in ('into_inner',):
            if b not in ('Option::as_ref', 'Option::cloned', 'Option::copied', 'Option::as_mut', 'Result::as_ref', 'Result::as_mut', 'Result::cloned', 'Option::as_deref', 'Option::as_deref_mut'):
                if b == 'AccessGuard::value' or (args[0][0] == 'ref' and dt is not None and '&' not in dt['s'] and "<'" not in dt['s']):
                    return [(st, an.val(st, args[0]))]
                return [(st, args[0])]
    if b in ('Option::as_ref', 'Option::cloned', 'Option::copied', 'Option::as_mut', 'Result::as_ref', 'Result::as_mut', 'Result::cloned', 'Option::as_deref', 'Option::as_deref_mut') and args:
        if b in ('Option::cloned', 'Option::copied'):
            return [(s, Some(an.deep_clone(s, p)) if n == 'Some' else NONE) for s, n, p in cases(an, st, args[0], OPT)]
        if b in ('Option::as_mut', 'Option::as_deref_mut'):
            return None
        v = an.val(st, args[0])
        return [(st, v)]
    return None


PURE_CRATES = {'anyhow', 'http', 'thiserror'}
PURE_NAMES = {'core|Duration::from_secs', 'core|Duration::from_millis', 'core|Duration::as_millis', 'core|Duration::as_secs',
              'TraitKind::anyhow_kind', 'BothDebug::__dispatch_ensure', 'AsDynError::as_dyn_error', 'tonic|Status::unknown',
              'tonic|Endpoint::http2_keep_alive_interval', 'tonic|Endpoint::keep_alive_while_idle', 'tonic|Endpoint::connect_lazy',
              'moka|Cache::builder', 'moka|CacheBuilder::build', 'moka|CacheBuilder::initial_capacity', 'moka|CacheBuilder::time_to_live',
              'moka|CacheBuilder::time_to_idle', 'moka|CacheBuilder::max_capacity', 'redb|TableDefinition::new', 'redb|AccessGuard::value',
              'phi_detector|PingWindow::new', 'phi_detector|PingWindow::normal_dist', 'phi_detector|NormalDist::phi', 'phi_detector|NormalDist::mu',
              'AsDisplay::as_display', 'core|unreachable_default_msg', 'core|Duration::from_micros', 'core|size_of'}


def ctor(an, c, args):
    """tuple struct / tuple variant constructor used as a function value"""
    if c['kr'] in ('core', 'std'):
        n = c['p'].split('::')[-1]
        if n in ('Some', 'Ok', 'Err'):
            return {'Some': Some, 'Ok': Ok, 'Err': Err}[n](args[0])
    p = E.gstrip(c['p'])
    if p in an.p.adts and an.p.adts[p].get('local'):
        a = an.p.adts[p]
        if len(a['variants']) == 1:
            return agg('struct', p, '', [(f['n'], x) for f, x in zip(a['variants'][0]['f'], args)])
    par = p.rsplit('::', 1)[0]
    if par in an.p.adts:
        for v in an.p.adts[par]['variants']:
            if v['n'] == p.rsplit('::', 1)[1]:
                return agg('enum', par, v['n'], [(f['n'], x) for f, x in zip(v['f'], args)])
    return None


def opaque(an, st, name, c, args, t):
    if c['kr'] in PURE_CRATES or name in PURE_NAMES:
        return [(st, pure(name, tuple(an.deep(st, a) for a in args)))]
    st = st.copy()
    dargs = tuple(an.deep(st, a) for a in args)
    r = ('res', name, dargs, st.fresh())
    an.ev(st, 'call', (name,) + dargs, r)
    an.unmodelled[name] = an.unmodelled.get(name, 0) + 1
    for a in args:
        if a[0] in ('ref', 'addr') and a[-1] == 'mut':
            loc = an.loc_of(st, a)
            if loc is None:
                continue
            old = an.load(st, loc)
            if has_handle(old):
                continue
            if loc[0] == 'L':
                an.store(st, loc, ('x', 'after ' + name, (an.deep(st, old),), st.fresh()))
    return [(st, r)]


def has_handle(v):
    return v[0] in ('res', 'pf', 'chan', 'new', 'guard', 'fut', 'stream', 'cor', 'clo')


# ------------------------------------------------------------------ the embedded database
@model('redb|Table::retain_in', 'redb|Table::retain', 'redb|Table::extract_if', 'redb|Table::extract_from_if')
def m_db_retain(an, st, args, c, dt):
    """which keys stay: the predicate is evaluated on a key k, symbolically"""
    st = st.copy()
    tbl = an.deep(st, args[0])
    rng = an.deep(st, args[1]) if c['n'].endswith(('_in', 'from_if')) else agg('struct', 'std::ops::RangeFull', '', ())
    k, v = ('elem', ('dbkeys', tbl), st.fresh()), ('elem', ('dbvals', tbl), st.fresh())
    n0 = len(st.facts.log)
    outs = []
    for s2, r in an.call_value(st.copy(), args[-1], [k, v], an.site(st)):
        for s3 in truth_fork(an, s2, r, True):
            outs.append((tuple(s3.facts.log[n0:]), TRUE))
        for s3 in truth_fork(an, s2, r, False):
            outs.append((tuple(s3.facts.log[n0:]), FALSE))
    r = ('res', opname(c), (tbl, rng), st.fresh())
    an.ev(st, 'call', ('redb|Table::' + c['n'], tbl, rng, ('keep', k, tuple(outs))), r)
    return [(st, r)]


def opname(c):
    return 'redb|Table::' + c['n']
