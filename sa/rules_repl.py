"""Replication: what a leader sends to a follower, what it learns from the answer, and the streams in between."""
from base import *
from rules_election import SAVE, LOAD, LAST, GET
from rules_log import *
from rules_apply import distinct, cells_of, cell_of, fields_named, on_cell
from rules_member import failed, peer_cells, is_self


def sends(cx):
    """(root, trace, position, event) of each replication stream sent"""
    if 'sends' not in cx.memo:
        cx.memo['sends'] = list(distinct(cx, cx.process_roots(), lambda e: e.kind == 'rpc' and e.a[0] == 'send_replication_stream'))
    return cx.memo['sends']


def base_of(s):
    """the source of a stream without its adapters, and the adapters"""
    ads = ()
    while s[0] == 'stream':
        ads = s[2] + ads
        s = s[1]
    return s, ads


def yields(cx, v, facts=None):
    """[(facts, item, is it the first, trace)] of the items of a stream"""
    key = ('yields', v)
    if key in cx.memo:
        return cx.memo[key]
    src, ads = base_of(v)
    out = []
    if src[0] == 'schain':
        for n, part in enumerate(src[1:3]):
            sub = part if not ads else (('stream', part[1], part[2] + ads) if part[0] == 'stream' else ('stream', part, ads))
            out += [(f, x, first and n == 0, t) for f, x, first, t in yields(cx, sub, facts)]
    elif src[0] == 'cor' and not ads:
        for t in runs_of(cx, src, facts):
            ys = [e for e in t.events if e.kind == 'yield']
            for n, e in enumerate(ys):
                out.append((e.facts, e.a[0], n == 0, t))
    elif src[0] == 'sonce':
        out = [(f, x, True, None) for f, x in cx.A.items(v)]
    else:
        src1 = src[1] if src[0] == 'iter' else None
        one = src1 is not None and src1[0] == 'coll' and len(src1[2]) == 1 and src1[2][0][0] == 'add' and src1[2][0][3] == 'one' and src1[3] == ('empty',)
        out = [(f, x, one, None) for f, x in cx.A.items(v)]
    cx.memo[key] = out
    return out


def runs_of(cx, cor, facts=None):
    key = ('runs_of', cor)
    if key not in cx.memo:
        from analysis import Analyzer
        an = Analyzer(cx.P, 'stream')
        an.run_value(cor, facts)
        cx.memo[key] = an
    return cx.memo[key].traces


def progress_of(x):
    """x is (a field of) the replication progress of a peer as read from the map -> (cell, key)"""
    for y in walk(x):
        if y[0] == 'mval':
            return y[1], y[2]
    return None


def stream_cor(cx, msg):
    """the generator of the entries in a replication stream"""
    return next((x for x in walk(msg) if x[0] == 'cor'), None)


def first_index(cx, t, i, e):
    """the index whose entry the header of the stream sent at e precedes"""
    eq, cq = cx.entry_q()
    for f, x, first, _ in yields(cx, e.a[2]):
        h = next((y for y in walk(x) if y[0] == 'agg' and y[2].endswith('ReplicationStreamHeader')), None)
        if h is None:
            continue
        for g in t.events[:i]:
            if iscall(g, GET) and is_ok(g, e.facts) and contains_term(h, some_of(ok_of(g.ret))):
                return g
    return None


def stream_sent(cx):
    """A leader sends a follower the entries of its own log from the position recorded for that follower on, in order and
    without gap: the header names the leader and the clock before the first entry, each entry is sent as it is stored,
    and an entry that does not follow the one before it is not sent."""
    n = m = 0
    eq, cq = cx.entry_q()
    ctx, th = peer_cells(cx)
    seen = set()
    for r, t, i, e in sends(cx):
        msg = e.a[2]
        n += 1
        dest = e.a[1]
        # header
        hs = 0
        for f, x, first, _ in yields(cx, msg, e.facts):
            h = next((y for y in walk(x) if y[0] == 'agg' and y[2].endswith('ReplicationStreamHeader')), None)
            en = next((y for y in walk(x) if y[0] == 'agg' and y[2].endswith('ReplicationStreamEntry')), None)
            if h is not None:
                hs += 1
                cx.check(first, 'header-late', where(e), 'the header is not the first element of the stream', t, e)
                cx.check(contains_term(afield(h, 'sender_id'), cx.self_id()), 'sender', where(e), 'the stream does not name this node as its sender', t, e)
                pc = afield(h, 'prev_clock')
                pc = pc[4][0][1] if pc[0] == 'agg' and pc[3] == 'Some' else pc
                g = first_index(cx, t, i, e)
                ok = g is not None and pc[0] == 'agg' and all(same(v, proj(proj(some_of(ok_of(g.ret)), eq + '.prev_clock'), cq + '.' + k), e.facts) for k, v in pc[4])
                cx.check(ok, 'header-clock', where(e), 'the header does not carry the clock before the first entry', t, e)
                if g is not None:
                    p = progress_of(g.a[1])
                    cx.check(p and cell_of(p[0]) == ctx and p[1] == dest and isf(g.a[1], 'next_index'), 'start', where(e),
                             'the stream does not start at the position recorded for the follower', t, e)
            else:
                cx.check(not first or len(yields(cx, msg)) == 1, 'header-missing', where(e), 'a stream starts without a header', t, e)
                if en is not None:
                    m += 1
                    ck = afield(en, 'clock')
                    ck = ck[4][0][1] if ck[0] == 'agg' and ck[3] == 'Some' else ck
                    cm = afield(en, 'command')
                    ok = ck[0] == 'agg' and all(isf(v, k) and 'this_clock' in str(v) for k, v in ck[4]) and isf(cm, 'command')
                    owner = {x[1] for x in (cm,) if x[0] == 'fld'} | {owner_of(v) for _, v in (ck[4] if ck[0] == 'agg' else ())}
                    cx.check(ok and len(owner) == 1, 'entry-changed', where(e), 'an entry is not sent with its own clock and command', t, e)
        cx.check(hs >= 1, 'no-header', where(e), 'the stream has no header', t, e)
        c = stream_cor(cx, msg)
        g0 = first_index(cx, t, i, e)
        if c is None or g0 is None:
            cx.bad('entries-source', where(e), 'the entries in the stream do not come from the log', t, e)
            continue
        if c in seen:
            continue
        seen.add(c)
        for t2 in runs_of(cx, c, e.facts):
            ys = [(j, y) for j, y in enumerate(t2.events) if y.kind == 'yield']
            for j, y in ys:
                v = y.a[0]
                if v[0] == 'agg' and v[3] == 'None':
                    continue
                f = y.facts
                gs = [x for x in t2.events[:j] if iscall(x, GET) and is_ok(x, f)]
                val = some_of(v)
                src = [x for x in gs if same(proj_any(val, 'this_clock'), entry_clock(cx, x), f) and same(proj_any(val, 'command'), proj(some_of(ok_of(x.ret)), eq + '.command'), f)]
                if not cx.check(src, 'entry-source', where(y), 'what is sent is not an entry of the log', t2, y):
                    continue
                x = src[-1]
                rg = rng_of(cx, x.a[1], False)
                cx.check(rg and 'rev' not in rg and same(rg[1], g0.a[1], e.facts), 'order', where(y), 'the entries are not sent in the order of the log from the first one on', t2, y)
                pv = prev_of(cx, t2, f, x)
                okp = pv is not None and all(prev_ok(cx, c, e, t2, s, g0) for s in pv)
                cx.check(okp, 'gap', where(y), 'an entry is sent without checking that it follows the one before it', t2, y)
            break_on_none(cx, t2)
    cx.floor(n, 4, 'replication streams')
    cx.floor(m, 1, 'entries sent')


def break_on_none(cx, t):
    pass


def owner_of(v):
    while v[0] == 'fld' and not v[2].endswith('.this_clock'):
        v = v[1]
    return v[1] if v[0] == 'fld' else v


def proj_any(v, n):
    if v[0] == 'agg':
        return afield(v, n) or ('?',)
    return ('?',)


def prev_of(cx, t, f, x):
    """what the preceding clock of the entry read by x was compared with"""
    eq, cq = cx.entry_q()
    pc = proj(some_of(ok_of(x.ret)), eq + '.prev_clock')
    out = {}
    for part in ('term', 'index'):
        w = proj(pc, cq + '.' + part)
        out[part] = {b if a == w else a for a, b in equalities(f) if w in (a, b)}
    whole = {b if a == pc else a for a, b in equalities(f) if pc in (a, b)}
    if whole:
        return list(whole)
    if out['term'] and out['index']:
        return [x for p in ('term', 'index') for x in out[p]]
    return None


def equalities(f):
    out = []
    for l in f.log:
        if l[0] == 'cmp' and l[1] == 'Eq':
            out.append((l[2], l[3]))
        if l[0] == 'b' and l[1][0] == 'eqv' and l[2] is True:
            out.append((l[1][1], l[1][2]))
    return out


def prev_ok(cx, c, e, t, s, g0, seen=()):
    """s is the preceding clock of the first entry, or the clock of the entry sent before (or a part of one of them)"""
    eq, cq = cx.entry_q()
    if s in seen:
        return True
    run = cx.memo[('runs_of', c)]
    if s[0] == 'fld' and s[1][0] == 'phi' or s[0] == 'phi':
        b = s if s[0] == 'phi' else s[1]
        srcs = run.phis.get(b, ())
        return bool(srcs) and all(prev_ok(cx, c, e, t, x, g0, seen + (s,)) for x in srcs)
    if contains_term(s, some_of(ok_of(g0.ret))) and any(isf(x, 'prev_clock') for x in walk(s)):
        return True
    if s[0] == 'agg':
        return all(prev_ok(cx, c, e, t, x, g0, seen) for _, x in s[4])
    # the clock of an entry of the log that was sent
    if any(isf(x, 'this_clock') for x in walk(s)) and any(x[0] == 'res' and x[1] == GET for x in walk(s)):
        return True
    return False


def stream_received(cx):
    """What a follower processes is what arrived: the elements of the stream in the order they came in, each with the clock
    and command it was sent with, after a header that gives the sender, the shard and the clock before the first."""
    n = 0
    eq, cq = cx.entry_q()
    cors = {x for t in cx.traces(STREAM) for e in t.events if e.kind == 'await' and e.a[0] == 'next' for x in walk(e.a) if x[0] == 'cor'}
    cx.floor(len(cors), 1, 'streams of received entries')
    for c in list(cors)[:2]:
        for t in runs_of(cx, c):
            items = [(j, e) for j, e in enumerate(t.events) if e.kind == 'item' or e.kind == 'await' and e.a[0] == 'next']
            for j, y in enumerate(t.events):
                if y.kind != 'yield':
                    continue
                v = y.a[0]
                its = [g for g in t.events[:j] if g.kind == 'item']
                if not its:
                    cx.bad('invented', where(y), 'an entry is processed that did not arrive', t, y)
                    continue
                el = its[-1].a[0]
                f = y.facts
                if v[0] == 'agg' and v[3] == 'None':
                    cx.check(not known_entry(f, el), 'dropped', where(y), 'an entry that arrived is not processed', t, y)
                    continue
                n += 1
                val = some_of(v)
                ck, cm = proj_any(val, 'this_clock'), proj_any(val, 'command')
                okc = ck[0] == 'agg' and all(isf(x, k) and contains_term(x, el) and 'ReplicationStreamEntry.clock' in str(x) for k, x in ck[4])
                cx.check(okc, 'clock', where(y), 'the clock of an entry is not the one that arrived', t, y)
                cx.check(isf(cm, 'command') and contains_term(cm, el), 'command', where(y), 'the command of an entry is not the one that arrived', t, y)
            # between two elements taken from the network, the first is handed on
            pos = [j for j, e in enumerate(t.events) if e.kind == 'item']
            for a, b in zip(pos, pos[1:] + [len(t.events)]):
                if b == len(t.events) and not t.end.startswith('iter'):
                    continue
                cx.check(any(g.kind == 'yield' for g in t.events[a:b]), 'swallowed', where(t.events[a]), 'an element that arrived is skipped', t, t.events[a])
    cx.floor(n, 1, 'received entries handed on')
    m = 0
    hq = cx.gen('ReplicationStreamHeader')
    for t in cx.traces(STREAM):
        for e in t.events:
            if e.kind == 'await' and e.a[0] == 'next' and any(x in cors for x in walk(e.a)):
                m += 1
                f = e.facts
                hdr = {x[1] for x in walk(tuple(f.log)) if isf(x, 'shard_id') and 'ReplicationStreamHeader' in x[2]}
                procs = [b for b in f.bools if b[0] == 'has' and b[2][0] == 'fld' and b[2] in {('fld', h, hq + '.shard_id') for h in hdr}]
                cx.check(any(f.bools[b] is True for b in procs), 'shard', where(e), 'the stream is not processed by the shard its header names', t, e)
                break
    cx.floor(m, 1, 'streams processed')


def known_entry(f, el):
    return any(f.var.get(x) == 'Entry' for x in f.var if contains_term(x, el)) and not any(isf(x, 'clock') and v == 'None' for x, v in f.var.items())


# ------------------------------------------------------------------ progress

def progress_writes(cx):
    """(root, trace, position, event, key, value) of the changes of the progress of a peer"""
    ctx, th = peer_cells(cx)
    if 'pwrites' not in cx.memo:
        out = []
        for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: e.kind == 'set' and len(e.a) == 2 and cell_of(e.a[0]) == ctx):
            p = progress_of(e.a[0])
            out.append((r, t, i, e, p[1] if p else None, e.a[1]))
        cx.memo['pwrites'] = out
    return cx.memo['pwrites']


def last_send(t, i, key):
    s = [(j, g) for j, g in enumerate(t.events[:i]) if g.kind == 'rpc' and g.a[0] == 'send_replication_stream']
    return s[-1] if s else (None, None)


def prog_field(v, name):
    for x in walk(v):
        if x[0] == 'agg' and afield(x, name) is not None:
            return afield(x, name)
    return None


def match_is_known(cx):
    """A leader takes a follower's log to match up to an index only if the follower has just acknowledged the entries up to it
    from a stream that started at the position recorded for it, and only while the leadership in which it was sent lasts."""
    n = k = 0
    for r, t, i, e, key, v in progress_writes(cx):
        m = prog_field(v, 'match_index')
        if m is None:
            if any(isf(x, 'match_index') for x in (e.a[0],)):
                m = v
            elif isf(e.a[0], 'epoch') or isf(e.a[0], 'next_index') or isf(e.a[0], 'next_max_cnt'):
                continue
            else:
                # a whole progress that was read before is put back
                cx.check(progress_of(v) and False, 'unknown-progress', where(e), f'the progress of a follower is set to {show(v)[:60]}', t, e)
                continue
        n += 1
        f = e.facts
        if f.eq(m, C(0)):
            cx.ok('reset', where(e))
            continue
        old = progress_of(m)
        if isf(m, 'match_index') and old and old[1] == key:
            # unchanged
            cx.check(epoch_kept(cx, t, i, e, key, old), 'stale-answer', where(e), 'the answer to an earlier leadership changes the progress of a follower', t, e)
            continue
        j, g = last_send(t, i, key)
        if not cx.check(g is not None and is_ok(g, f) and g.a[1] == key, 'unacknowledged', where(e), 'a follower is taken to hold entries that it did not acknowledge', t, e):
            continue
        k += 1
        s = first_index(cx, t, j, g)
        nin = ('fld', ok_of(g.ret), None)
        ns = {x for x in walk(m) if isf(x, 'n_inserted') and contains_term(x, g.ret)}
        if not cx.check(len(ns) == 1 and s is not None, 'acknowledged', where(e), 'the position of a follower is not derived from what it acknowledged', t, e):
            continue
        nn = next(iter(ns))
        good = lin_sum(m, (s.a[1], nn), -1)
        cx.check(good, 'off-by', where(e), f'the position of a follower is not the last acknowledged entry: {show(m)[:50]}', t, e)
        cx.check(f.lt(C(0), nn) or f.le(C(1), nn) or ne0(f, nn), 'nothing-acknowledged', where(e), 'a follower that acknowledged nothing is taken to hold the entry before', t, e)
        cx.check(epoch_kept(cx, t, i, e, key, progress_of(s.a[1])), 'stale-answer', where(e), 'the answer to an earlier leadership changes the progress of a follower', t, e)
    cx.floor(n, 4, 'changes of the progress of a follower')
    cx.floor(k, 1, 'acknowledgements')


def ne0(f, x):
    return any(l[0] == 'cmp' and l[1] == 'Ne' and {l[2], l[3]} == {x, C(0)} for l in f.log)


def lin_sum(m, parts, k):
    """is m = sum of the parts + k ?"""
    rest = list(parts)
    c = 0

    def add(x, sign):
        nonlocal c
        b, d = lin(x)
        c += sign * d
        if b is None:
            return True
        if b in rest and sign > 0:
            rest.remove(b)
            return True
        for q in rest:
            qb, qd = lin(q)
            if qb == b and sign > 0:
                rest.remove(q)
                c -= qd
                return True
        op = binop_of(b)
        if op:
            return add(op[1], sign) and add(op[2], sign if op[0] == 'Add' else -sign)
        return False
    return add(m, 1) and not rest and c == k


def binop_of(b):
    if isinstance(b, tuple) and b and b[0] in ('bin', 'op') and len(b) >= 4 and b[1] in ('Add', 'Sub'):
        return b[1], b[2], b[3]
    if isinstance(b, tuple) and len(b) == 3 and b[0] in ('Add', 'Sub'):
        return b
    return None


def epoch_kept(cx, t, i, e, key, old):
    """between the reading of the progress and this change no other leadership began"""
    f = e.facts
    if old is None:
        return False
    cell = e.a[0]
    new = progress_of(cell)
    if new is not None and new[0] == old[0]:
        # read and written under one lock
        return True
    for a, b in equalities(f):
        if isf(a, 'epoch') and isf(b, 'epoch'):
            pa, pb = progress_of(a), progress_of(b)
            if {pa, pb} == {(old[0], key), (new[0], key)} and a != b:
                return True
    return False


def at_least_one(x, f):
    """True/False when an unsigned quantity is surely positive / is made by an operation that may give 0"""
    if f.le(C(1), x) is True or f.lt(C(0), x) is True:
        return True
    if x[0] == 'c':
        return isinstance(x[1], int) and x[1] >= 1
    if isf(x, 'next_max_cnt') or isf(x, 'next_index'):
        return True
    if x[0] == 'add' and x[2] >= 1:
        return True
    if x[0] == 'bin' and x[1] in ('Mul', 'Add'):
        xs = [at_least_one(y, f) for y in x[2:4]]
        return True if all(xs) or x[1] == 'Add' and any(xs) else False if False in xs else None
    if x[0] == 'bin' and x[1] in ('Div', 'Sub', 'Shr', 'Rem', 'BitAnd') or x[0] == 'add':
        return False
    return None


def next_moves(cx):
    """After an answer the leader goes on right after the acknowledged entries; after a rejection it goes back; and it jumps
    forward only to its snapshot."""
    n = k = b = c = 0
    for r, t, i, e, key, v in progress_writes(cx):
        nx, m = prog_field(v, 'next_index'), prog_field(v, 'match_index')
        if nx is None or m is None:
            continue
        n += 1
        f = e.facts
        j, g = last_send(t, i, key)
        width = prog_field(v, 'next_max_cnt')
        cx.check(width is None or at_least_one(width, f) is not False, 'nothing-next', where(e), 'the number of entries sent next may become 0, so that the follower gets none any more', t, e)
        if g is not None and is_ok(g, f) and any(isf(x, 'n_inserted') for x in walk(m)):
            k += 1
            s = first_index(cx, t, j, g)
            ns = {x for x in walk(m) if isf(x, 'n_inserted')}
            cx.check(s is not None and len(ns) == 1 and lin_sum(nx, (s.a[1], next(iter(ns))), 0), 'next', where(e), 'replication does not go on right after the last acknowledged entry', t, e)
        elif g is not None and is_ok(g, f):
            b += 1
            s = first_index(cx, t, j, g)
            lower = s is not None and (f.lt(nx, s.a[1]) or f.le(nx, mk_add(s.a[1], -1)) or lin(nx) == (lin(s.a[1])[0], lin(s.a[1])[1] - 1))
            cx.check(lower, 'no-back', where(e), 'after a rejection the leader sends the same entries again', t, e)
            cx.check(not isf(nx, 'log_last_index') or f.le(C(1), nx), 'at-zero', where(e), 'replication to a follower with an empty log goes on at the position 0, where there is no entry', t, e)
        elif f.eq(m, C(0)):
            a = [h for h in t.events[:i] if iscall(h, INS)]
            cx.check(not a or f.le(nx, a[-1].a[1]), 'starts-behind', where(e), 'replication starts behind the entry that was just appended, which no follower gets before another one follows', t, e)
    for r, t, i, e in distinct(cx, ['rpc:process_kern_request'], lambda e: e.kind == 'insert' and cell_of(e.a[0]) == peer_cells(cx)[0]):
        nx = next((prog_field(x, 'next_index') for x in walk(e.a[2]) if prog_field(x, 'next_index') is not None), None)
        a = [h for h in t.events[:i] if iscall(h, INS)]
        if nx is None or not a:
            continue
        c += 1
        cx.check(e.facts.le(nx, a[-1].a[1]), 'new-peer-behind', where(e), 'replication to a new member starts behind the entry that adds it', t, e)
    cx.floor(c, 1, 'new members')
    cx.floor(k, 1, 'acknowledgements')
    cx.floor(b, 1, 'rejections')
    # a position below the snapshot is moved to the snapshot
    c = 0
    ctx, th = peer_cells(cx)
    for t in cx.traces('task:replication', ('turn',)):
        f = t.facts
        loads = [g for g in t.events if g.kind == 'load' and g.a[0] == cx.snapp()]
        for g in loads:
            below = [x for l in f.log for x in walk(l) if isf(x, 'next_index') and f.lt(x, g.ret)]
            if below and not failed(t):
                c += 1
                ws = [e for e in t.events if e.kind == 'set' and cell_of(e.a[0]) == ctx]
                ok = any(prog_field(e.a[1], 'next_index') is not None and f.eq(prog_field(e.a[1], 'next_index'), g.ret) for e in ws)
                gone = any(x[0] == 'has' and v is False and cell_of(x[1]) == ctx for x, v in f.bools.items())
                cx.check(ok or gone, 'below-snapshot', 'task:replication', 'the leader keeps trying to send entries that its snapshot has replaced', t)
    cx.floor(c, 1, 'followers behind the snapshot')


def replicate_as_leader(cx):
    """Only a leader sends entries, and it sends what the follower lacks."""
    n = k = 0
    ctx, th = peer_cells(cx)
    for r, t, i, e in sends(cx):
        n += 1
        cx.check(cx.state_is(e.facts, 'Leader'), 'not-leader', where(e), 'a node that does not lead sends entries', t, e)
    for t in cx.traces('task:replication', ('turn',)):
        f = t.facts
        if any(e.kind == 'rpc' and e.a[0] == 'send_replication_stream' for e in t.events) or any(e.kind == 'set' and cell_of(e.a[0]) == ctx for e in t.events):
            continue
        k += 1
        lasts = [ok_of(e.ret) for e in t.events if iscall(e, LAST) and is_ok(e, f)]
        nxt = {x for l in f.log for x in walk(l) if isf(x, 'next_index')}
        cnt = {x for l in f.log for x in walk(l) if isf(x, 'next_max_cnt')}
        why = not cx.state_is(f, 'Leader') or failed(t) or any(f.lt(l, x) for l in lasts for x in nxt) or \
            any(x[0] == 'has' and v is False and cell_of(x[1]) == ctx for x, v in f.bools.items()) or \
            any(f.lt(x, C(1)) or f.le(x, C(0)) for x in cnt) or entry_gone(cx, t) or any(f.lt(mk_add(ok, 0), C(1)) for ok in ())
        cx.check(why, 'withheld', 'task:replication', 'a leader does not send a follower the entries it lacks', t)
    cx.floor(n, 4, 'replication streams')


def entry_gone(cx, t):
    f = t.facts
    return any(iscall(e, GET) and is_ok(e, f) and not is_some(ok_of(e.ret), f) for e in t.events)


def snapshot_streamed(cx):
    """The contents of a snapshot cross the network unchanged: each chunk the application hands out arrives with the same
    bytes, a failure arrives as a failure, and nothing is dropped."""
    n = 0
    outs = set()
    for t in cx.traces('rpc:get_snapshot', ('ret',)):
        for x in walk(t.ret):
            if x[0] == 'stream':
                outs.add(('out', x))
    for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: iscall(e, 'RaftApp::save_snapshot')):
        for x in walk(e.a[1]):
            if x[0] == 'stream':
                outs.add(('in', x))
    top = [(d, s) for d, s in outs if not any(d == d2 and s != s2 and contains_term(s2, s) for d2, s2 in outs)]
    for d, s in top:
        src, ads = base_of(s)
        its = cx.A.items(s)
        for f, v in its:
            n += 1
            el = next((x for x in walk(v) if x[0] == 'elem' and x[1] in (src, ('stream', src, ()))), None)
            if v[0] == 'agg' and v[3] == 'Ok':
                p = v[4][0][1]
                q = next((x for x in walk(p) if x[0] == 'fld' and x[2] == OKP and x[1][0] == 'elem'), None)
                data = afield(p, 'data') if p[0] == 'agg' and d == 'out' else p
                want = q if d == 'out' else None
                ok = q is not None and (data == q if d == 'out' else plain_data(p, q))
                cx.check(ok and f.variant(q[1]) == 'Ok', 'chunk:' + d, f'{d}going stream', 'a chunk of a snapshot is changed on its way')
            elif v[0] == 'agg' and v[3] == 'Err':
                cx.check(any(f.variant(x) == 'Err' for x in f.var), 'chunk-failed:' + d, f'{d}going stream', 'a chunk of a snapshot is replaced by a failure')
            else:
                cx.check(v[0] == 'elem', 'chunk:' + d, f'{d}going stream', 'a chunk of a snapshot is changed on its way')
        bad = [a[0] for a in ads if a[0] not in ('map', 'map_ok', 'map_err', 'then', 'boxed', 'fuse', 'inspect')]
        cx.check(not bad, 'chunks-dropped:' + d, f'{d}going stream', f'chunks of a snapshot are dropped on their way ({", ".join(bad)})')
        vs = {v[3] for f, v in its if v[0] == 'agg'}
        cx.check(vs >= {'Ok', 'Err'} or not vs, 'failure-hidden:' + d, f'{d}going stream', 'a failure while a snapshot is sent is hidden from the receiver')
    cx.floor(len({d for d, _ in top}), 2, 'streams of snapshots')
    cx.floor(n, 4, 'kinds of chunks')


def plain_data(p, q):
    """p is the data field of the chunk q, at most converted"""
    while p[0] == 'pf' and len(p[2]) == 1 or p[0] in ('ref', 'addr'):
        p = p[2][0] if p[0] == 'pf' else p[1]
    return isf(p, 'data') and p[1] == q
