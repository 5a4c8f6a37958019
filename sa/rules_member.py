"""Membership of the cluster: where it comes from, how it changes, what follows it."""
from base import *
from rules_election import SAVE, LOAD, LAST, GET
from rules_log import *
from rules_apply import distinct, cells_of, cell_of, fields_named, on_cell

CONFIG = ('Snapshot', 'ClusterConfiguration')


def failed(t):
    """does the path end because something failed?"""
    if t.end == 'panic' or t.end.startswith('cut'):
        return True
    if t.ret is not None and (t.ret[0] == 'agg' and t.ret[3] == 'Err' or t.facts.variant(t.ret) == 'Err'):
        return True
    return any(e.ret is not None and t.facts.variant(e.ret) == 'Err' for e in t.events if e.kind in ('call', 'rpc'))


def member_sets(cx, roots=None):
    """(root, trace, position, event, value) of each assignment of the membership"""
    loc = cx.membership()
    key = 'member_sets', tuple(roots or ())
    if key not in cx.memo:
        cx.memo[key] = [(r, t, i, e, e.a[1]) for r, t, i, e in
                        distinct(cx, roots or cx.process_roots(), lambda e: on_cell(e, [loc])) ]
    return cx.memo[key]


def memp_write(t, i, cx):
    """the write of the position of the membership that belongs to the assignment at i"""
    for j, g in enumerate(t.events[i + 1:], i + 1):
        if g.kind in ('store', 'fetch_max', 'swap') and g.a[0] == cx.memp():
            return j, g
        if g.kind == 'set' and cell_of(g.a[0]) == cx.membership():
            return None
    return None


def config_of_command(v):
    """v is the membership in a decoded command -> the encoded command"""
    if isf(v, 'membership'):
        b = v[1]
        if b[0] == 'fld' and b[2] == OKP:
            b = b[1]
        if b[0] == 'pf' and b[1] == 'deser':
            return b[2][0]
    return None


def ser_membership(cmd):
    for x in walk(cmd):
        if x[0] == 'ser':
            for y in walk(x[1]):
                if y[0] == 'agg' and y[3] in CONFIG:
                    return afield(y, 'membership')
    return None


def from_entry(cx, t, i, v, idx):
    """is v the membership of the entry at idx, which was read from or written to the log before event i?"""
    eq, cq = cx.entry_q()
    f = t.events[i].facts
    for g in t.events[:i]:
        if not (iscall(g, GET) or iscall(g, INS)):
            continue
        if iscall(g, GET):
            if not is_ok(g, f) or not (g.a[1] == idx or eqx(cx, f, g.a[1], idx)):
                continue
            cmd = proj(some_of(ok_of(g.ret)), eq + '.command')
        else:
            if not is_ok(g, f) or not (g.a[1] == idx or eqx(cx, f, g.a[1], idx)):
                continue
            cmd = proj(g.a[2], eq + '.command')
        c = config_of_command(v)
        if c is not None and same(c, cmd, f):
            return g
        m = ser_membership(cmd)
        if m is not None and same(m, v, f):
            return g
    return None


def already_there(cx, f, t, i, idx):
    """the snapshot at idx is the one the node already has"""
    eq, cq = cx.entry_q()
    names = [idx] + [proj(entry_clock(cx, g), cq + '.index') for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and g.a[1] == idx]
    return any(g.kind == 'load' and g.a[0] == cx.snapp() and any(eqx(cx, f, g.ret, x) for x in names) for g in t.events[:i])


def config_from_log(cx):
    """The membership a node uses is the one in the log entry at the position it records for it, from the moment the
    entry is in the log."""
    n = 0
    for r, t, i, e, v in member_sets(cx):
        n += 1
        if not cx.check(e.kind == 'set' and len(e.a) == 2, 'partial-change', where(e), 'the membership is changed in place, not replaced by that of a log entry', t, e):
            continue
        w = memp_write(t, i, cx)
        if w is None:
            cx.check(failed(t), 'position-missing', where(e), 'the membership changes but its position in the log is not recorded', t, e)
            continue
        j, g = w
        idx = g.a[1]
        src = from_entry(cx, t, i, v, idx)
        if src is None and (r == 'rpc:add_server' or r == STREAM) and already_there(cx, e.facts, t, i, idx):
            cx.ok('existing snapshot', where(e))
            continue
        cx.check(src, 'not-from-log', where(e), f'the membership is not the one of the entry at the recorded position {show(idx)[:60]}', t, e)
        cx.check(g.kind == 'store', 'position-kept', where(g), 'the position of the membership is not replaced together with it', t, g)
    cx.floor(n, 5, 'assignments of the membership')
    # the position alone is written only for a snapshot that holds the same membership
    m = 0
    for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: e.kind in ('store', 'fetch_max', 'swap', 'fetch_add', 'fetch_sub') and e.a[0] == cx.memp()):
        prev = [g for g in t.events[:i] if g.kind == 'set' and cell_of(g.a[0]) == cx.membership()]
        m += 1
        if prev:
            # no insertion in between
            continue
        if r == 'boot' and lin(e.a[1])[0] is None and lin(e.a[1])[1] == 0:
            continue
        ins = [g for g in t.events[:i] if iscall(g, INS) and is_ok(g, e.facts) and eqx(cx, e.facts, g.a[1], e.a[1]) and
               cmd_kind(e.facts, entry_parts(cx, g.a[2])[2]) == 'Snapshot']
        cx.check(e.kind == 'fetch_max' and (ins or already_there(cx, e.facts, t, i, e.a[1])), 'position-alone', where(e),
                 'the position of the membership is changed without the membership', t, e)
    cx.floor(m, 5, 'writes of the position of the membership')


def every_insert(cx):
    """(root, trace, position, event) of the insertions on all paths"""
    for r in sorted({x[0] for x in inserts(cx)}):
        for t in cx.traces(r):
            if failed(t):
                continue
            for i, e in enumerate(t.events):
                if iscall(e, INS):
                    yield r, t, i, e


def position_in_log(cx):
    """The recorded position of the membership names an entry that stays in the log: when an entry of the own log becomes a
    snapshot, for which everything before it may be deleted, the position is moved up to it."""
    n = 0
    for r, t, i, e in every_insert(cx):
        if ikind(cx, r, t, i, e) != 'local-snapshot' or not t.end.startswith(('ret', 'turn')):
            continue
        f = t.facts
        if is_ok(e, f) is False or f.variant(e.ret) == 'Err':
            continue
        n += 1
        idx = e.a[1]
        ok = any(g.kind in ('fetch_max', 'store') and g.a[0] == cx.memp() and (eqx(cx, f, g.a[1], idx) or f.le(idx, g.a[1])) or
                 g.kind == 'load' and g.a[0] == cx.memp() and f.le(idx, g.ret) for g in t.events)
        cx.check(ok, 'position-deleted', where(e), 'the recorded position of the membership is that of an entry which the new snapshot lets be deleted', t, e)
    cx.floor(n, 1, 'snapshots of the own log')


def config_on_insert(cx):
    """As soon as a configuration or a snapshot is inserted into the log its membership takes effect, unless a later one
    is in the log; that a later one may have been removed with its entry is checked for every insertion of a follower."""
    n = k = 0
    for r, t, i, e in every_insert(cx):
        kind = ikind(cx, r, t, i, e)
        if kind == 'local-snapshot':
            continue
        idx, ent = entry_of(e)
        cmd = entry_parts(cx, ent)[2]
        f = e.facts
        if kind == 'append' and not cmd_kind(f, cmd) == 'ClusterConfiguration':
            continue
        if not is_ok(e, t.facts) or failed(t):
            continue
        end = next((j for j, g in enumerate(t.events[i + 1:], i + 1) if g.kind == 'await' and g.a[0] == 'next' or iscall(g, INS)), len(t.events))
        if end == len(t.events) and t.end != 'ret' and not (t.loop and t.loop[2] <= i):
            continue
        n += 1
        seg = t.events[i + 1:end]
        sets = [g for g in seg if g.kind == 'set' and cell_of(g.a[0]) == cx.membership()]
        F = t.facts
        loads = [g for g in seg if g.kind == 'load' and g.a[0] == cx.memp()]
        behind = any(F.lt(g.ret, idx) for g in loads)
        cfg = cmd_kind(F, cmd) in CONFIG
        if kind in ('append', 'bootstrap'):
            cx.check(sets and from_entry(cx, t, t.events.index(sets[0]), sets[0].a[1], idx) is e, 'config-not-used', where(e),
                     'a configuration is appended but does not take effect', t, e)
            continue
        k += cfg
        if behind and cmd_not(F, cmd, CONFIG):
            cx.ok('no configuration', where(e))
        elif sets:
            # another stream may have replaced the entry since: the last one in the log counts
            ok = all(last_search(cx, t, t.events.index(g), i, change_lock(cx)) for g in sets)
            cx.check(ok, 'rollback-source', where(e), 'the membership after a received entry is not the last one in the log', t, sets[-1])
        elif cfg:
            cx.check(searched_none(cx, t, i), 'config-not-used', where(e), 'a received configuration does not take effect', t, e)
        else:
            cx.check(searched_none(cx, t, i), 'rollback', where(e), 'the entry of the membership may have been replaced, but the membership stays', t, e)
    # an error after the entry is in the log does not excuse the node from using it; a second attempt makes up for what the first one left out
    for r in sorted({x[0] for x in of_kind(cx, 'append', 'bootstrap')}):
        for t in cx.traces(r, ('ret', 'panic')):
            for i, e in enumerate(t.events):
                if iscall(e, INS) and is_ok(e, t.facts) and cmd_kind(e.facts, entry_parts(cx, entry_of(e)[1])[2]) in CONFIG:
                    cx.check(any(g.kind == 'set' and cell_of(g.a[0]) == cx.membership() for g in t.events[i:]), 'config-lost', where(e),
                             'a configuration is in the log of the leader but may never take effect because of an error', t, e)
    m = 0
    for t in cx.traces(STREAM):
        if not t.end.startswith('iter') or not recv_loop_end(cx, t) or failed(t):
            continue
        i = max((i for i, e in enumerate(t.events) if e.kind == 'item' and in_entries(e)), default=None)
        if i is None or any(iscall(g, INS) for g in t.events[i:]) or not accepted_in(cx, t, i):
            continue
        m += 1
        F = t.facts
        cmds = {x for b in F.log for x in walk(b) if isf(x, 'command') and contains_term(x, t.events[i].a[0])}
        under = [j for j, g in enumerate(t.events) if j > i and any(h[0] == change_lock(cx) for h in g.held)]
        plain = any(t.events[j].kind == 'load' and t.events[j].a[0] == cx.memp() for j in under) and any(cmd_not(F, c, CONFIG) for c in cmds)
        cx.check(plain or any(iscall(t.events[j], LAST) for j in under), 'skipped-config', where(t.events[-1]),
                 'an entry that is in the log already is passed over although an earlier attempt may have left its configuration out', t)
    cx.floor(m, 1, 'entries that were in the log already')
    cx.floor(n, 8, 'insertions followed to the membership')
    cx.floor(k, 2, 'received configurations')


def last_search(cx, t, j, i0, lk=None):
    """the assignment at j takes the membership of the last configuration in the log, searched for after event i0"""
    e = t.events[j]
    w = memp_write(t, j, cx)
    if w is None:
        return failed(t)
    idx = w[1].a[1]
    rg = rng_of(cx, idx)
    if rg is None or 'rev' not in rg:
        return False
    return from_entry(cx, t, j, e.a[1], idx) is not None and hi_is_last(cx, t, rg, i0, j, lk)


def hi_is_last(cx, t, rg, i0, j, lk=None):
    hi = rg[2]
    b, k = lin(hi)
    lasts = [g for g in t.events[i0 + 1:j] if iscall(g, LAST) and is_ok(g, t.facts) and (lk is None or any(h[0] == lk for h in g.held))]
    return k == 1 and any(b == ok_of(g.ret) for g in lasts) and lin(rg[1]) in ((None, 1), (None, 0))


def searched_none(cx, t, i):
    """was the log searched for a configuration after event i (and nothing found)?"""
    return any(iscall(g, LAST) and is_ok(g, t.facts) for g in t.events[i + 1:])


def nth_last(t, x, i0=0):
    """which of the readings of the last index of the log bounds the range"""
    b, k = lin(x[2])
    ls = [g for g in t.events[i0:] if iscall(g, LAST)]
    return next((n for n, g in enumerate(ls) if ok_of(g.ret) == b), None)


def after_ins(t):
    return next((i for i, e in enumerate(t.events) if iscall(e, INS)), 0)


def search_skips(cx):
    """A search for the last configuration passes over no configuration."""
    n = k = 0
    eq, cq = cx.entry_q()
    for r in ('boot', STREAM):
        which = set()
        for t in cx.traces(r):
            for i, g in enumerate(t.events):
                if g.kind == 'set' and cell_of(g.a[0]) == cx.membership():
                    w = memp_write(t, i, cx)
                    if w:
                        x = nth_last(t, rng_of(cx, w[1].a[1]), after_ins(t))
                        if x is not None or rng_of(cx, w[1].a[1], False):
                            which.add(x)
        if cx.check(which and None not in which, 'no-search', r, 'the search for the last configuration was not found'):
            n += 1
        for t in cx.traces(r, ('iter',)):
            for g in t.events[t.loop[2]:]:
                x = rng_of(cx, g.a[1]) if iscall(g, GET) else None
                at = x and nth_last(t, x, after_ins(t))
                if at is None or at not in which or any(h.kind == 'set' or iscall(h, INS) or iscall(h, LAST) for h in t.events[t.loop[2]:]):
                    continue
                k += 1
                cmd = proj(some_of(ok_of(g.ret)), eq + '.command')
                cx.check(cmd_not(t.facts, cmd, CONFIG), 'skipped', where(g), 'the search for the last configuration passes over one', t, g)
    cx.floor(n, 2, 'searches for the last configuration')
    cx.floor(k, 4, 'entries passed over')


def config_restored(cx):
    """A node that restarts uses the last configuration in its log, if there is one, before any of its activities starts."""
    n = 0
    for t in cx.traces('boot', ('ret',)):
        if failed(t):
            continue
        sets = [j for j, g in enumerate(t.events) if g.kind == 'set' and cell_of(g.a[0]) == cx.membership()]
        spawns = [j for j, g in enumerate(t.events) if g.kind == 'spawn' and not any(held_has(g, c) for c in [cx.membership()])]
        if sets:
            n += 1
            cx.check(last_search(cx, t, sets[-1], -1), 'restart-source', where(t.events[sets[-1]]), 'the membership after a restart is not the last one in the log', t, t.events[sets[-1]])
        else:
            cx.check(len([g for g in t.events if iscall(g, LAST)]) >= 1, 'no-search', '-', 'the log is not searched for a configuration on restart', t)
    cx.floor(n, 2, 'restarts with a configuration in the log')


# ------------------------------------------------------------------ changes

def kern_variant(f, root, cx):
    for x, v in f.var.items():
        if x[0] == 'fld' and x[2] == OKP and x[1][0] == 'pf' and x[1][1] == 'deser' and 'KernRequest' in str(x[1][2][1]):
            return x, v
    return None, None


def one_change(cx):
    """A configuration is appended only by a leader whose last configuration is committed, and differs from that one by
    the one server the request names. From reading the last membership to putting the new one into effect the leader
    lets no other change in."""
    n = {}
    for r, t, i, e in of_kind(cx, 'append'):
        idx, ent = entry_of(e)
        cmd = entry_parts(cx, ent)[2]
        f = e.facts
        if cmd_kind(f, cmd) != 'ClusterConfiguration':
            if cmd_kind(f, cmd) is None:
                cx.bad('unknown-command', where(e), 'a command of unknown kind is appended', t, e)
            continue
        new = ser_membership(cmd)
        x, var = kern_variant(f, r, cx)
        n[var] = n.get(var, 0) + 1
        if not cx.check(new is not None and new[0] == 'coll' and len(new[2]) == 1, 'not-one', where(e),
                        f'the new configuration does not differ by one server from the last: {show(new)[:80]}', t, e):
            continue
        op, base = new[2][0], new[3]
        who = ('fld', x, None)
        sub = op[1]
        named = isinstance(sub, tuple) and sub[0] == 'fld' and sub[1] == x
        cx.check(named, 'other-server', where(e), 'the server added or removed is not the one in the request', t, e)
        want = {'AddServer': 'add', 'RemoveServer': 'del'}.get(var)
        cx.check(op[0] == want and (op[0] != 'add' or op[3] == 'one' and not op[2]), 'wrong-direction', where(e), f'{var} leads to {op[0]}', t, e)
        cx.check(base[0] == 'cell' and base[1] == cx.membership(), 'base', where(e), 'the new configuration is not built from the current membership', t, e)
        # the last configuration is committed
        lm = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.memp()]
        lc = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.commit()]
        pair = [(a, b) for a in lm for b in lc if f.le(a.ret, b.ret)]
        if cx.check(pair, 'pending-change', where(e), 'a configuration is appended while the last one may not be committed', t, e):
            rd = [g for g in t.events[:i] if g.kind == 'acquire' and g.a[0] == cx.membership()]
            rd = [g for g in rd if base[0] == 'cell' and g.site and g.ret == base or True]
            locks = [h for h in e.held if h[1] == 'w' and h[2] == 'async' and h[0] != append_lock(cx)]
            good = [h for h in locks if any(h in a.held for a, b in pair) and rd and h in rd[0].held]
            s = [g for g in t.events[i + 1:] if g.kind == 'set' and cell_of(g.a[0]) == cx.membership()]
            good = [h for h in good if all(h in g.held for g in s)]
            cx.check(good, 'not-serialized', where(e), 'two configuration changes can be built from the same membership', t, e)
    for v in ('AddServer', 'RemoveServer'):
        cx.floor(n.get(v, 0), 1, f'configurations appended for {v}')


def append_lock(cx):
    if 'append_lock' not in cx.memo:
        c = {}
        for r, t, i, e in of_kind(cx, 'append', 'received'):
            for h in e.held:
                if h[2] == 'async':
                    c[h[0]] = c.get(h[0], 0) + 1
        cx.memo['append_lock'] = max(c, key=c.get) if c else None
    return cx.memo['append_lock']


def change_lock(cx):
    """the lock under which most changes of the membership are made"""
    if 'change_lock' not in cx.memo:
        lk = {}
        for r, t, i, e, v in member_sets(cx):
            for h in e.held if r != 'boot' else ():
                if h[1] == 'w' and h[2] == 'async':
                    lk[h[0]] = lk.get(h[0], 0) + 1
        cx.memo['change_lock'] = max(lk, key=lk.get) if lk else None
    return cx.memo['change_lock']


def change_serialized(cx):
    """After start-up the membership changes only under the lock that serializes its changes, with the position it has in
    the log compared under that lock."""
    lk = change_lock(cx)
    n = 0
    for r, t, i, e, v in member_sets(cx):
        if r == 'boot':
            continue
        n += 1
        hs = [h for h in e.held if h[0] == lk and h[1] == 'w']
        if not cx.check(hs, 'unserialized', where(e), 'two activities can change the membership at the same time', t, e):
            continue
        w = memp_write(t, i, cx)
        if w:
            cx.check(hs[0] in w[1].held, 'position-unserialized', where(w[1]), 'the position of the membership is recorded outside the lock', t, w[1])
        if r == STREAM:
            ld = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.memp() and hs[0] in g.held]
            cx.check(ld, 'compare-unserialized', where(e), 'the position of the membership is compared outside the lock', t, e)
    cx.floor(n, 4, 'changes of the membership')


# ------------------------------------------------------------------ peers

def peer_cells(cx):
    if 'peers' not in cx.memo:
        ctx = [c for c in cells_of(cx, 'PeerContexts') if 'HashMap' in cx_type(cx, c) or 'BTreeMap' in cx_type(cx, c)]
        th = [c for c in cells_of(cx, 'ThreadHandles') if 'Map' in cx_type(cx, c)]
        if not ctx or not th:
            raise AnchorMissing('the maps of peers and of their activities')
        cx.memo['peers'] = (ctx[0], th[0])
    return cx.memo['peers']


def cx_type(cx, loc):
    n, fld = loc[1].rsplit('.', 1)
    for v in (cx.P.adts.get(n) or {'variants': []})['variants']:
        for f in v['f']:
            if f['n'] == fld:
                return f['t']
    return ''


def config_value(cx, t, i, v):
    """is v a membership that comes from an entry read or written on this path?"""
    eq, cq = cx.entry_q()
    f = t.facts
    for g in t.events[:i]:
        if iscall(g, GET) and is_ok(g, f):
            c = config_of_command(v)
            if c is not None and same(c, proj(some_of(ok_of(g.ret)), eq + '.command'), f):
                return True
        if iscall(g, INS):
            cmd = proj(g.a[2], eq + '.command')
            if config_of_command(v) is not None and same(config_of_command(v), cmd, f) or ser_membership(cmd) == v:
                return True
    return False


def is_self(cx, k, f):
    return k == cx.self_id() or f.bools.get(('eqv',) + eq_key(k, cx.self_id()))


def member_loc(c, cx):
    return c[0] == 'cell' and c[1] == cx.membership()


def knows_has(f, coll, k):
    return f.bools.get(('has', coll, k))


def elem_facts(f, k):
    """the facts of the path that mention k"""
    out = []
    for c, b in f.bools.items():
        if any(x == k for x in walk(c)):
            out.append((c, b))
    return out


def lost_keys(t):
    """the members that a configuration written on this path leaves out"""
    return {o[1] for e in t.events if iscall(e, INS) for x in walk(e.a[2]) if x[0] == 'coll' for o in x[2] if o[0] == 'del'}


def plain_reason(cx, c, k, t):
    """a test of k that a change of the membership may depend on"""
    if c[0] == 'has' and c[2] == k:
        return True
    if c[0] != 'eqv' or k not in c[1:]:
        return False
    other = c[2] if c[1] == k else c[1]
    return other == cx.self_id() or other in lost_keys(t)


def peers_follow(cx):
    """When the membership changes, each new member other than the node itself gets a replication state, a replication and
    a heartbeat activity of its own, and a member that left loses all three."""
    ctx, th = peer_cells(cx)
    n = {'add': 0, 'del': 0}
    loops = {}
    for r in cx.process_roots():
        seen = set()
        for t in cx.A.runs[r].traces:
            evs = [(i, e) for i, e in enumerate(t.events) if e.kind in ('insert', 'remove') and e.a and cell_of(e.a[0]) in (ctx, th)]
            for i, e in evs:
                loc = cell_of(e.a[0])
                k = e.a[1]
                if t.loop and i >= t.loop[2]:
                    d = loops.setdefault((r, e.site), {})
                    d[t.loop[:2]] = min(d.get(t.loop[:2], 1 << 30), i - t.loop[2])
                key = (e.kind, e.a, e.site, e.facts.key(), t.end, history(t))
                if key in seen:
                    continue
                seen.add(key)
                cx.roots_used.add(r)
                f = e.facts
                mb = [c for c in f.bools if c[0] == 'has' and c[2] == k]
                if e.kind == 'insert':
                    n['add'] += 1
                    cx.check(any(member_loc(c[1], cx) and f.bools[c] is False for c in mb), 'peer-not-new', where(e), 'a peer is set up that is not a new member', t, e)
                    cx.check(is_self(cx, k, f) is False, 'peer-self', where(e), 'a node makes itself its own peer', t, e)
                    cx.check(all(plain_reason(cx, c, k, t) for c, b in elem_facts(f, k)), 'peer-condition', where(e), 'a new member gets its replication only under a further condition', t, e)
                    if failed(t):
                        continue
                    both = {cell_of(g.a[0]) for _, g in evs if g.kind == 'insert' and g.a[1] == k}
                    sp = {g.site for g in t.events if g.kind == 'spawn' and contains_term(g.a[0], k)}
                    cx.check(both == {ctx, th} and len(sp) >= 2, 'peer-incomplete', where(e), 'a new member is not given both its replication state and its activities', t, e)
                    if loc == th:
                        hs = {x for x in walk(e.a[2]) if x[0] == 'res' and x[1] == 'spawn' and contains_term(x, k)}
                        cx.check(len(hs) >= 2, 'handles', where(e), 'the activities of a new member are not kept for as long as it is a member', t, e)
                else:
                    n['del'] += 1
                    if k[0] == 'elem' and member_loc(k[1], cx):
                        cx.check(any(not member_loc(c[1], cx) and f.bools[c] is False for c in mb), 'peer-still-member', where(e), 'a peer is dropped that is still a member', t, e)
                        both = {cell_of(g.a[0]) for _, g in evs if g.kind == 'remove' and g.a[1] == k}
                        cx.check(both == {ctx, th} or failed(t), 'peer-half-removed', where(e), 'a member that left keeps its replication state or its activities', t, e)
                        cx.check(not any(g.kind == 'forget' and any(x[0] in ('mval', 'res') and (contains_term(x, k) or x == e.ret) for x in walk(g.a[0])) for g in t.events), 'peer-forgotten', where(e),
                                 'the activities of a member that left are never stopped', t, e)
                    else:
                        cx.bad('peer-dropped', where(e), 'a peer is dropped that did not leave the membership', t, e)
    # nothing is left out by the loops that set up and drop peers
    loops = {(r, min(d, key=d.get)) for (r, _), d in loops.items()}
    for r in cx.process_roots():
        for t in cx.A.runs[r].traces:
            if not t.loop or (r, t.loop[:2]) not in loops or failed(t):
                continue
            f = t.facts
            evs = [e for e in t.events[t.loop[2]:] if e.kind in ('insert', 'remove') and e.a and cell_of(e.a[0]) in (ctx, th)]
            if evs:
                cx.ok('element', f'{r} {t.loop[0]}')
                continue
            new = t.facts.log[t.loop[3]:]
            txt = [b for b in f.bools if any(b in (x if isinstance(x, tuple) else ()) for x in new)]
            excuse = any(c[0] == 'has' and cell_of(c[1]) in (ctx, th) or c[0] == 'eqv' and f.bools[c] is True or
                         c[0] == 'has' and f.bools[c] is True for c in txt if plain_reason(cx, c, c[2] if c[0] == 'has' else next((x for x in c[1:] if x != cx.self_id()), None), t))
            cx.check(excuse, 'left-out', f'{r} {fnname(t.loop[0])}', 'a change of the membership is not carried over to the peers', t)
    cx.floor(n['add'], 4, 'peers set up')
    cx.floor(n['del'], 4, 'peers dropped')


# ------------------------------------------------------------------ bootstrap, stepping down, handing over

def selfset(cx, m):
    return m is not None and m[0] == 'coll' and m[3] == ('empty',) and len(m[2]) == 1 and m[2][0][0] == 'add' and m[2][0][1] == cx.self_id()


def bootstrap_once(cx):
    """A cluster is formed only on the request to add a node to itself while it has no members yet: the log then starts
    with a snapshot at index 1 of term 0 that names that node alone, which takes effect before it stands for election."""
    n = k = 0
    ser = ('server_id',)
    for r, t, i, e in of_kind(cx, 'bootstrap'):
        n += 1
        idx, ent = entry_of(e)
        tc, pc, cmd = entry_parts(cx, ent)
        eq, cq = cx.entry_q()
        f = e.facts
        cells = {x for b in f.log for x in walk(b) if member_loc(x, cx)}
        none = [c for c in cells if f.le(('len', c), C(0)) or f.bools.get(('empty', c))]
        since = [h[3] for h in e.held if h[0] == change_lock(cx) and h[1] == 'w']
        cx.check(since and any(serial_of(c) is not None and serial_of(c) > since[0] for c in none) or not none, 'formed-twice', where(e),
                 'another activity may have formed or joined a cluster since the node was found to have no members', t, e)
        empty = bool(none)
        cx.check(empty, 'has-members', where(e), 'a node that already has a membership forms a cluster', t, e)
        own = any(c[0] == 'eqv' and b is True and cx.self_id() in c[1:] and any(isf(x, 'server_id') for y in c[1:] for x in walk(y)) for c, b in f.bools.items())
        cx.check(own, 'other-node', where(e), 'a node forms a cluster for another one', t, e)
        cx.check(lin(idx) == (None, 1) and lin(proj(tc, cq + '.index')) == (None, 1) and lin(proj(tc, cq + '.term')) == (None, 0) and
                 lin(proj(pc, cq + '.index')) == (None, 0) and lin(proj(pc, cq + '.term')) == (None, 0), 'first-index', where(e),
                 'the log of a new cluster does not start at index 1, term 0', t, e)
        cx.check(selfset(cx, ser_membership(cmd)), 'first-members', where(e), 'a new cluster does not consist of the node alone', t, e)
    cx.floor(n, 1, 'cluster formations')
    for t in cx.traces('rpc:add_server', ('ret',)):
        sets = [(i, g) for i, g in enumerate(t.events) if g.kind == 'set' and cell_of(g.a[0]) == cx.membership()]
        sends = [(i, g) for i, g in enumerate(t.events) if g.kind == 'rpc' and g.a[0] == 'send_timeout_now']
        if sends:
            k += 1
            cx.check(sets and sets[0][0] < sends[0][0], 'election-first', where(sends[0][1]), 'a new cluster starts an election before its membership is in effect', t, sends[0][1])
        elif sets and not failed(t):
            cx.bad('no-leader', where(sets[0][1]), 'a new cluster is formed but nobody stands for election', t)
    cx.floor(k, 1, 'first elections')


def stepdown_when_removed(cx):
    """A leader gives up its leadership for not being a member only when the configuration that lacks it is committed,
    and then it does so and hands over."""
    n = tr = 0
    r = 'task:stepdown'
    for t in cx.traces(r, ('turn', 'ret')):
        f = t.facts
        sets = cx.state_sets(t, ('Follower',))
        loads = [g for g in t.events if g.kind == 'load' and g.a[0] == cx.memp()]
        commits = [g for g in t.events if g.kind == 'load' and g.a[0] == cx.commit()]
        gets = [g for g in t.events if iscall(g, GET) and any(eqx(cx, f, g.a[1], l.ret) for l in loads)]
        lacks = [c for c, b in f.bools.items() if c[0] == 'has' and c[2] == cx.self_id() and b is False and from_get(cx, c[1], gets, f)]
        own = [c for c, b in f.bools.items() if c[0] == 'has' and c[2] == cx.self_id() and b is True and from_get(cx, c[1], gets, f)]
        committed = any(f.le(a.ret, b.ret) for a in loads for b in commits if any(g.a[1] == a.ret for g in gets))
        if sets:
            i, e = sets[0]
            n += 1
            cx.check(lacks, 'still-member', where(e), 'a leader steps down although its last configuration has it as a member', t, e)
            cx.check(committed, 'uncommitted-config', where(e), 'a leader steps down for a configuration that may not be committed', t, e)
            if any(g.kind == 'rpc' and g.a[0] == 'send_timeout_now' for g in t.events[i:]):
                tr += 1
        else:
            why = not cx.state_is(f, 'Leader') or any(f.lt(b.ret, a.ret) for a in loads for b in commits) or own or failed(t) or any(not is_some(ok_of(g.ret), f) or cmd_not(f, proj(some_of(ok_of(g.ret)), cx.entry_q()[0] + '.command'), CONFIG) for g in gets)
            cx.check(why, 'stays', 'task:stepdown', 'a leader outside the committed configuration goes on leading', t)
    for x in (r,):
        for t in cx.traces(x):
            for g in t.events:
                if g.kind == 'rpc' and g.a[0] == 'send_timeout_now':
                    cx.check(cx.state_sets(t, ('Follower',)), 'handover-while-leading', where(g), 'a leader hands over without giving up its leadership', t, g)
    cx.floor(n, 1, 'leaders that step down')
    cx.floor(tr, 1, 'leaders that hand over')


def from_get(cx, m, gets, f):
    eq, cq = cx.entry_q()
    c = config_of_command(m)
    return c is not None and any(same(c, proj(some_of(ok_of(g.ret)), eq + '.command'), f) for g in gets)


def handover_target(cx):
    """Leadership is handed to a peer, the one whose log is known to match furthest."""
    n = 0
    ctx, th = peer_cells(cx)
    for r in cx.process_roots():
        for t in cx.A.runs[r].traces:
            for g in t.events:
                if g.kind != 'rpc' or g.a[0] != 'send_timeout_now':
                    continue
                cx.roots_used.add(r)
                dest = g.a[1]
                if dest == cx.self_id():
                    cx.check(any(h.kind == 'set' and cell_of(h.a[0]) == cx.membership() for h in t.events) or r == 'rpc:add_server', 'self', where(g),
                             'a node makes itself start an election outside of the formation of a cluster', t, g)
                    continue
                n += 1
                keys = [x for x in walk(dest) if x[0] in ('mkey', 'elem') and cell_of(x[1]) == ctx]
                if not cx.check(keys, 'not-a-peer', where(g), 'the leadership is handed to a node that is not a peer', t, g):
                    continue
                pk = next((x for x in walk(dest) if x[0] == 'pick'), None)
                if pk is None:
                    ph = [x for x in walk(dest) if x[0] == 'phi']
                    cx.check(ph, 'any-peer', where(g), 'the leadership is handed to any peer, not the one that matches furthest', t, g)
                    continue
                ops = pk[1][2] if pk[1][0] == 'coll' else ()
                srt = [o for o in ops if o[0] == 'sort']
                rev = len([o for o in ops if o[0] == 'rev']) % 2 == 1
                add = next((o for o in ops if o[0] == 'add'), None)
                ok = bool(srt) and add is not None
                if ok:
                    k, asc = srt[-1][1], srt[-1][2]
                    key = sort_value(add[1], k)
                    ok = any(isf(x, 'match_index') for x in walk(key)) and ((asc != rev) == (pk[2] == 'last')) and pk[2] in ('last', 'first')
                cx.check(ok, 'not-furthest', where(g), 'the leadership is not handed to the peer that matches furthest', t, g)
                only = [o for o in ops if o[0] not in ('add', 'sort', 'rev') ]
                cx.check(not only, 'left-out-peers', where(g), 'peers are left out of the choice', t, g)
                when = [c for o in ops if o[0] == 'add' and len(o) > 2 and isinstance(o[2], tuple) for c in o[2] if isinstance(c, tuple) and any(x[0] == 'mval' and cell_of(x[1]) == ctx for x in walk(c))]
                cx.check(not when, 'left-out-peers', where(g), 'peers are left out of the choice for what is known of them', t, g)
    cx.floor(n, 1, 'handovers')


def sort_value(val, k):
    """the value of the key k (a term over the variable x) for the element val"""
    if k == ('var', 'x'):
        return val
    if k[0] == 'fld':
        b = sort_value(val, k[1])
        n = k[2].rsplit('.', 1)[-1].strip('()')
        if isinstance(b, tuple) and b and b[0] == 'agg':
            x = afield(b, n)
            if x is not None:
                return x
            if n.isdigit() and int(n) < len(b[4]):
                return b[4][int(n)][1]
        if n.isdigit() and isinstance(b, tuple) and b and isinstance(b[0], tuple) and int(n) < len(b):
            return b[int(n)]
        return ('fld', b, k[2])
    if k[0] in ('c', 'var'):
        return k
    return tuple(sort_value(val, x) if isinstance(x, tuple) and x else x for x in k)


def handover_taken(cx):
    """Only a leader hands over, and a node that is told to take over stands for election at once, unless it is leader or candidate already."""
    n = k = 0
    for r in cx.process_roots():
        for t in cx.A.runs[r].traces:
            for i, g in enumerate(t.events):
                if g.kind == 'rpc' and g.a[0] == 'send_timeout_now' and g.a[1] != cx.self_id():
                    n += 1
                    cx.roots_used.add(r)
                    cx.check(cx.state_is(g.facts, 'Leader') or any(cx.state_is(e.facts, 'Leader') for e in t.events[:i]), 'hands-over-without-leading', where(g),
                             'a node that is not the leader makes another one start an election against the leader', t, g)
    r = 'rpc:send_timeout_now'
    for t in cx.done(r):
        k += 1
        why = cx.state_sets(t, ('Candidate',)) or failed(t) or any(cx.state_is(t.facts, v) for v in ('Leader', 'Candidate')) or not_follower(cx, t.facts) or asked(cx, t.facts)
        cx.check(why, 'not-taken', 'rpc:send_timeout_now', 'a node that is told to take over does not stand for election', t)
    cx.floor(n, 1, 'handovers')
    cx.floor(k, 1, 'requests to take over')


def not_follower(cx, f):
    loc = cx.state_loc()
    return any(x[0] == 'cell' and x[1] == loc and (f.variant(x) not in (None, 'Follower') or 'Follower' in f.excluded(x)) for x in list(f.var))


def asked(cx, f):
    """whoever stands for election finds out who the members are"""
    return any(c[0] == 'has' and cell_of(c[1]) == cx.membership() and c[2] == cx.self_id() for c in f.bools)
