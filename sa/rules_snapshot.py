"""Snapshots: creation, transfer, installation, and what is deleted for them."""
from base import *
from rules_election import SAVE, LOAD, LAST, GET
from rules_log import *
from rules_apply import distinct, cells_of, cell_of, fields_named, on_cell
from rules_member import failed, config_of_command, ser_membership, CONFIG

LATEST = 'RaftApp::get_latest_snapshot'
SNAPSAVE = 'RaftApp::save_snapshot'
SNAPOPEN = 'RaftApp::open_snapshot'
SNAPINST = 'RaftApp::install_snapshot'
SNAPDEL = 'RaftApp::delete_snapshots_before'
DELB = 'RaftLogStore::delete_entries_before'


def snap_lock(cx):
    """the lock under which the index of the snapshot moves"""
    c = {}
    for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: e.kind in ('store', 'fetch_max', 'swap') and e.a[0] == cx.snapp()):
        for h in e.held:
            if h[1] == 'w' and h[2] == 'async':
                c[h[0]] = c.get(h[0], 0) + 1
    # the append lock is also held where a snapshot is received
    opened = set()
    for t in cx.traces('rpc:get_snapshot'):
        for e in t.events:
            if iscall(e, SNAPOPEN):
                opened |= {h[0] for h in e.held}
    both = [l for l in c if l in opened]
    return both[0] if both else (max(c, key=c.get) if c else None)


def local_snapshot(cx):
    """A node turns an entry of its own log into a snapshot only when the application offers one for it, the entry has been
    applied there, and it is newer than the snapshot the node has. The snapshot keeps the clocks of the entry and holds
    the membership of the last configuration up to it."""
    n = 0
    eq, cq = cx.entry_q()
    for r, t, i, e in of_kind(cx, 'local-snapshot'):
        n += 1
        idx, ent = entry_of(e)
        tc, pc, cmd = entry_parts(cx, ent)
        f = e.facts
        latest = [g for g in t.events[:i] if iscall(g, LATEST) and is_ok(g, f)]
        ok = [g for g in latest if eqx(cx, f, ok_of(g.ret), idx)]
        names = [idx] + [ok_of(g.ret) for g in ok]
        if not ok:
            # the clock of the entry read at the proposed index stands for it
            for g in t.events[:i]:
                if iscall(g, GET) and is_ok(g, f) and any(ok_of(l.ret) == g.a[1] for l in latest) and proj(entry_clock(cx, g), cq + '.index') == idx:
                    ok = latest
                    names.append(g.a[1])
        if not cx.check(ok, 'not-offered', where(e), 'an entry is replaced by a snapshot that the application did not offer for its index', t, e):
            continue
        user = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.user() and any(f.le(x, g.ret) for x in names)]
        cx.check(user, 'not-applied', where(e), 'an entry is replaced by a snapshot before it is known to be applied', t, e)
        newer = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.snapp() and any(f.lt(g.ret, x) for x in names)]
        cx.check(newer, 'not-newer', where(e), 'a snapshot replaces a newer one', t, e)
        old = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and g.a[1] in names]
        cx.check(any(same(tc, entry_clock(cx, g), f) and same(pc, proj(some_of(ok_of(g.ret)), eq + '.prev_clock'), f) for g in old),
                 'clock-changed', where(e), 'the snapshot does not keep the clocks of the entry it replaces', t, e)
        m = ser_membership(cmd)
        c = config_of_command(m) if m is not None else None
        src = None
        for g in t.events[:i]:
            if iscall(g, GET) and is_ok(g, f) and c is not None and same(c, proj(some_of(ok_of(g.ret)), eq + '.command'), f):
                src = g
        if not cx.check(src, 'membership-source', where(e), 'the membership in the snapshot is not that of a configuration in the log', t, e):
            continue
        rg = rng_of(cx, src.a[1])
        # ranges of the search: down from the index of the snapshot
        hi = rg is not None and 'rev' in rg and any(lin(rg[2]) == (lin(x)[0], lin(x)[1] + 1) for x in names)
        cx.check(hi, 'membership-range', where(e), 'the membership in the snapshot is not the last one up to its index', t, e)
        if rg:
            for t2 in cx.traces(r, ('iter',)):
                for g in t2.events[t2.loop[2]:]:
                    x = rng_of(cx, g.a[1]) if iscall(g, GET) else None
                    if x is None or shape_eq(x, rg) is False or any(iscall(h, INS) or iscall(h, LAST) for h in t2.events[t2.loop[2]:]):
                        continue
                    cx.check(cmd_not(t2.facts, proj(some_of(ok_of(g.ret)), eq + '.command'), CONFIG), 'membership-skipped', where(g),
                             'the search for the membership of a snapshot passes over a configuration', t2, g)
    cx.floor(n, 1, 'snapshots made of local entries')


def shape_eq(a, b):
    from engine import shape
    return shape(a) == shape(b)


def snapshot_index(cx):
    """The index of the snapshot moves only forward, under the snapshot lock, to the index of a snapshot entry that has just
    been written to the log."""
    n = 0
    lk = snap_lock(cx)
    for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: e.kind in ('store', 'fetch_max', 'swap', 'fetch_add', 'fetch_sub') and e.a[0] == cx.snapp()):
        if r == 'boot':
            continue
        n += 1
        f = e.facts
        ins = [g for g in t.events[:i] if iscall(g, INS) and is_ok(g, f) and eqx(cx, f, g.a[1], e.a[1])]
        if cx.check(ins, 'not-in-log', where(e), 'the index of the snapshot is moved to an entry that was not written', t, e):
            g = ins[-1]
            cmd = entry_parts(cx, g.a[2])[2]
            cx.check(cmd_kind(f, cmd) == 'Snapshot', 'no-snapshot', where(e), 'the index of the snapshot is moved to an entry that is none', t, e)
            hs = [h for h in common_guard(g, e) if h[0] == lk]
            cx.check(hs, 'unlocked', where(e), 'the index of the snapshot is moved outside the snapshot lock', t, e)
            old = [x for x in t.events[:i] if x.kind == 'load' and x.a[0] == cx.snapp() and f.lt(x.ret, e.a[1]) and any(h in x.held for h in hs)]
            cx.check(old or e.kind == 'fetch_max', 'backwards', where(e), 'the index of the snapshot may move backwards', t, e)
    cx.floor(n, 2, 'moves of the index of the snapshot')
    # and conversely a snapshot entry in the log is followed by the move
    m = 0
    for r, t, i, e in inserts(cx):
        k = ikind(cx, r, t, i, e)
        if k not in ('local-snapshot', 'received-snapshot', 'bootstrap') or not is_ok(e, t.facts) or t.end not in ('ret',) and not t.end.startswith('turn'):
            continue
        m += 1
        cx.check(any(g.kind in ('store', 'fetch_max', 'swap') and g.a[0] == cx.snapp() and eqx(cx, t.facts, g.a[1], e.a[1]) for g in t.events[i:]), 'index-kept', where(e),
                 'a snapshot is written to the log but the index of the snapshot stays', t, e)
    cx.floor(m, 3, 'snapshots written to the log')


def data_before_entry(cx):
    """A follower writes a snapshot entry of the leader to its log only once the application has stored the contents, which
    it fetched for that very index from the node that sent the entry. Only the initial snapshot, which is empty, and the
    node's own need no fetching."""
    n = k = 0
    for r, t, i, e in of_kind(cx, 'received-snapshot'):
        n += 1
        idx = e.a[1]
        f = e.facts
        # the steps for this element of the stream
        j0 = max([j for j, g in enumerate(t.events[:i]) if g.kind == 'await' and g.a[0] == 'next'], default=0)
        saves = [(j, g) for j, g in enumerate(t.events[:i]) if iscall(g, SNAPSAVE) and j >= j0]
        if not saves:
            own = any(c[0] == 'eqv' and b is True and cx.self_id() in c[1:] and any(isf(x, 'sender_id') for y in c[1:] for x in walk(y)) for c, b in f.bools.items())
            cx.check(own or f.eq(idx, C(1)), 'no-data', where(e), 'a snapshot entry is written to the log without its contents', t, e)
            continue
        k += 1
        j, g = saves[-1]
        cx.check(is_ok(g, f), 'save-ignored', where(g), 'a snapshot entry is written to the log although its contents could not be stored', t, g)
        cx.check(eqx(cx, f, g.a[2], idx), 'save-index', where(g), 'the contents of a snapshot are stored for another index', t, g)
        src = [x for x in t.events[:j] if x.kind == 'rpc' and x.a[0] == 'get_snapshot']
        if not cx.check(src and any(ok_of(x.ret) in set(walk(g.a[1])) for x in src), 'other-data', where(g), 'what is stored is not the snapshot that was fetched', t, g):
            continue
        x = src[-1]
        msg = x.a[2]
        cx.check(eqx(cx, f, proj(msg, cx.gen('GetSnapshotRequest') + '.index'), idx), 'fetch-index', where(x), 'the snapshot of another index is fetched', t, x)
        cx.check(any(isf(y, 'sender_id') for y in walk(x.a[1])), 'fetch-from', where(x), 'the snapshot is not fetched from the node that sent its entry', t, x)
    cx.floor(n, 3, 'received snapshots')
    cx.floor(k, 1, 'fetched snapshots')


def installed_own_index(cx):
    """A snapshot entry that is applied installs the contents stored for its own index; nothing else installs any."""
    n = 0
    for r in cx.process_roots():
        seen = set()
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if not iscall(e, SNAPINST) or (e.a, e.site, e.facts.key(), history(t)) in seen:
                    continue
                seen.add((e.a, e.site, e.facts.key(), history(t)))
                cx.roots_used.add(r)
                n += 1
                eq, cq = cx.entry_q()
                f = e.facts
                gets = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and f.eq(g.a[1], e.a[1])]
                cx.check(any(cmd_kind(f, proj(some_of(ok_of(g.ret)), eq + '.command')) == 'Snapshot' for g in gets), 'install', where(e),
                         'contents are installed that do not belong to the snapshot entry being applied', t, e)
    cx.floor(n, 1, 'installations')


def deleted_only_old(cx):
    """Entries and contents of snapshots are deleted only below the index of the snapshot the node has."""
    n = {}
    for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: iscall(e, DELB) or iscall(e, SNAPDEL)):
        n[e.a[0]] = n.get(e.a[0], 0) + 1
        f = e.facts
        lo = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.snapp() and f.le(e.a[1], g.ret)]
        cx.check(lo, 'too-much:' + e.a[0].split('::')[-1], where(e), f'{e.a[0].split("::")[-1]} removes what the last snapshot does not cover', t, e)
    cx.floor(n.get(DELB, 0), 1, 'compactions of the log')
    cx.floor(n.get(SNAPDEL, 0), 1, 'deletions of snapshots')
    # space is given back up to the snapshot itself
    for r, name in (('task:log_compaction', DELB), ('task:snapshot_deleter', SNAPDEL)):
        for t in cx.traces(r, ('turn',)):
            es = [e for e in t.events if iscall(e, name)]
            cx.check(es and all(any(g.kind == 'load' and g.a[0] == cx.snapp() and t.facts.eq(g.ret, e.a[1]) for g in t.events) for e in es) or failed(t), 'never-freed', r,
                     'what the last snapshot covers is never removed', t)


def served_current(cx):
    """A node serves the contents of a snapshot only for the index of the snapshot entry it has, and exactly as the application
    hands them out; the index cannot move in between."""
    n = 0
    lk = snap_lock(cx)
    for r in cx.process_roots():
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if not iscall(e, SNAPOPEN):
                    continue
                cx.roots_used.add(r)
                n += 1
                f = e.facts
                ld = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.snapp() and f.eq(g.ret, e.a[1])]
                cx.check(ld, 'stale-snapshot', where(e), 'contents are served for another index than that of the snapshot', t, e)
                cx.check(any(h[0] == lk and h in e.held for g in ld for h in g.held), 'unlocked', where(e), 'the snapshot may be replaced while it is opened', t, e)
                if r == 'rpc:get_snapshot':
                    cx.check(any(f.eq(e.a[1], x) for x in walk((e.a[1],) + tuple(f.log)) if isf(x, 'index') and x[1][0] == 'arg'), 'other-index', where(e), 'a client gets the contents of another snapshot than it asked for', t, e)
    for t in cx.traces('rpc:get_snapshot', ('ret',)):
        if t.ret is not None and t.ret[0] == 'agg' and t.ret[3] == 'Ok':
            op = [e for e in t.events if iscall(e, SNAPOPEN)]
            fw = [e for e in t.events if e.kind == 'rpc']
            v = t.ret[4][0][1]
            cx.check(any(ok_of(e.ret) in set(walk(v)) for e in op + fw), 'other-contents', 'rpc:get_snapshot', 'the answer is not the snapshot that was opened', t)
    cx.floor(n, 1, 'snapshots served')


# ------------------------------------------------------------------ the log is replaced by a snapshot

MOVES = ('store', 'fetch_max', 'fetch_add', 'swap', 'fetch_sub', 'fetch_min', 'cas')


def snapshot_moves(cx):
    """A received snapshot moves the indices only once it is in the log: what is processed and applied goes on with the
    snapshot itself, and nothing after it counts as committed."""
    n = 0
    eq, cq = cx.entry_q()
    for r, t, i, e in distinct(cx, [STREAM], lambda e: e.kind in MOVES and e.a[0] in (cx.commit(), cx.kern(), cx.user())):
        n += 1
        f = e.facts
        p = e.a[0][1].rsplit('.', 1)[-1]
        v = e.a[1]
        j0 = max([j for j, g in enumerate(t.events[:i]) if g.kind == 'item' and in_entries(g)], default=0)
        at = [g.a[1] for g in t.events[j0:i] if iscall(g, INS) and is_ok(g, f)]
        el = t.events[j0].a[0] if t.events[j0].a else None
        at += [x for g in t.events[j0:i] if g.kind == 'load' and g.a[0] == cx.snapp() for x in walk(v) if isf(x, 'index') and contains_term(x, el) and f.eq(g.ret, x)]
        if not cx.check(at, 'moved-early:' + p, where(e), f'{p} is moved for a snapshot that is not in the log', t, e):
            continue
        if e.a[0] == cx.commit():
            cx.check(any(f.le(v, x) for x in at), 'beyond-snapshot', where(e), 'entries after a received snapshot count as committed', t, e)
        else:
            cx.check(any(f.eq(mk_add(v, 1), x) for x in at), 'snapshot-passed:' + p, where(e),
                     'the received snapshot itself, or an entry before it, would be processed wrongly', t, e)
    cx.floor(n, 3, 'moves of the indices for a received snapshot')


def snapshot_one_step(cx):
    """While a received snapshot moves the indices no entry that it replaces is processed: an index is raised only after
    those that follow it, the followers read the index they follow first."""
    n = m = 0
    follows = {cx.commit(): cx.kern(), cx.kern(): cx.user()}
    for r, t, i, e in distinct(cx, [STREAM], lambda e: e.kind in MOVES and e.a[0] in follows):
        n += 1
        f = e.facts
        p, q = e.a[0][1].rsplit('.', 1)[-1], follows[e.a[0]][1].rsplit('.', 1)[-1]
        j0 = max([j for j, g in enumerate(t.events[:i]) if g.kind == 'item' and in_entries(g)], default=0)
        cx.check(any(g.kind in MOVES and g.a[0] == follows[e.a[0]] and f.le(mk_add(e.a[1], -1), g.a[1]) for g in t.events[j0:i]), 'order:' + p, where(e),
                 f'{p} is raised for a received snapshot before {q}: entries that the snapshot replaces may be processed', t, e)
    for root, up, own in (('task:advance_kern', cx.commit(), cx.kern()), ('task:advance_user', cx.kern(), cx.user())):
        for r, t, i, e in distinct(cx, [root], lambda e: e.kind in MOVES and e.a[0] == own):
            m += 1
            f = e.facts
            mine = [j for j, g in enumerate(t.events[:i]) if g.kind == 'load' and g.a[0] == own and f.eq(e.a[1], mk_add(g.ret, 1))]
            lead = [j for j, g in enumerate(t.events[:i]) if g.kind == 'load' and g.a[0] in (up, cx.commit()) and f.le(e.a[1], g.ret)]
            cx.check(mine and lead and min(lead) < max(mine), 'read-order:' + own[1].rsplit('.', 1)[-1], where(e),
                     'the index is read before the one it follows: between the two a received snapshot may replace the entry that is processed', t, e)
    cx.floor(n, 2, 'indices raised for a received snapshot')
    cx.floor(m, 2, 'indices advanced')


def read_installed(cx):
    """No query is executed between the arrival of a snapshot and its installation, when the application is behind the
    applied index."""
    n = 0
    ahead = any(True for _ in distinct(cx, [STREAM], lambda e: e.kind in MOVES and e.a[0] == cx.user()))
    for r, t, i, e in distinct(cx, ['task:query_execution'], lambda e: e.kind in ('remove', 'split_off') and not (cell_of(e.a[0]) or ('', ''))[0] == 'g'):
        n += 1
        f = e.facts
        ok = not ahead
        for j, g in enumerate(t.events[:i]):
            if g.kind == 'load' and g.a[0] == cx.user() and (f.le(e.a[1], g.ret) or f.le(e.a[1], mk_add(g.ret, 1))):
                ok = ok or any(h.kind == 'load' and h.a[0] == cx.snapp() and f.le(h.ret, g.ret) for h in t.events[j:i])
        cx.check(ok, 'read-before-install', where(e), 'a query is executed although a snapshot that counts as applied may not be installed yet', t, e)
    cx.floor(n, 1, 'queries taken for execution')
