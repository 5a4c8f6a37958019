"""The replicated log: appending, receiving, committing, applying."""
from base import *
from rules_election import SAVE, LOAD, LAST, GET, leading_spans, ballot_lock, serial_of, base_load, leader_events, ballot_terms, save_events, detector_failed, walk_set

INS, DEL, DELF = 'RaftLogStore::insert_entry', 'RaftLogStore::delete_entries_before', 'RaftLogStore::delete_entries_from'
WRITE, READ, INSTALL = 'RaftApp::process_write', 'RaftApp::process_read', 'RaftApp::install_snapshot'
POINTERS = ('commit_pointer', 'kern_pointer', 'user_pointer', 'snapshot_pointer')


def eqx(cx, f, a, b):
    """equal indices; the entry stored at index i has index i"""
    if f.eq(a, b) or same(a, b, f):
        return True
    a2, b2 = at_index(a, f), at_index(b, f)
    return f.eq(a2, b2)


def at_index(t, f, d=0):
    """the index of an entry read from the log is the one it was read at"""
    b, k = lin(t)
    if b is not None and isf(b, 'index') and isf(b[1], 'this_clock') and d < 4:
        x = b[1][1]
        while x[0] == 'fld' and x[2] in (OKP, SOMEP):
            x = x[1]
        if x[0] == 'res' and x[1] == GET:
            return mk_add(at_index(x[2][0], f, d + 1), k)
    return t


def clock_eq(a, b, f):
    if same(a, b, f):
        return True
    q = 'crate::process::Clock.'
    return same(proj(a, q + 'term'), proj(b, q + 'term'), f) and same(proj(a, q + 'index'), proj(b, q + 'index'), f)


def clock_ne(a, b, f):
    """is it known that the two clocks differ?"""
    q = 'crate::process::Clock.'
    if f.bools.get(('eqv', a, b)) is False or f.bools.get(('eqv', b, a)) is False:
        return True
    return any(f.known_ne(proj(a, q + x), proj(b, q + x)) for x in ('term', 'index'))


def entry_of(e):
    """index, entry written by an insert"""
    return e.a[1], e.a[2]


def entry_parts(cx, ent):
    eq, cq = cx.entry_q()
    tc, pc = proj(ent, eq + '.this_clock'), proj(ent, eq + '.prev_clock')
    return tc, pc, proj(ent, eq + '.command')


def cmd_kind(f, cmd):
    """which command it is, as far as the path knows -> variant name or None"""
    for x in walk(cmd):
        if x[0] == 'ser':
            for y in walk(x[1]):
                if y[0] == 'agg' and y[1] == 'enum' and y[2].endswith('Command'):
                    return y[3]
    for t, v in f.var.items():
        if t[0] == 'fld' and t[2] == OKP and t[1][0] == 'pf' and t[1][1] == 'deser' and t[1][2][0] == cmd:
            return v if isinstance(v, str) else None
    return None


def cmd_not(f, cmd, names):
    """is it known not to be one of these commands?"""
    k = cmd_kind(f, cmd)
    if k:
        return k not in names
    for t, v in f.var.items():
        if t[0] == 'fld' and t[2] == OKP and t[1][0] == 'pf' and t[1][1] == 'deser' and t[1][2][0] == cmd:
            return isinstance(v, frozenset) and set(names) <= v
    return False


def cmd_payload(f, cmd):
    """the decoded command"""
    for x in walk(cmd):
        if x[0] == 'ser':
            return x[1]
    for t, v in f.var.items():
        if t[0] == 'fld' and t[2] == OKP and t[1][0] == 'pf' and t[1][1] == 'deser' and t[1][2][0] == cmd:
            return t
    return None


def inserts(cx):
    """(root, trace, index, event, kind of insertion) of every distinct write to the log"""
    if 'inserts' in cx.memo:
        return cx.memo['inserts']
    out = []
    for r in cx.process_roots():
        seen = set()
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if iscall(e, INS):
                    k = (e.a, e.held, e.site, e.facts.key(), history(t))
                    if k in seen:
                        continue
                    seen.add(k)
                    cx.roots_used.add(r)
                    out.append((r, t, i, e))
    cx.memo['inserts'] = out
    return out


STREAM = 'rpc:send_replication_stream'


def ikind(cx, r, t, i, e):
    idx, ent = entry_of(e)
    tc, pc, cmd = entry_parts(cx, ent)
    f = e.facts
    if r == STREAM:
        if cmd_kind(f, cmd) == 'Snapshot':
            return 'received-snapshot'
        return 'received'
    if cmd_kind(f, cmd) == 'Snapshot':
        return 'bootstrap' if lin(idx)[0] is None else 'local-snapshot'
    return 'append'


def of_kind(cx, *kinds):
    return [x for x in inserts(cx) if ikind(cx, *x) in kinds]


# ------------------------------------------------------------------ receiving entries

def reads_before(t, i, idx, f, cx):
    """the (event, clock) of every entry read at idx before event i on this path"""
    eq, cq = cx.entry_q()
    out = []
    for g in t.events[:i]:
        if iscall(g, GET) and is_ok(g, f) and eqx(cx, f, g.a[1], idx):
            out.append(g)
    return out


def entry_clock(cx, g):
    eq, cq = cx.entry_q()
    return proj(some_of(ok_of(g.ret)), eq + '.this_clock')


def follower_prev_check(cx):
    """A follower adds an entry of the leader only if it holds the preceding entry with the same term and index,
    and it checks and writes under the lock that all appends take."""
    n = 0
    eq, cq = cx.entry_q()
    for r, t, i, e in of_kind(cx, 'received'):
        idx, ent = entry_of(e)
        tc, pc, cmd = entry_parts(cx, ent)
        f = e.facts
        n += 1
        gs = [g for g in reads_before(t, i, proj(pc, cq + '.index'), f, cx)
              if is_some(ok_of(g.ret), f) and clock_eq(entry_clock(cx, g), pc, f)]
        if not cx.check(gs, 'prev-unchecked', where(e), 'an entry is inserted although the preceding entry may differ from the leader\'s', t, e):
            continue
        cx.check(any(common_guard(g, e) for g in gs), 'prev-unlocked', where(e),
                 'the log may change between the check of the preceding entry and the insertion', t, e)
        cx.check(eqx(cx, f, idx, proj(tc, cq + '.index')), 'insert-index', where(e), 'the entry is stored at another index than its own', t, e)
        cx.check(not cmd_kind(f, cmd) == 'Snapshot', 'snapshot-as-entry', where(e), 'a snapshot is inserted as a plain entry', t, e)
    cx.floor(n, 3, 'insertions of received entries')


def recv_elem(cx, t, i, f):
    """the stream element an event is about: the last item taken from the entry stream before it"""
    for g in reversed(t.events[:i]):
        if g.kind == 'item':
            return g
    return None


def received_as_sent(cx):
    """What a follower stores is what the leader sent: the clock and the command of the element, and as the
    preceding clock the one of the element before it (the header for the first)."""
    n = 0
    eq, cq = cx.entry_q()
    run = cx.run(STREAM)
    for r, t, i, e in of_kind(cx, 'received', 'received-snapshot'):
        idx, ent = entry_of(e)
        tc, pc, cmd = entry_parts(cx, ent)
        n += 1
        it = recv_elem(cx, t, i, e.facts)
        if it is None:
            cx.bad('no-element', where(e), 'an entry is inserted that was not received', t, e)
            continue
        el = it.a[0] if it.a else None
        base = some_of(el)
        cx.check(contains_term(tc, el) and isf(tc, 'this_clock'), 'clock-changed', where(e), 'the clock stored is not the one received', t, e)
        cx.check(contains_term(cmd, el) and isf(cmd, 'command'), 'command-changed', where(e), 'the command stored is not the one received', t, e)
        # every source of the preceding clock is the header or the previous element
        cx.check(eqx(cx, e.facts, idx, proj(tc, cq + '.index')), 'insert-index', where(e), 'the entry is stored at another index than its own', t, e)
        nth = len([g for g in t.events[:i] if g.kind == 'item' and in_entries(g)])
        srcs = sources(run, pc, cq)
        if nth > 1:
            phis = [x for x in walk(pc) if x[0] == 'phi']
            cx.check(phis and not any(x in run.kept for x in phis), 'prev-clock-kept', where(e),
                     'the clock an entry is stored with as the preceding one is not always that of the element before it', t, e)
        for src in srcs:
            hdr = src[0] != 'agg' and any(isf(x, 'prev_clock') and 'ReplicationStreamHeader' in x[2] for x in walk(src)) or \
                src[0] == 'agg' and all(isf(x, k) and any('ReplicationStreamHeader' in y[2] for y in walk(x) if y[0] == 'fld') for k, x in src[4])
            elem = any(isf(x, 'this_clock') and any(y[0] == 'elem' for y in walk(x)) for x in walk(src))
            cx.check(hdr or elem, 'prev-clock-source', where(e), f'the preceding clock is neither the header\'s nor the previous element\'s: {show(src)[:80]}', t, e)
    cx.floor(n, 4, 'insertions of received entries')


def sources(run, v, cq, seen=None):
    """values a loop variable (possibly a struct of loop variables) can have"""
    seen = seen if seen is not None else set()
    if v in seen:
        return []
    seen.add(v)
    if v[0] == 'phi':
        out = []
        for x in run.phis.get(v, ()):
            out += sources(run, x, cq, seen)
        return out
    if v[0] == 'agg' and any(x[0] == 'phi' for _, x in v[4]):
        out = []
        for n, x in v[4]:
            out += sources(run, x, cq, seen)
        return out
    return [v]


def stop_at_rejection(cx):
    """A follower takes the entries of a stream in order and stops at the first one it does not accept;
    it reports how many it accepted."""
    eq, cq = cx.entry_q()
    n = 0
    seen = set()
    for t in cx.traces(STREAM):
        if not (t.end.startswith('iter') or t.end == 'ret'):
            continue
        items = [i for i, e in enumerate(t.events) if e.kind == 'item' and in_entries(e)]
        if not items:
            continue
        last = items[-1]
        seg = t.events[last:]
        f = t.facts
        accepted = accepted_in(cx, t, last)
        if t.end.startswith('iter'):
            # the end of an iteration of the receiving loop (not of an inner loop)
            if not recv_loop_end(cx, t):
                continue
            n += 1
            cx.check(accepted, 'goes-on-after-rejection', where(seg[-1]),
                     'the entries after one that was not accepted are processed too', t)
    cx.floor(n, 4, 'entries accepted from a stream')
    # the count reported
    m = 0
    run = cx.run(STREAM)
    for t in cx.traces(STREAM, 'ret'):
        q = next((afield(x, 'n_inserted') for x in walk(t.ret) if x[0] == 'agg' and x[2].endswith('ReplicationStreamResponse')), None)
        if q is None:
            continue
        m += 1
        b, k = lin(q)
        w = fnname(t.events[-1].fn)
        if b is None or b[0] != 'phi':
            cx.check(b is None and k == 0, 'count', w, f'the number of accepted entries reported is {show(q)[:60]}', t)
            continue
        good = k == 0 and b not in run.kept
        for v in run.phis.get(b, ()):
            vb, vk = lin(v)
            if v == C(0) or v == mk_add(b, 1) or v == C(1):
                continue
            good = False
        cx.check(good, 'count', w, 'the number of accepted entries reported is not the number of entries accepted', t)
    cx.floor(m, 2, 'replies to a replication stream')


def in_entries(e):
    return any(x[0] == 'elem' and x[1][0] in ('cor', 'stream') for x in walk(e.a))


def recv_loop_end(cx, t):
    """does the iteration that ends here belong to the loop that takes the entries?"""
    return t.loop is not None and any(e.kind == 'await' and e.a[0] == 'next' and any(x[0] in ('cor',) for x in walk(e.a)) for e in t.events[t.loop[2]:])


def accepted_in(cx, t, start):
    """was the element taken at event `start` accepted: inserted, or found to be there already?"""
    eq, cq = cx.entry_q()
    el = t.events[start].a[0]
    tc = None
    for i in range(start, len(t.events)):
        e = t.events[i]
        f = t.events[-1].facts
        if iscall(e, INS) and is_ok(e, f):
            return True
        if iscall(e, GET) and is_ok(e, f) and is_some(ok_of(e.ret), f):
            # the same clock is stored already
            c = ('fld', some_of(el), 'crate::process::api::request::ReplicationStreamElem.this_clock')
            for x in walk(e.a[1]):
                if isf(x, 'this_clock') and contains_term(x, el):
                    c = x
            if contains_term(e.a[1], el) and clock_eq(entry_clock(cx, e), c, f):
                return True
        if e.kind == 'load' and e.a[0] == cx.snapp() and e.ret is not None:
            # the snapshot is installed already
            for g in t.events[start:]:
                pass
            for x in walk(el):
                pass
            c = ('fld', ('fld', some_of(el), 'crate::process::api::request::ReplicationStreamElem.this_clock'), cq + '.index')
            if f.eq(e.ret, c):
                return True
    return False


def committed_kept(cx):
    """No entry at or below the commit index is replaced by a different one or deleted, except that a snapshot
    takes the place of the entry with its own clock and the entries before it may be dropped."""
    eq, cq = cx.entry_q()
    n = 0
    for r, t, i, e in inserts(cx):
        k = ikind(cx, r, t, i, e)
        idx, ent = entry_of(e)
        tc, pc, cmd = entry_parts(cx, ent)
        f = e.facts
        n += 1
        if k == 'received':
            absent = [g for g in reads_before(t, i, idx, f, cx) if is_none(ok_of(g.ret), f) and common_guard(g, e)]
            cl = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.commit() and f.lt(g.ret, idx) and common_guard(g, e)]
            cx.check(absent or cl, 'committed-overwritten', where(e),
                     'a received entry may replace a different one that is already committed', t, e)
        elif k == 'append':
            ok = any(iscall(g, LAST) and is_ok(g, f) and eqx(cx, f, idx, mk_add(ok_of(g.ret), 1)) and common_guard(g, e) for g in t.events[:i])
            cx.check(ok, 'append-not-at-end', where(e), 'an entry is appended elsewhere than right after the last one', t, e)
        elif k == 'local-snapshot':
            ok = any(iscall(g, GET) and is_ok(g, f) and clock_eq(entry_clock(cx, g), tc, f) and
                     clock_eq(proj(some_of(ok_of(g.ret)), eq + '.prev_clock'), pc, f) for g in t.events[:i])
            cx.check(ok, 'snapshot-clock', where(e), 'a snapshot takes the place of an entry with another clock', t, e)
        elif k == 'received-snapshot':
            pass
        elif k == 'bootstrap':
            pass
    m = 0
    for r in cx.process_roots():
        seen = set()
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if iscall(e, DELF):
                    kk = (e.a, e.held, e.facts.key(), history(t))
                    if kk in seen:
                        continue
                    seen.add(kk)
                    cx.roots_used.add(r)
                    m += 1
                    f = e.facts
                    at = e.a[1]
                    cl = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.commit() and f.lt(g.ret, at)]
                    cx.check(cl, 'committed-deleted', where(e), 'entries that are already committed may be deleted from the end of the log', t, e)
    cx.floor(n, 6, 'writes to the log')
    cx.floor(m, 2, 'deletions of conflicting entries')


def conflict_deleted(cx):
    """When a follower replaces an entry by a different one, all the entries after it are deleted first;
    when a snapshot arrives that the log does not contain, the entries after it are deleted."""
    eq, cq = cx.entry_q()
    n = m = 0
    for r, t, i, e in of_kind(cx, 'received'):
        idx, ent = entry_of(e)
        f = e.facts
        n += 1
        absent = [g for g in reads_before(t, i, idx, f, cx) if is_none(ok_of(g.ret), f)]
        cut = [g for g in t.events[:i] if iscall(g, DELF) and is_ok(g, f) and f.le(g.a[1], mk_add(idx, 1)) and common_guard(g, e)]
        cx.check(absent or cut, 'stale-suffix', where(e),
                 'an entry is replaced while the entries after it, which belonged to the old one, stay in the log', t, e)
    for t in cx.traces(STREAM):
        if not (t.end == 'ret' or recv_loop_end(cx, t)):
            continue
        f = t.facts if t.end != 'ret' else None
        for i, e in enumerate(t.events):
            if not iscall(e, INS):
                continue
            idx, ent = entry_of(e)
            tc, pc, cmd = entry_parts(cx, ent)
            if cmd_kind(e.facts, cmd) != 'Snapshot':
                continue
            g = t.events[-1].facts
            if not is_ok(e, g):
                continue
            m += 1
            has = any(is_some(ok_of(x.ret), g) and clock_eq(entry_clock(cx, x), tc, g) for x in reads_before(t, i, idx, g, cx))
            com = any(x.kind == 'load' and x.a[0] == cx.commit() and g.le(idx, x.ret) for x in t.events)
            # once the snapshot is in the log, a second attempt takes the entries after it for its successors
            cut = any(iscall(x, DELF) and is_ok(x, g) and g.eq(x.a[1], mk_add(idx, 1)) and common_guard(x, e) for x in t.events[:i])
            cx.check(has or com or cut, 'stale-suffix-after-snapshot', where(e),
                     'a snapshot is inserted while entries that conflict with it stay in the log', t, e)
    cx.floor(n, 3, 'insertions of received entries')
    cx.floor(m, 2, 'insertions of received snapshots')


def matching_kept(cx):
    """Entries are deleted from the end of the log only where the log was just found to differ from the leader's: an
    entry that arrives again, or late, takes nothing away from the log."""
    eq, cq = cx.entry_q()
    n = 0
    for r, t, i, e in distinct_calls(cx, DELF):
        if r != STREAM:
            cx.bad('deleted-elsewhere', where(e), f'entries are deleted from the end of the log by {r}', t, e)
            continue
        n += 1
        f = e.facts
        tcs = {x for g in t.events[:i] if g.kind == 'item' and in_entries(g) for h in t.events[:i + 1] for y in h.a for x in (walk(y) if isinstance(y, tuple) else ())
               if isf(x, 'this_clock') and contains_term(x, g.a[0])}
        ok = False
        for tc in tcs:
            ix = proj(tc, cq + '.index')
            for g in reads_before(t, i, ix, f, cx):
                absent, other = is_none(ok_of(g.ret), f), clock_ne(entry_clock(cx, g), tc, f)
                if other and f.eq(e.a[1], ix) or (absent or other) and f.eq(e.a[1], mk_add(ix, 1)):
                    ok = True
        cx.check(ok, 'matching-deleted', where(e), 'entries are deleted although the log may agree with that of the leader', t, e)
    cx.floor(n, 2, 'deletions from the end of the log')


def distinct_calls(cx, name):
    for r in cx.process_roots():
        seen = set()
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if iscall(e, name):
                    k = (e.a, e.held, e.site, e.facts.key(), history(t))
                    if k not in seen:
                        seen.add(k)
                        cx.roots_used.add(r)
                        yield r, t, i, e


# ------------------------------------------------------------------ appending

def append_at_end(cx):
    """A new entry gets the index after the last one, names the clock of the last entry as its predecessor and
    is never of an older term; last entry and insertion are read and written under the append lock."""
    eq, cq = cx.entry_q()
    n = 0
    locks = None
    for r, t, i, e in of_kind(cx, 'append'):
        idx, ent = entry_of(e)
        tc, pc, cmd = entry_parts(cx, ent)
        f = e.facts
        n += 1
        ls = [g for g in t.events[:i] if iscall(g, LAST) and is_ok(g, f) and eqx(cx, f, idx, mk_add(ok_of(g.ret), 1))]
        if not cx.check(ls, 'append-index', where(e), 'an entry is appended elsewhere than right after the last one', t, e):
            continue
        L = ls[-1]
        gs = common_guard(L, e)
        ls_ = {h[0] for h in gs}
        locks = ls_ if locks is None else locks & ls_
        cx.check(gs, 'append-unlocked', where(e), 'two appends may take the same index', t, e)
        cx.check(f.eq(proj(tc, cq + '.index'), idx), 'append-clock', where(e), 'the entry does not carry the index it is stored at', t, e)
        ps = [g for g in reads_before(t, i, ok_of(L.ret), f, cx) if is_some(ok_of(g.ret), f) and clock_eq(entry_clock(cx, g), pc, f)]
        cx.check(ps, 'append-prev', where(e), 'the entry does not name the last entry as its predecessor', t, e)
        if ps:
            pt = proj(entry_clock(cx, ps[-1]), cq + '.term')
            cx.check(f.le(pt, proj(tc, cq + '.term')), 'append-older-term', where(e), 'an entry is appended after one of a newer term', t, e)
    # plain insertions of the follower take the same lock
    for r, t, i, e in of_kind(cx, 'received'):
        ls_ = {h[0] for h in e.held if h[1] == 'w' and h[2] == 'async'}
        locks = ls_ if locks is None else locks & ls_
    cx.check(locks, 'no-common-append-lock', '-', 'appends and insertions of received entries do not exclude each other')
    cx.floor(n, 5, 'appends')


def own_index(cx):
    """Every entry is stored in the log under the index that its own clock names."""
    eq, cq = cx.entry_q()
    n = 0
    for r, t, i, e in inserts(cx):
        idx, ent = entry_of(e)
        n += 1
        cx.check(eqx(cx, e.facts, proj(proj(ent, eq + '.this_clock'), cq + '.index'), idx),
                 'own-index', where(e), 'an entry is stored under another index than its own', t, e)
    cx.floor(n, 5, 'insertions')


def append_own_term(cx):
    """An entry for a client is appended only while the node is leader, with the term in which its barrier has
    been committed; the barrier itself with the term of the election just won."""
    eq, cq = cx.entry_q()
    qt, qv = cx.ballot_q()
    n = {'client': 0, 'barrier': 0, 'complete': 0}
    for r, t, i, e in of_kind(cx, 'append'):
        idx, ent = entry_of(e)
        tc, pc, cmd = entry_parts(cx, ent)
        term = proj(tc, cq + '.term')
        f = e.facts
        k = cmd_kind(f, cmd)
        if k in ('ExecuteRequest', 'ClusterConfiguration'):
            n['client'] += 1
            cx.check(cx.state_is(f, 'Leader') is not None, 'append-by-non-leader', where(e), 'a node that is not leader appends an entry for a client', t, e)
            # the leadership was found after the term of the entry was read; the barrier is the one of a term read after that
            reads = [g.ret[3] for g in t.events[:i] if iscall(g, LOAD) and is_ok(g, f) and proj(ok_of(g.ret), qt) == term]
            led = [x[2] for x, v in f.var.items() if x[0] == 'cell' and x[1] == cx.state_loc() and v == 'Leader']
            safe = [h.ret[3] for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.safe()
                    for h in t.events[:i] if iscall(h, LOAD) and is_ok(h, f) and f.eq(g.ret, proj(ok_of(h.ret), qt))]
            cx.check(reads, 'append-term', where(e), 'the term of the entry is not the stored term', t, e)
            cx.check(any(b >= a for a in reads for b in safe), 'append-before-barrier', where(e), 'an entry is accepted before the barrier of the term is committed', t, e)
            # (a barrier of a later term that the node led meanwhile is in the log already: an entry of an older term is refused after it)
            last = f.le(proj(pc, cq + '.term'), term) is True
            cx.check(any(a < s < b or last and a < s and a <= b for a in reads for s in led for b in safe) or
                     any({h[0] for h in common_guard(g, e)} & ballot_lock(cx) and any(g.ret[3] < s for s in led) and g.ret[3] in reads for g in t.events[:i] if iscall(g, LOAD) and is_ok(g, f)),
                     'append-after-leadership', where(e), 'the entry may get the term of another leader: the node is not found to be leader between reading the term and reading it again', t, e)
        elif k == 'Barrier':
            n['barrier'] += 1
            own = any(iscall(g, SAVE) and is_ok(g, f) and f.eq(proj(g.a[1], qt), term) for g in t.events[:i])
            cx.check(own, 'barrier-term', where(e), 'the barrier has another term than the election', t, e)
            pl = cmd_payload(f, cmd)
            cx.check(pl is not None and pl[4] and f.eq(pl[4][0][1], term), 'barrier-payload', where(e), 'the barrier announces another term than its own', t, e)
        elif k == 'CompleteRequest':
            n['complete'] += 1
            # the term of an entry that this node appended itself: its completion was there
            ok = False
            for g in t.events[:i]:
                if iscall(g, GET) and is_ok(g, f) and proj(entry_clock(cx, g), cq + '.term') == term:
                    ok = ok or any(h.kind == 'remove' and f.eq(h.a[1], g.a[1]) and ('cell' == h.a[0][0] and h.a[0][1] in completion_locks(cx)) and
                                   f.truth(('has', h.a[0], h.a[1])) is True for h in t.events[:i])
            own = cx.state_is(f, 'Leader') is not None and any(iscall(g, LOAD) and is_ok(g, f) and proj(ok_of(g.ret), qt) == term for g in t.events[:i])
            cx.check(ok or own, 'complete-term', where(e), 'the entry that ends a request is appended with another term than one this node led', t, e)
        else:
            cx.bad('unknown-append', where(e), f'an entry of an unknown kind is appended ({show(cmd)[:80]})', t, e)
    cx.floor(n['client'], 3, 'appends for clients')
    cx.floor(n['barrier'], 1, 'appends of a barrier')
    cx.floor(n['complete'], 1, 'appends that end a request')


def completion_locks(cx):
    """the collections in which a request waits for its entry: filled where an entry is appended, with the sending end of a channel"""
    if 'clocks' not in cx.memo:
        cx.memo['clocks'] = {e.a[0][1] for r in cx.process_roots() for t in cx.A.runs[r].traces for e in t.events
                             if e.kind == 'insert' and e.a[0][0] == 'cell' and any(x[0] == 'chan' for x in walk(e.a[-1]))}
    return cx.memo['clocks']


def first_load(t, term, qt):
    for i, g in enumerate(t.events):
        if iscall(g, LOAD) and g.ret is not None and proj(ok_of(g.ret), qt) == term:
            return i
    return 1 << 30


def barrier_first(cx):
    """A node becomes leader only after a barrier entry of its own term is in its log."""
    eq, cq = cx.entry_q()
    qt, qv = cx.ballot_q()
    n = 0
    for r, t, i, e in leader_events(cx):
        f = e.facts
        n += 1
        bs = [g for g in t.events[:i] if iscall(g, INS) and is_ok(g, f) and cmd_kind(f, entry_parts(cx, g.a[2])[2]) == 'Barrier']
        if not cx.check(bs, 'leader-without-barrier', where(e), 'a node becomes leader before its barrier is in the log', t, e):
            continue
        b = bs[-1]
        term = proj(entry_parts(cx, b.a[2])[0], cq + '.term')
        sv = [g for g in t.events[:i] if iscall(g, SAVE) and is_ok(g, f) and f.eq(proj(g.a[1], qt), term)]
        cx.check(sv, 'barrier-of-other-term', where(b), 'the barrier is not of the term of the election', t, e)
        cx.check(common_guard(b, e), 'barrier-unlocked', where(e), 'the term may change between the barrier and taking the leadership', t, e)
    cx.floor(n, 2, 'promotions to leader')


def progress_reset(cx):
    """A new leader starts with no assumption about what its followers hold: the progress of every peer is reset
    before it acts as leader."""
    n = seen = 0
    for r in cx.process_roots():
        for t in cx.A.runs[r].traces:
            ls = cx.state_sets(t, ('Leader',))
            if not ls:
                continue
            cx.roots_used.add(r)
            i, e = ls[-1]
            seen += 1
            ps = [(g,) + x for g in t.events for x in [reset_of(cx, t, i, g)] if x]
            cx.check(any(every_peer(cx, g.a[0]) for g, _, _ in ps), 'not-reset', where(e), 'a node becomes leader without resetting the progress of every peer', t, e)
            for g, v, new in ps:
                j = t.events.index(g)
                n += 1
                cx.check(new, 'same-epoch', where(g), 'answers to an earlier leadership cannot be told from answers to this one', t, g)
                m, nx, mc = v
                cx.check(j < i, 'reset-after-leader', where(g), 'the progress of the peers is reset after the node acts as leader', t, g)
                cx.check(m == C(0), 'match-not-reset', where(g), 'a new leader assumes that a peer holds entries', t, g)
                ok = any(iscall(x, INS) and e.facts.le(nx, mk_add(x.a[1], 1)) for x in t.events[:j])
                cx.check(ok, 'next-beyond-log', where(g), 'replication would start after the end of the log', t, g)
    cx.floor(n, 1, 'resets of the progress of a peer')


def reset_of(cx, t, i, g):
    """event g replaces the progress of a peer: (its value, is the epoch of the peer raised with it?)"""
    if g.kind != 'set':
        return None
    if progress_value(cx, g.a[1]) is not None and isf(g.a[0], 'progress'):
        new = any(h.kind == 'set' and isf(h.a[0], 'epoch') and h.a[0][1] == g.a[0][1] and lin(h.a[1])[0] == h.a[0] and lin(h.a[1])[1] > 0 for h in t.events[:i])
        return progress_value(cx, g.a[1]), new
    if g.a[1][0] == 'agg' and afield(g.a[1], 'progress') is not None and progress_value(cx, afield(g.a[1], 'progress')) is not None:
        b, k = lin(afield(g.a[1], 'epoch') or C(0))
        return progress_value(cx, afield(g.a[1], 'progress')), b is not None and isf(b, 'epoch') and b[1] == g.a[0] and k > 0
    return None


def every_peer(cx, x):
    """x belongs to the element that a loop over all the peers is at"""
    return any(y[0] == 'mkey' and y[1][0] == 'cell' for y in walk(x))


def progress_value(cx, v):
    """(match, next, max count) of a progress value"""
    if v[0] == 'agg' and v[2].endswith('ReplicationProgress'):
        return afield(v, 'match_index'), afield(v, 'next_index'), afield(v, 'next_max_cnt')
    return None


def safe_term_source(cx):
    """Only committing the barrier of a term opens that term for client requests."""
    n = 0
    for r in cx.process_roots():
        seen = set()
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if e.kind in ('store', 'fetch_max', 'swap') and e.a[0] == cx.safe():
                    k = (e.a, e.facts.key(), history(t))
                    if k in seen:
                        continue
                    seen.add(k)
                    cx.roots_used.add(r)
                    n += 1
                    f = e.facts
                    v = e.a[1]
                    src = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and contains_term(v, g.ret)]
                    ok = False
                    for g in src:
                        cmd = proj(some_of(ok_of(g.ret)), cx.entry_q()[0] + '.command')
                        if cmd_kind(f, cmd) == 'Barrier':
                            ok = any(x.kind == 'load' and x.a[0] == cx.commit() and f.le(g.a[1], x.ret) for x in t.events[:i])
                    cx.check(ok, 'safe-term', where(e), 'a term is opened for clients although its barrier is not known to be committed', t, e)
                    own = v[0] == 'fld' and any(v[1] in (cmd_payload(f, proj(some_of(ok_of(g.ret)), cx.entry_q()[0] + '.command')),) for g in src) or \
                        any(f.eq(v, proj(entry_clock(cx, g), cx.entry_q()[1] + '.term')) for g in src)
                    cx.check(own, 'safe-other-term', where(e), 'another term than the one of the committed barrier is opened for clients', t, e)
    cx.floor(n, 1, 'terms opened for clients')


# ------------------------------------------------------------------ the pointers

def pointer_writes(cx):
    if 'pw' in cx.memo:
        return cx.memo['pw']
    out = []
    for r in cx.process_roots():
        seen = set()
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if e.kind in ('store', 'fetch_max', 'fetch_add', 'swap', 'fetch_sub', 'fetch_min', 'cas') and e.a[0][0] == 'g' and \
                        e.a[0][1].rsplit('.', 1)[-1] in POINTERS:
                    k = (e.kind, e.a, e.site, e.held, e.facts.key(), history(t))
                    if k in seen:
                        continue
                    seen.add(k)
                    cx.roots_used.add(r)
                    out.append((r, t, i, e))
    cx.memo['pw'] = out
    return out


def pointers_forward(cx):
    """The commit, apply and snapshot indices of a running node never move backwards, also when several
    activities move them."""
    n = 0
    writers = {}
    for r, t, i, e in pointer_writes(cx):
        if r != 'boot':
            writers.setdefault(e.a[0], set()).add(r)
    for r, t, i, e in pointer_writes(cx):
        if r == 'boot':
            continue
        n += 1
        p = e.a[0][1].rsplit('.', 1)[-1]
        if e.kind in ('fetch_max', 'fetch_add'):
            cx.ok('monotone', where(e))
            continue
        f = e.facts
        olds = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == e.a[0] and f.le(g.ret, e.a[1])]
        if not cx.check(e.kind == 'store' and olds, 'pointer-back:' + p, where(e), f'{p} is set to a value that may be lower than the current one', t, e):
            continue
        if len(writers[e.a[0]]) > 1:
            # another activity moves it too: only a lock that all of them hold makes compare and store one step
            common = None
            for r2, t2, i2, e2 in pointer_writes(cx):
                if r2 != 'boot' and e2.a[0] == e.a[0]:
                    hs = {h[0] for h in e2.held if h[1] == 'w'}
                    common = hs if common is None else common & hs
            held = any(set(x for x in common_guard(g, e, kind=None)) for g in olds)
            cx.check(common and held, 'pointer-race:' + p, where(e), f'{p} is read and set while another activity may raise it in between', t, e)
    cx.floor(n, 6, 'moves of the log indices')


def boot_pointers(cx):
    """After a restart the node goes on from its last snapshot: nothing is considered applied that the snapshot does
    not contain, and the snapshot itself is installed again."""
    n = 0
    eq, cq = cx.entry_q()
    seen = set()
    for t in cx.traces('boot'):
        st = {}
        for i, e in enumerate(t.events):
            if e.kind in ('store', 'fetch_max') and e.a[0] in (cx.commit(), cx.kern(), cx.user(), cx.snapp()):
                st[e.a[0]] = (i, e)
        if len(st) < 4:
            if t.end == 'ret' and t.ret is not None and t.ret[0] == 'agg' and t.ret[3] == 'Ok':
                cx.bad('not-restored', fnname(t.events[-1].fn) if t.events else '-', 'a node starts without restoring its indices', t)
            continue
        for loc, (i, e) in st.items():
            f = e.facts
            v = e.a[1]
            k = (loc, v, f.key(), history(t))
            if k in seen:
                continue
            seen.add(k)
            n += 1
            p = loc[1].rsplit('.', 1)[-1]
            # the position the value stands for: that of the snapshot for its own index, the one before it for the others
            off = 0 if loc == cx.snapp() else 1
            found = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and cmd_kind(f, proj(some_of(ok_of(g.ret)), eq + '.command')) == 'Snapshot']
            if f.eq(v, C(0)) and not found:
                # no snapshot in the log
                cx.ok('zero', where(e))
                continue
            ok = False
            for g in found:
                if f.eq(mk_add(v, off), g.a[1]):
                    ok = True
                    # the last one: the search goes from the last index down
                    rng = rng_of(cx, g.a[1])
                    last = 'rev' in rng and any(iscall(x, LAST) and is_ok(x, f) and f.eq(rng[2], mk_add(ok_of(x.ret), 1)) for x in t.events[:i])
                    cx.check(last, 'not-last-snapshot', where(e), 'the node does not restart from its last snapshot', t, e)
            cx.check(ok, 'restart-index:' + p, where(e), 'after a restart entries count as applied that the last snapshot does not contain, or the snapshot is skipped', t, e)
    k = 0
    for t in cx.traces('boot', ('iter',)):
        for g in t.events[t.loop[2]:]:
            if iscall(g, GET) and is_some(ok_of(g.ret), t.facts):
                k += 1
                cmd = proj(some_of(ok_of(g.ret)), eq + '.command')
                cx.check(cmd_not(t.facts, cmd, ('Snapshot',)), 'snapshot-skipped', where(g), 'the search for the last snapshot passes over one', t, g)
    cx.floor(n, 8, 'indices restored')
    cx.floor(k, 4, 'entries passed over')


# ------------------------------------------------------------------ committing

def commit_sources(cx):
    """The commit index is moved only by the leader's counting, by a heartbeat, and by a received snapshot."""
    n = 0
    for r, t, i, e in pointer_writes(cx):
        if e.a[0] != cx.commit():
            continue
        n += 1
        cx.check(r in ('boot', 'task:advance_commit', 'rpc:send_heartbeat', STREAM), 'commit-source', where(e), f'the commit index is moved by {r}', t, e)
    cx.floor(n, 4, 'moves of the commit index')


def commit_value(cx):
    return [(r, t, i, e) for r, t, i, e in pointer_writes(cx) if e.a[0] == cx.commit()]


def quorum_value(cx, v):
    """is v the greatest index that a majority of the listed match indices reaches? -> the list"""
    if v[0] != 'index' or v[1][0] != 'coll':
        return None
    coll, at = v[1], v[2]
    ops = coll[2]
    desc = None
    for o in ops:
        if o[0] == 'sort':
            desc = not o[2]
            if o[1] != ('var', 'x'):
                return None
        elif o[0] == 'rev':
            desc = None if desc is None else not desc
        elif o[0] != 'add':
            return None
    def unsorted(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'coll':
                return x[:2] + (tuple(o for o in x[2] if o[0] == 'add'),) + x[3:]
            return tuple(unsorted(y) for y in x)
        return x
    at, n = unsorted(at), ('len', unsorted(coll))
    adds = [o for o in ops if o[0] == 'add']
    if coll[3] == ('empty',) and all(o[3] == 'one' for o in adds):
        k = len(adds)
        return coll if desc is not None and at == C(k // 2 if desc else (k - 1) // 2) else None
    half = ('bin', 'Div', n, C(2))
    if desc is True:
        ok = at == half
    elif desc is False:
        # the lower middle element of the ascending list
        ok = at in (('bin', 'Div', mk_add(n, -1), C(2)), ('bin', 'Sub', mk_add(n, -1), half), mk_add(('bin', 'Sub', n, half), -1))
    else:
        ok = False
    return coll if ok else None


def leader_commit(cx):
    """A leader counts an index as committed only if a majority of the members hold the log up to it, itself
    included only while it is a member, and only if the entry there is of its own term."""
    eq, cq = cx.entry_q()
    qt, qv = cx.ballot_q()
    n = 0
    for r, t, i, e in commit_value(cx):
        if r != 'task:advance_commit':
            continue
        f = e.facts
        v = e.a[1]
        n += 1
        cx.check(cx.state_is(f, 'Leader') is not None, 'commit-by-non-leader', where(e), 'a node that is not leader counts replicas', t, e)
        own = False
        for g in t.events[:i]:
            if iscall(g, GET) and is_ok(g, f) and g.a[1] == v and is_some(ok_of(g.ret), f):
                et = proj(entry_clock(cx, g), cq + '.term')
                own = own or any(iscall(h, LOAD) and is_ok(h, f) and f.eq(et, proj(ok_of(h.ret), qt)) for h in t.events[:i])
        cx.check(own, 'commit-old-term', where(e), 'an entry of an earlier term is committed by counting replicas', t, e)
        spans = [sp for sp in leading_spans(cx, t, i, f) for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and g.a[1] == v
                 and is_some(ok_of(g.ret), f) and f.eq(proj(entry_clock(cx, g), cq + '.term'), sp[0])]
        coll = quorum_value(cx, v)
        if not cx.check(coll is not None, 'commit-quorum', where(e), 'the new commit index is not the one that a majority of the members reaches', t, e):
            continue
        adds = [o for o in coll[2] if o[0] == 'add']
        peers = [o for o in adds if o[3] == 'many']
        selfs = [o for o in adds if o[3] == 'one']
        cx.check(len(peers) <= 1 and all(isf(o[1], 'match_index') for o in peers), 'commit-peers', where(e), 'something else than the match index of each peer is counted', t, e)
        nobody = any(l[0] == 'cmp' and l[1] == 'Eq' and l[3] == C(0) and l[2][0] == 'len' and l[2][1][0] == 'cell' for l in f.log)
        cx.check(peers or nobody, 'commit-uncounted', where(e), 'the match indices of the peers are not counted', t, e)
        for o in peers:
            cond = [c for c in o[2]]
            cx.check(all(c[0] == 'b' and c[1][0] == 'has' and c[2] is True for c in cond), 'commit-filter', where(e), 'some peers are left out of the count', t, e)
        me = f.bools.get(has_self(cx, f))
        when = [serial_of(x) for o in adds for x in walk(o[1]) if x[0] == 'cell' or x[0] == 'res' and x[1] == LAST]
        cx.check(any(all(sp[2] < w < sp[3] for w in when) for sp in spans), 'commit-across-terms', where(e),
                 'the replicas counted may be the ones of another leadership than the one of the term of the entry', t, e)
        okself = all(any(iscall(g, LAST) and is_ok(g, f) and ok_of(g.ret) == o[1] for g in t.events[:i]) for o in selfs)
        cx.check(okself and len(selfs) <= 1, 'commit-self', where(e), 'the leader counts itself with something else than its last index', t, e)
        member = [v2 for k, v2 in f.bools.items() if k[0] == 'has' and k[2] == cx.self_id() and k[1][0] == 'cell' and k[1][1] == cx.membership()]
        if selfs:
            cx.check(True in member or nobody, 'commit-removed-leader', where(e), 'a leader that is not a member counts itself', t, e)
        else:
            cx.check(False in member, 'commit-without-self', where(e), 'a leader that is a member does not count itself', t, e)
    cx.floor(n, 2, 'moves of the commit index by counting')


def has_self(cx, f):
    for k in f.bools:
        if k[0] == 'has' and k[2] == cx.self_id():
            return k
    return None


def follower_commit(cx):
    """A follower moves its commit index on a heartbeat at most to what the leader announces and never beyond the end
    of its own log."""
    n = 0
    q = cx.gen('LeaderCommitState') + '.leader_commit_index'
    for r, t, i, e in commit_value(cx):
        if r != 'rpc:send_heartbeat':
            continue
        f = e.facts
        v = e.a[1]
        n += 1
        ann = [x for g in t.events for x in walk(g.a) if x[0] == 'fld' and x[2] == q] + [x for l in f.log for x in walk(l) if x[0] == 'fld' and x[2] == q]
        cx.check(any(v == x or f.le(v, x) for x in ann), 'commit-beyond-leader', where(e), 'a follower commits more than the leader announced', t, e)
        cx.check(any(iscall(g, LAST) and is_ok(g, f) and f.le(v, ok_of(g.ret)) for g in t.events[:i]), 'commit-beyond-log', where(e),
                 'a follower commits entries it does not have', t, e)
    cx.floor(n, 2, 'moves of the commit index by a heartbeat')


def announced_commit(cx):
    """The commit index a leader announces to a follower is committed and within the prefix that the follower is known
    to share."""
    n = 0
    for r in cx.process_roots():
        seen = set()
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if e.kind != 'insert':
                    continue
                m = next((x for x in walk(e.a) if x[0] == 'agg' and x[2].endswith('request::Heartbeat')), None)
                if m is None:
                    continue
                k = (e.a, e.facts.key(), history(t))
                if k in seen:
                    continue
                seen.add(k)
                cx.roots_used.add(r)
                n += 1
                v = afield(m, 'leader_commit_index')
                f = e.facts
                cx.check(any(g.kind == 'load' and g.a[0] == cx.commit() and f.le(v, g.ret) for g in t.events[:i]), 'announced-uncommitted', where(e),
                         'a leader announces an index that is not committed', t, e)
                ms = [x for l in f.log for x in walk(l) if isf(x, 'match_index')] + [x for x in walk(v) if isf(x, 'match_index')]
                ms = [x for x in ms if f.le(v, x) and x[0] == 'fld' and any(y[0] == 'mval' and contains_term(y, follower_of(t)) for y in walk(x))]
                cx.check(ms, 'announced-unmatched', where(e), 'a leader announces an index beyond what the follower is known to share', t, e)
                term = afield(m, 'leader_term')
                spans = [sp for sp in leading_spans(cx, t, i, f) if f.eq(sp[0], term) or same(sp[0], term, f)]
                cx.check(any(sp[2] < serial_of(y) < sp[3] for x in ms for y in walk(x) if y[0] == 'cell' for sp in spans), 'announced-across-terms', where(e),
                         'a leader announces an index that a follower was known to share in another leadership', t, e)
    cx.floor(n, 1, 'heartbeats sent')


def follower_of(t):
    for e in t.events:
        if e.kind == 'get_with':
            return e.a[1]
    return ('none',)


def follows_sender(cx, ballot, f):
    """is the vote in the ballot the one for the sender of the entries?"""
    vf = proj(ballot, cx.ballot_q()[1])
    def sender(x):
        return any(isf(y, 'sender_id') for y in walk(x))
    if is_some(vf, f):
        x = some_of(vf)
        if any(k[0] == 'eqv' and v and x in (k[1], k[2]) and sender(k) for k, v in f.bools.items()):
            return True
    return any(k[0] == 'eqv' and v and vf in (k[1], k[2]) and any(y[0] == 'agg' and y[3] == 'Some' and sender(y) for y in k[1:3]) for k, v in f.bools.items())


def leader_of_stream(cx):
    """Entries are written only while the receiver follows their sender: it was found to under a lock that is kept."""
    n = 0
    seen = set()
    for t in cx.traces(STREAM):
        for i, e in enumerate(t.events):
            if not (iscall(e, INS) or iscall(e, DELF) or iscall(e, 'RaftApp::save_snapshot')):
                continue
            f = e.facts
            k = (e.site, f.key(), history(t))
            if k in seen:
                continue
            seen.add(k)
            n += 1
            L = [g for g in t.events[:i] if iscall(g, LOAD) and is_ok(g, f) and follows_sender(cx, ok_of(g.ret), f)]
            cx.check(L, 'foreign-sender', where(e), 'entries are accepted from a node other than the one that the receiver follows', t, e)
            if not iscall(e, 'RaftApp::save_snapshot'):
                cx.check(not L or any(common_guard(g, e) for g in L), 'foreign-sender-since', where(e),
                         'the receiver may have turned to another node between finding that it follows the sender and writing its log', t, e)
    cx.floor(n, 4, 'writes of received entries')


# ------------------------------------------------------------------ applying

def vote_fences_log(cx):
    """Nothing is written to the log between comparing it with the candidate's and storing the vote: the vote is stored
    under a lock that was taken before the log was read and that the receiver of entries holds from finding that it
    follows the sender to writing them."""
    n, m = 0, 0
    fences = None
    for t in cx.traces(STREAM):
        for i, e in enumerate(t.events):
            if iscall(e, INS) or iscall(e, DELF):
                f = e.facts
                n += 1
                L = [g for g in t.events[:i] if iscall(g, LOAD) and is_ok(g, f) and follows_sender(cx, ok_of(g.ret), f)]
                locks = {h[0] for g in L for h in common_guard(g, e)}
                fences = locks if fences is None else fences & locks
    seen = set()
    for t in cx.traces('rpc:request_vote'):
        for i, e in enumerate(t.events):
            if not iscall(e, SAVE) or not any(x[0] == 'agg' and x[3] == 'Some' for x in walk(proj(e.a[1], cx.ballot_q()[1]))):
                continue
            R = [g for g in t.events[:i] if iscall(g, LAST) or iscall(g, GET)]
            k = (e.site, e.held, history(t))
            if not R or k in seen:
                continue
            seen.add(k)
            m += 1
            held = set(common_guard(R[0], e))
            for g in R:
                held &= set(g.held)
            cx.check(held and {h[0] for h in held} & (fences or set()), 'log-grows-before-vote', where(e),
                     'entries of the old leader may be stored after the log was compared with the candidate\'s and before the vote is stored', t, e)
    cx.floor(n, 4, 'writes of received entries')
    cx.floor(m, 1, 'votes stored after comparing the log')


def apply_order(cx):
    """Entries are handed to the application in log order, one by one, each only after it is committed and only the
    entry stored at that index."""
    eq, cq = cx.entry_q()
    n = 0
    for r in cx.process_roots():
        seen = set()
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if not (iscall(e, WRITE) or iscall(e, INSTALL)):
                    continue
                k = (e.a, e.facts.key(), e.held, history(t))
                if k in seen:
                    continue
                seen.add(k)
                cx.roots_used.add(r)
                n += 1
                f = e.facts
                what = e.a[0].split('::')[-1]
                cx.check(r == 'task:advance_user', 'apply-elsewhere:' + what, where(e), 'the application is changed by another activity than the one that applies the log', t, e)
                idx = e.a[-1]
                us = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.user() and f.eq(idx, mk_add(g.ret, 1))]
                cx.check(us, 'apply-out-of-order:' + what, where(e), 'the entry applied is not the one after the last applied', t, e)
                cx.check(any(g.kind == 'load' and g.a[0] in (cx.kern(), cx.commit()) and f.le(idx, g.ret) for g in t.events[:i]),
                         'apply-uncommitted:' + what, where(e), 'an entry is applied that may not be committed', t, e)
                gs = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and f.eq(g.a[1], idx)]
                cmds = [proj(some_of(ok_of(g.ret)), eq + '.command') for g in gs]
                if what == 'process_write':
                    ok = any(cmd_kind(f, c) == 'ExecuteRequest' and e.a[1] == proj(cmd_payload(f, c), cmd_payload(f, c)[2] if False else field_q(cx, 'ExecuteRequest', 'message')) for c in cmds)
                    cx.check(ok, 'apply-other-command', where(e), 'the request executed is not the one of the entry', t, e)
                else:
                    ok = any(cmd_kind(f, c) == 'Snapshot' for c in cmds)
                    cx.check(ok, 'install-other', where(e), 'a snapshot is installed for an entry that is not a snapshot', t, e)
    cx.floor(n, 3, 'calls that change the application')


def field_q(cx, variant, field):
    for n, a in cx.P.adts.items():
        if a and a.get('local') and n.endswith('::Command'):
            return f'{n}::{variant}.{field}'
    raise AnchorMissing('type Command')


def apply_step(cx):
    """The applied index advances by exactly one entry at a time, and past an entry only after the entry has taken
    effect: a request is executed (or answered from the cache), a snapshot installed."""
    eq, cq = cx.entry_q()
    n = 0
    seen = set()
    for r, t, i, e in pointer_writes(cx):
        if e.a[0] != cx.user() or r in ('boot', STREAM):
            continue
        f = e.facts
        n += 1
        v = e.a[1]
        us = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.user() and f.eq(v, mk_add(g.ret, 1))]
        cx.check(us, 'apply-skips', where(e), 'the applied index advances by more or less than one entry', t, e)
        cx.check(any(g.kind == 'load' and g.a[0] in (cx.kern(), cx.commit()) and f.le(v, g.ret) for g in t.events[:i]),
                 'applied-uncommitted', where(e), 'an entry counts as applied that may not be committed', t, e)
        gs = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and f.eq(g.a[1], v)]
        if not cx.check(gs, 'applied-unread', where(e), 'an entry counts as applied that was not read', t, e):
            continue
        cmd = proj(some_of(ok_of(gs[-1].ret)), eq + '.command')
        k = cmd_kind(f, cmd)
        done = [g for g in t.events[:i] if (iscall(g, WRITE) or iscall(g, INSTALL)) and is_ok(g, f)]
        if k == 'ExecuteRequest':
            rid = rid_of(cx, f, cmd)
            cx.check(done or not_fresh(cx, t, i, rid), 'request-not-executed', where(e),
                     'a request counts as applied although it was neither executed nor known to be a repetition', t, e)
        elif k == 'Snapshot':
            cx.check(done or f.eq(v, C(1)), 'snapshot-not-installed', where(e), 'a snapshot counts as applied although it was not installed', t, e)
        elif k is None:
            cx.check(cmd_not(f, cmd, ('ExecuteRequest', 'Snapshot', 'CompleteRequest')), 'unknown-skipped', where(e),
                     'an entry counts as applied without looking at what it is', t, e)
    cx.floor(n, 5, 'moves of the applied index')


def rid_of(cx, f, cmd, kind='ExecuteRequest'):
    p = cmd_payload(f, cmd)
    return proj(p, field_q(cx, kind, 'request_id')) if p is not None else ('none',)


def cache_queries(f, rid):
    """(collection, answer) of the look-ups of this request id the path made"""
    return [(k[1], v) for k, v in f.bools.items() if k[0] == 'has' and k[2] == rid]


def not_fresh(cx, t, i, rid):
    return any(v is True for c, v in cache_queries(t.events[i].facts, rid)) or \
        any(v is True for c, v in cache_queries(t.facts, rid))


def kern_step(cx):
    """Internal commands are processed in log order, one by one, and only once they are committed; their submitters are
    told only then."""
    n = 0
    for r, t, i, e in pointer_writes(cx):
        if e.a[0] != cx.kern() or r in ('boot', STREAM):
            continue
        f = e.facts
        v = e.a[1]
        n += 1
        cx.check(any(g.kind == 'load' and g.a[0] == cx.kern() and f.eq(v, mk_add(g.ret, 1)) for g in t.events[:i]), 'kern-skips', where(e),
                 'an internal command is skipped', t, e)
        cx.check(any(g.kind == 'load' and g.a[0] == cx.commit() and f.le(v, g.ret) for g in t.events[:i]), 'kern-uncommitted', where(e),
                 'an internal command is processed before it is committed', t, e)
    cx.floor(n, 3, 'moves of the index of processed internal commands')


def fresh_start(cx):
    """A process starts knowing nothing but what its stores say: no index passed, no member, no request waiting."""
    w = cx.A.wiring()
    n = 0
    for loc in (cx.commit(), cx.kern(), cx.user(), cx.snapp(), cx.memp()):
        oks = [t for t in cx.traces('boot', ('ret',)) if t.ret is not None and is_ok_value(t)]
        # set to something else on every way to start: what it held before does not matter
        reset = oks and all(any(e.kind == 'store' and e.a[0] == loc for e in t.events) for t in oks)
        for v in w.get(loc, ()):
            n += 1
            p = loc[1].rsplit('.', 1)[-1]
            cx.check(v == C(0) or reset, 'index-from-start:' + p, 'construction of ' + p, f'a process starts with {p} at {show(v)[:40]}, so entries count as processed that never were')
    for loc, vals in w.items():
        if not (loc[0] == 'g' and ('::Inner.' in loc[1])):
            continue
        for v in vals:
            if v[0] == 'coll':
                n += 1
                p = loc[1].rsplit('.', 1)[-1]
                cx.check(not v[2], 'not-empty:' + p, 'construction of ' + p, f'a process starts with something in {p} that nobody put there')
    cx.floor(n, 8, 'initial values of the shared state')


def is_ok_value(t):
    return t.ret[0] == 'agg' and t.ret[3] == 'Ok' or t.facts.variant(t.ret) == 'Ok'
