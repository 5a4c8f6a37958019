"""Requests of clients: submission, execution, completion, reads, forwarding."""
from base import *
from rules_election import SAVE, LOAD, LAST, GET
from rules_log import *

USER_RPC = ('rpc:write', 'rpc:read', 'rpc:process_kern_request')


def cells_of(cx, name):
    """shared cells whose type mentions the type `name`"""
    out = []
    for n in cx.P.shared:
        for v in (cx.P.adts.get(n) or {'variants': []})['variants']:
            for f in v['f']:
                if name in f['t'].replace('>', ' ').replace('<', ' ').replace(',', ' ').replace(')', ' ').split('::') or \
                        any(x.split('::')[-1] == name for x in re.split(r'[<>(), ]+', f['t'])):
                    out.append(('g', n + '.' + f['n']))
    return out


def user_cells(cx):
    c = [x for x in cells_of(cx, 'UserCompletion')]
    if not c:
        raise AnchorMissing('the map of completions of user requests')
    return c


def kern_cells(cx):
    c = [x for x in cells_of(cx, 'KernCompletion')]
    if not c:
        raise AnchorMissing('the map of completions of configuration requests')
    return c


def cell_of(t):
    """the shared cell a term lies in"""
    while isinstance(t, tuple):
        if t and t[0] == 'cell':
            return t[1]
        if t and t[0] in ('fld', 'coll', 'mval', 'tail', 'upd', 'ref'):
            t = t[3] if t[0] == 'coll' else t[1]
            continue
        return None
    return None


def on_cell(e, cells):
    return e.kind in ('insert', 'remove', 'split_off', 'set', 'clear', 'retain', 'push', 'pop', 'drain', 'append', 'extend', 'mem_take') and e.a and cell_of(e.a[0]) in cells


def distinct(cx, roots, pred):
    """(root, trace, position, event) for each distinct event"""
    for r in roots:
        run = cx.run(r)
        seen = set()
        for t in run.traces:
            for i, e in enumerate(t.events):
                if pred(e):
                    k = (e.kind, e.a, e.ret, e.site, e.held, e.facts.key(), t.end if t.end in ('ret', 'panic') else 'x', history(t))
                    if k in seen:
                        continue
                    seen.add(k)
                    yield r, t, i, e


def req_field(cx, root, name):
    return [x for x in [('fld', cx.arg(root, 2), q) for q in fields_named(cx, name)]]


def fields_named(cx, name):
    return [n + '.' + f['n'] for n, a in cx.P.adts.items() if a for v in a['variants'] for f in v['f'] if f['n'] == name]


def chan_of(t):
    return next((x[2] for x in walk(t) if x[0] == 'chan'), None)


# ------------------------------------------------------------------ submission

def request_logged_as_sent(cx):
    """The entry a leader appends for a write carries exactly the message and the request id the client sent."""
    n = 0
    for r, t, i, e in of_kind(cx, 'append'):
        if r != 'rpc:write':
            continue
        idx, ent = entry_of(e)
        cmd = entry_parts(cx, ent)[2]
        p = cmd_payload(e.facts, cmd)
        if p is None or p[0] != 'agg' or p[3] != 'ExecuteRequest':
            cx.bad('other-command', where(e), 'a write of a client appends something else than its request', t, e)
            continue
        n += 1
        cx.check(any(same(afield(p, 'message'), x, e.facts) for x in req_field(cx, r, 'message')), 'message', where(e), 'the message in the log is not the one the client sent', t, e)
        cx.check(any(same(afield(p, 'request_id'), x, e.facts) for x in req_field(cx, r, 'request_id')), 'request-id', where(e), 'the request id in the log is not the one the client sent', t, e)
    cx.floor(n, 1, 'writes appended')
    m = 0
    for t in cx.traces('rpc:write', 'ret'):
        if t.ret[0] == 'agg' and t.ret[3] == 'Ok' and not rpcs(t):
            m += 1
            ins = [e for e in t.events if iscall(e, INS) and is_ok(e, t.facts)]
            cx.check(len(ins) == 1, 'appended-once', fnname(t.events[-1].fn), f'a write is answered after {len(ins)} entries were appended for it', t)
    cx.floor(m, 1, 'answers to a write by the leader')


def rpcs(t):
    return [e for e in t.events if e.kind == 'rpc']


def answer_is_own(cx):
    """A client that is answered by the leader gets what was sent to the completion registered for its own request, and
    only after that."""
    n = 0
    for r in ('rpc:write', 'rpc:read'):
        for t in cx.traces(r, 'ret'):
            if not (t.ret[0] == 'agg' and t.ret[3] == 'Ok') or rpcs(t):
                continue
            n += 1
            w = fnname(t.events[-1].fn)
            msg = next((afield(x, 'message') for x in walk(t.ret) if x[0] == 'agg' and x[2].endswith('::Response')), None)
            rc = next((x for x in walk(msg or ()) if x[0] == 'res' and x[1] == 'recv'), None)
            if not cx.check(rc is not None and msg == ok_of(rc), 'answer', w, 'the answer does not come from the completion of the request', t):
                continue
            ch = chan_of(rc[2])
            reg = [e for e in t.events if e.kind in ('insert', 'push') and chan_of(e.a[1:]) == ch]
            cx.check(reg, 'not-registered', w, 'the client is answered by a completion that was not registered', t)
    for t in cx.traces('rpc:process_kern_request', 'ret'):
        if not (t.ret[0] == 'agg' and t.ret[3] == 'Ok') or rpcs(t):
            continue
        n += 1
        w = fnname(t.events[-1].fn)
        rc = [e for e in t.events if e.kind == 'await' and e.a[0] == 'recv' and is_ok(e, t.facts)]
        cx.check(any(chan_of(e.a[1:]) == chan_of(g.a[1:]) for e in rc for g in t.events if g.kind == 'insert'), 'kern-answer', w,
                 'a configuration request is answered before its entry is committed', t)
    cx.floor(n, 3, 'answers to clients')


def completion_registered(cx):
    """The completion of a request is registered at the index of its entry, under the append lock and before the entry
    is inserted; if the insertion fails it is dropped."""
    n = 0
    cells = user_cells(cx) + kern_cells(cx)
    for r, t, i, e in of_kind(cx, 'append'):
        idx, ent = entry_of(e)
        k = cmd_kind(e.facts, entry_parts(cx, ent)[2])
        if k not in ('ExecuteRequest', 'ClusterConfiguration'):
            continue
        n += 1
        f = e.facts
        regs = [g for g in t.events[:i] if g.kind == 'insert' and cell_of(g.a[0]) in cells]
        late = [g for g in t.events[i:] if g.kind == 'insert' and cell_of(g.a[0]) in cells]
        cx.check(not late, 'registered-late', where(e), 'the entry may be applied before its completion is registered', t, e)
        if not cx.check(regs, 'not-registered', where(e), 'the entry of a request is inserted without a completion', t, e):
            continue
        g = regs[-1]
        cx.check(f.eq(g.a[1], idx), 'other-index', where(g), 'the completion is registered at another index than the entry', t, g)
        cx.check([h for h in g.held if h in e.held and h[2] == 'async'], 'registered-unlocked', where(g), 'another entry may take the index of the completion', t, g)
        want = user_cells(cx) if k == 'ExecuteRequest' else kern_cells(cx)
        cx.check(cell_of(g.a[0]) in want, 'wrong-map', where(g), 'the completion is registered with those of the other kind of requests', t, g)
        # after a failed insertion the completion is gone
        fin = t.facts
        if fin.variant(e.ret) == 'Err' and t.end in ('ret', 'panic') or (fin.variant(e.ret) == 'Err' and t.end.startswith('turn')):
            gone = [x for x in t.events[i + 1:] if on_cell(x, [cell_of(g.a[0])]) and x.kind in ('split_off', 'remove', 'set', 'clear', 'retain')]
            cx.check(gone, 'left-behind', where(e), 'the completion of an entry that could not be inserted stays registered and takes the answer of another entry', t, e)
    cx.floor(n, 2, 'appends for clients')


def completion_taken(cx):
    """A completion is used only by the entry at its index: for a user request with the response to the request in that
    entry, for a configuration request once the entry is committed."""
    n = m = 0
    eq, cq = cx.entry_q()
    cells = user_cells(cx) + kern_cells(cx)
    sites = [r for r in cx.process_roots()]
    for r, t, i, e in distinct(cx, sites, lambda e: e.kind == 'send' and any(x[0] in ('mval', 'elem') and cell_of(x[1]) in cells for x in walk(e.a[0]))):
        f = e.facts
        mv = next(x for x in walk(e.a[0]) if x[0] in ('mval', 'elem') and cell_of(x[1]) in cells)
        if not cx.check(mv[0] == 'mval', 'taken-by-any', where(e), 'a completion is used regardless of its index', t, e):
            continue
        idx = mv[2]
        rm = [g for g in t.events[:i] if g.kind == 'remove' and g.a[0] == mv[1] and f.eq(g.a[1], idx)]
        cx.check(rm, 'not-removed', where(e), 'a completion stays registered after it was used', t, e)
        gs = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and f.eq(g.a[1], idx)]
        if not cx.check(gs, 'other-entry', where(e), 'a completion is used by an entry at another index', t, e):
            continue
        cmd = proj(some_of(ok_of(gs[-1].ret)), eq + '.command')
        if cell_of(mv[1]) in user_cells(cx):
            n += 1
            rid = rid_of(cx, f, cmd)
            val = e.a[1]
            own = any(iscall(g, WRITE) and is_ok(g, f) and ok_of(g.ret) == val and contains_term(g.a[1], cmd) for g in t.events[:i])
            cached = val[0] == 'mval' and val[2] == rid or \
                any(g.kind == 'insert' and g.a[1] == rid and len(g.a) > 2 and g.a[2] == val for g in t.events[:i])
            cx.check(own or cached, 'foreign-response', where(e), 'a client may get the response to another request', t, e)
            cx.check(cmd_kind(f, cmd) == 'ExecuteRequest', 'not-a-request', where(e), 'a client is answered by an entry that is not a request', t, e)
        else:
            m += 1
            cl = [g for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.commit() and f.le(idx, g.ret)]
            cx.check(cl, 'kern-uncommitted', where(e), 'a configuration request is answered before its entry is committed', t, e)
    cx.floor(n, 2, 'answers to user requests')
    cx.floor(m, 1, 'answers to configuration requests')


def completion_always_taken(cx):
    """When the entry of a request has been applied, the completion registered at its index is used; none is left waiting."""
    n = 0
    eq, cq = cx.entry_q()
    seen = set()
    for r, t, i, e in pointer_writes_all(cx, cx.user(), ('task:advance_user',)):
        f = e.facts
        gs = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and f.eq(g.a[1], e.a[1])]
        if not gs:
            continue
        cmd = proj(some_of(ok_of(gs[-1].ret)), eq + '.command')
        if cmd_kind(f, cmd) != 'ExecuteRequest':
            continue
        n += 1
        rm = [g for g in t.events[:i] if g.kind == 'remove' and cell_of(g.a[0]) in user_cells(cx) and f.eq(g.a[1], e.a[1])]
        if not cx.check(rm, 'never-answered', where(e), 'an applied request does not answer the client that waits for it', t, e):
            continue
        if rm[-1].a[2] == C(True):
            sd = [g for g in t.events[:i] if g.kind == 'send' and any(x[0] == 'mval' and x[1] == rm[-1].a[0] for x in walk(g.a[0]))]
            # a request that was completed before is not answered again: its completion is dropped
            again = any(v is True for c, v in cache_queries(t.facts, rid_of(cx, f, cmd)))
            cx.check(sd or again, 'answer-dropped', where(e), 'the response is not sent to the client that waits for it', t, e)
    cx.floor(n, 4, 'applied requests')
    m = 0
    for r, t, i, e in pointer_writes_all(cx, cx.kern(), ('task:advance_kern',)):
        f = e.facts
        gs = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and f.eq(g.a[1], e.a[1])]
        if not gs:
            continue
        cmd = proj(some_of(ok_of(gs[-1].ret)), eq + '.command')
        if cmd_kind(f, cmd) != 'ClusterConfiguration':
            continue
        m += 1
        rm = [g for g in t.events[:i] if g.kind == 'remove' and cell_of(g.a[0]) in kern_cells(cx) and f.eq(g.a[1], e.a[1])]
        if not cx.check(rm, 'config-never-answered', where(e), 'a committed configuration does not answer the client that waits for it', t, e):
            continue
        if rm[-1].a[2] == C(True):
            sd = [g for g in t.events[:i] if g.kind == 'send' and any(x[0] == 'mval' and x[1] == rm[-1].a[0] for x in walk(g.a[0]))]
            cx.check(sd, 'config-answer-dropped', where(e), 'the client that waits for a configuration is not answered', t, e)
    cx.floor(m, 1, 'committed configurations')


def pointer_writes_all(cx, loc, roots):
    return [x for x in pointer_writes(cx) if x[3].a[0] == loc and x[0] in roots]


def completion_dropped(cx):
    """When an entry is replaced or skipped by what another leader sends, the completions waiting at its index and after
    it are dropped, so that their clients are told, and do not take the answer of another entry."""
    n = m = 0
    cells = user_cells(cx) + kern_cells(cx)
    seen = set()
    for t in cx.traces(STREAM):
        if not (t.end == 'ret' or recv_loop_end(cx, t)):
            continue
        f = t.events[-1].facts if t.events else t.facts
        for i, e in enumerate(t.events):
            if not iscall(e, INS) or not is_ok(e, f):
                continue
            idx, ent = entry_of(e)
            snap = cmd_kind(e.facts, entry_parts(cx, ent)[2]) == 'Snapshot'
            k = (e.a, snap, tuple((g.kind, g.a) for g in t.events if g.kind in ('split_off', 'set') and on_cell(g, cells)))
            if k in seen:
                continue
            seen.add(k)
            for c, nm in [(c, 'user') for c in user_cells(cx)] + [(c, 'kern') for c in kern_cells(cx)]:
                ev = [g for g in t.events if on_cell(g, [c]) and g.kind in ('split_off', 'set', 'clear', 'retain') and
                      [h for h in g.held if h[2] == 'async' and h[1] == 'w']]
                w = where(e)
                if not snap:
                    n += 1
                    absent = any(is_none(ok_of(g.ret), f) for g in reads_before(t, i, idx, f, cx))
                    cut = [g for g in ev if g.kind == 'split_off' and f.le(g.a[1], idx) or g.kind == 'clear' or g.kind == 'set' and g.a[1][0] == 'coll' and not g.a[1][2] and g.a[1][3] == ('empty',)]
                    cx.check(cut, 'stale-completion:' + nm, w, 'a completion registered for a replaced entry stays and is answered by another entry', t, e)
                else:
                    m += 1
                    sets = [g for g in ev if g.kind in ('set', 'clear')]
                    good = False
                    if sets:
                        v = sets[-1].a[1] if sets[-1].kind == 'set' else ('coll', 'map', (), ('empty',))
                        if v[0] == 'coll' and not v[2] and v[3] == ('empty',):
                            good = True
                        for x in walk(v):
                            # those behind the snapshot stay only if their entries do
                            if x[0] == 'tail' and f.le(mk_add(idx, 1), x[2]) and not any(iscall(g, DELF) and f.eq(g.a[1], mk_add(idx, 1)) for g in t.events):
                                good = True
                    cx.check(good, 'skipped-completion:' + nm, w, 'a client whose entry is covered by a received snapshot waits for ever', t, e)
    cx.floor(n, 4, 'insertions of received entries')
    cx.floor(m, 2, 'insertions of received snapshots')


def completion_touch(cx):
    """Completions are changed only where requests are appended, applied or overwritten."""
    cells = user_cells(cx) + kern_cells(cx)
    n = 0
    for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: on_cell(e, cells)):
        n += 1
        f = e.facts
        w = where(e)
        if e.kind == 'insert':
            nx = [g for g in t.events[i:] if iscall(g, INS) and f.eq(g.a[1], e.a[1])]
            cx.check(nx or t.end in ('panic', 'cut'), 'registered-without-entry', w, 'a completion is registered although no entry is inserted at its index', t, e)
        elif e.kind == 'remove':
            undone = [h for h in e.held if h[2] == 'async'] and any(iscall(g, INS) and f.variant(g.ret) == 'Err' and f.eq(g.a[1], e.a[1]) for g in t.events[:i])
            cx.check(r in ('task:advance_user', 'task:advance_kern') or undone, 'removed-elsewhere', w, 'a completion is removed by another activity than the one that applies the log', t, e)
        else:
            # dropping completions: only for an index where an entry is inserted or failed to be
            bt = [g.a[1] for g in t.events if iscall(g, INS) or iscall(g, DELF)]
            bt += [g.ret for g in t.events if r == STREAM and g.kind == 'load' and g.a[0] == cx.snapp()]
            good = any((e.kind in ('set', 'clear') or f.le(x, e.a[1])) for x in bt)
            cx.check(good, 'dropped-elsewhere', w, 'completions of entries that are still in the log are dropped', t, e)
    cx.floor(n, 5, 'changes to the registered completions')


# ------------------------------------------------------------------ exactly once

def cache_roles(cx):
    """(responses, completed): the collections that hold the answers and the ids of completed requests"""
    if 'roles' in cx.memo:
        return cx.memo['roles']
    R, Cc = set(), set()
    eq, cq = cx.entry_q()
    for t in cx.traces('task:advance_user'):
        for i, e in enumerate(t.events):
            if e.kind == 'insert':
                f = e.facts
                if len(e.a) > 2 and any(x[0] == 'res' and x[1] == WRITE for x in walk(e.a[2])):
                    R.add(collname(e.a[0]))
                elif any(x[0] == 'fld' and x[2] == field_q(cx, 'CompleteRequest', 'request_id') for x in walk(e.a[1])):
                    Cc.add(collname(e.a[0]))
    cx.memo['roles'] = (R, Cc)
    return R, Cc


def collname(t):
    """a collection in a shared cell, independent of when it was read"""
    p = []
    while t[0] == 'fld':
        p.append(t[2])
        t = t[1]
    if t[0] == 'coll':
        return collname(t[3]) if not p else None
    if t[0] == 'cell':
        return (t[1],) + tuple(reversed(p))
    return (t,) + tuple(reversed(p))


def execute_once(cx):
    """A request is executed only if it is neither among the requests answered nor among those completed, which is
    looked up and recorded under one lock."""
    R, Cc = cache_roles(cx)
    cx.floor(len(R), 1, 'collections of responses')
    cx.floor(len(Cc), 1, 'collections of completed requests')
    n = 0
    eq, cq = cx.entry_q()
    for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: iscall(e, WRITE)):
        f = e.facts
        n += 1
        gs = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and f.eq(g.a[1], e.a[-1])]
        if not cx.check(gs, 'no-entry', where(e), 'something that is not an entry of the log is executed', t, e):
            continue
        rid = rid_of(cx, f, proj(some_of(ok_of(gs[-1].ret)), eq + '.command'))
        q = [(collname(c), v) for c, v in cache_queries(f, rid)]
        for role, S in (('responses', R), ('completed', Cc)):
            cx.check(any(c in S and v is False for c, v in q), 'executed-again:' + role, where(e),
                     f'a request is executed without looking whether it is among the requests already {"answered" if role == "responses" else "completed"}', t, e)
        lk = {c[0] for c in R | Cc}
        cx.check(any(h[0] in lk and h[1] == 'w' for h in e.held), 'unlocked', where(e), 'the request may be executed twice at the same time', t, e)
    cx.floor(n, 1, 'executions of requests')


def response_recorded(cx):
    """The response to an executed request is kept under its request id before the entry counts as applied, and until
    the request is known to be completed."""
    R, Cc = cache_roles(cx)
    eq, cq = cx.entry_q()
    n = m = 0
    for r, t, i, e in pointer_writes_all(cx, cx.user(), ('task:advance_user',)):
        f = e.facts
        gs = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f) and f.eq(g.a[1], e.a[1])]
        if not gs:
            continue
        cmd = proj(some_of(ok_of(gs[-1].ret)), eq + '.command')
        k = cmd_kind(f, cmd)
        if k == 'ExecuteRequest':
            rid = rid_of(cx, f, cmd)
            ws = [g for g in t.events[:i] if iscall(g, WRITE) and is_ok(g, f)]
            state = None
            for g in t.events[:i]:
                if g.kind == 'insert' and collname(g.a[0]) in R and g.a[1] == rid:
                    state = g.a[2]
                elif g.kind in ('remove', 'clear', 'retain', 'set') and collname(g.a[0]) in R:
                    state = None if ws or state is not None else 'gone'
            if ws:
                n += 1
                cx.check(state is not None and state == ok_of(ws[-1].ret), 'response-lost', where(e),
                         'the response to an executed request is not kept, so a repetition of the request is executed again', t, e)
            else:
                cx.check(state != 'gone', 'response-removed', where(e), 'a response is forgotten before the request is completed', t, e)
            done = [g for g in t.events[:i] if g.kind == 'insert' and collname(g.a[0]) in Cc]
            cx.check(not done, 'completed-early', where(e), 'a request counts as completed before the log says so', t, e)
        elif k == 'CompleteRequest':
            m += 1
            rid = rid_of(cx, f, cmd, 'CompleteRequest')
            ins = [g for g in t.events[:i] if g.kind == 'insert' and collname(g.a[0]) in Cc]
            cx.check(any(g.a[1] == rid for g in ins), 'completion-forgotten', where(e), 'a completed request is not remembered, so a late repetition is executed again', t, e)
            cx.check(all(g.a[1] == rid for g in ins), 'completes-other', where(e), 'another request counts as completed', t, e)
            rm = [g for g in t.events[:i] if g.kind == 'remove' and collname(g.a[0]) in R]
            cx.check(all(g.a[1] == rid for g in rm), 'removes-other', where(e), 'the response to another request is removed', t, e)
            cx.check(rm, 'response-kept', where(e), 'the responses to completed requests are kept for ever', t, e)
    cx.floor(n, 3, 'executed requests')
    cx.floor(m, 1, 'completed requests')
    # the caches are touched by nobody else
    lk = {c[0] for c in R | Cc}
    k = 0
    for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: e.kind in ('insert', 'remove', 'clear', 'retain', 'set', 'split_off', 'drain') and
                               (collname(e.a[0]) or (None,))[0] in lk):
        k += 1
        cx.check(r == 'task:advance_user', 'cache-touched', where(e), 'the record of executed requests is changed by another activity', t, e)
    cx.floor(k, 3, 'changes to the record of executed requests')


def complete_after_answer(cx):
    """The entry that ends a request is appended only after its response has been delivered to the client, and names
    that request."""
    eq, cq = cx.entry_q()
    n = 0
    for r, t, i, e in of_kind(cx, 'append'):
        f = e.facts
        cmd = entry_parts(cx, entry_of(e)[1])[2]
        if cmd_kind(f, cmd) != 'CompleteRequest':
            continue
        n += 1
        p = cmd_payload(f, cmd)
        rid = afield(p, 'request_id') if p[0] == 'agg' else None
        gs = [g for g in t.events[:i] if iscall(g, GET) and is_ok(g, f)]
        own = [g for g in gs if rid is not None and rid == rid_of(cx, f, proj(some_of(ok_of(g.ret)), eq + '.command'))]
        cx.check(own, 'completes-other', where(e), 'the entry ends another request than the one answered', t, e)
        sent = [g for g in t.events[:i] if g.kind == 'send' and g.ret == C(True) and any(x[0] == 'mval' and cell_of(x[1]) in user_cells(cx) for x in walk(g.a[0]))]
        cx.check(sent, 'completed-undelivered', where(e), 'a request is ended although its client did not get the response', t, e)
    cx.floor(n, 1, 'entries that end a request')


# ------------------------------------------------------------------ reads

def query_regs(cx):
    """(trace, position, event, key) of the registrations of queries"""
    out = []
    for r, t, i, e in distinct(cx, ['rpc:read'], lambda e: e.kind in ('push', 'insert') and chan_of(e.a[1:]) is not None):
        key = None
        for x in walk(e.a[0]):
            if x[0] == 'mval':
                key = x[2]
                break
        if key is None and e.kind == 'insert':
            key = e.a[1]
        if key is None:
            # a queue of (index, query)
            for x in walk(e.a[1]):
                if x[0] == 'agg' and x[1] == 'tuple' and len(x[4]) == 2:
                    key = x[4][0][1]
        out.append((t, i, e, key))
    return out


def read_index(cx):
    """A leader registers a query at the commit index it reads after it has established that it is leader and that the
    barrier of its term is committed."""
    qt, qv = cx.ballot_q()
    n = 0
    for t, i, e, key in query_regs(cx):
        f = e.facts
        n += 1
        w = where(e)
        cx.check(cx.state_is(f, 'Leader') is not None, 'read-by-follower', w, 'a node that is not leader serves a query', t, e)
        if not cx.check(key is not None, 'no-index', w, 'a query is served without an index it has to wait for', t, e):
            continue
        ld = [(j, g) for j, g in enumerate(t.events[:i]) if g.kind == 'load' and g.a[0] == cx.commit() and f.le(g.ret, key)]
        if not cx.check(ld, 'read-index', w, 'the index a query waits for may be lower than the commit index', t, e):
            continue
        # several queries may wait for one index
        cx.check(e.kind != 'insert' or e.a[1] != key or key[0] != 'ld' or len(e.a) < 3 or f.truth(('has', e.a[0], key)) is False or
                 any(g.kind == 'remove' and g.a[0] == e.a[0] and g.a[1] == key for g in t.events[:i]), 'replaces', w, 'a query takes the place of those that wait for the same index: they are never answered', t, e)
        j = ld[-1][0]
        safe = False
        for k, g in enumerate(t.events[:j]):
            if g.kind == 'load' and g.a[0] == cx.safe():
                safe = safe or any(iscall(h, LOAD) and is_ok(h, f) and f.eq(g.ret, proj(ok_of(h.ret), qt)) for h in t.events[:i])
        cx.check(safe, 'read-before-barrier', w, 'a new leader serves a query at a commit index that may be older than what was committed before', t, e)
        q = e.a[1:]
        cx.check(any(contains_term(x, y) for x in [q] for y in req_field(cx, 'rpc:read', 'message')), 'other-query', w, 'the query registered is not the one the client sent', t, e)
    cx.floor(n, 1, 'registrations of queries')


def read_applied(cx):
    """A query is executed only when the node has applied the log up to the index it was registered at, and its result
    goes to the client that asked."""
    n = m = 0
    root = 'task:query_execution'
    for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: iscall(e, READ)):
        n += 1
        cx.check(r == root, 'read-elsewhere', where(e), 'a query is executed without waiting for the log to be applied', t, e)
    for r, t, i, e in distinct(cx, [root], lambda e: e.kind in ('remove', 'split_off', 'pop', 'drain', 'clear', 'retain') and not (cell_of(e.a[0]) or ('', ''))[0] == 'g'):
        f = e.facts
        m += 1
        us = [g.ret for g in t.events[:i] if g.kind == 'load' and g.a[0] == cx.user()]
        if e.kind == 'remove':
            cx.check(any(f.le(e.a[1], u) for u in us), 'read-early', where(e), 'a query is taken that waits for entries not applied yet', t, e)
        elif e.kind == 'split_off':
            # the tail that stays
            cx.check(any(f.le(e.a[1], mk_add(u, 1)) for u in us), 'read-early', where(e), 'a query is taken that waits for entries not applied yet', t, e)
        else:
            cx.bad('read-early', where(e), 'queries are taken regardless of the index they wait for', t, e)
    k = 0
    for r, t, i, e in distinct(cx, [root], lambda e: e.kind == 'send'):
        k += 1
        f = e.facts
        rd = [g for g in t.events[:i] if iscall(g, READ) and is_ok(g, f) and ok_of(g.ret) == e.a[1]]
        if not cx.check(rd, 'answer', where(e), 'a client gets something else than the result of a query', t, e):
            continue
        el = lambda v: [x for x in walk(v) if x[0] == 'elem']
        a, b = el(rd[-1].a[1:]), el(e.a[0])
        cx.check(a and b and a[0] == b[0] or not (a or b), 'answer-mixed', where(e), 'the result of a query goes to another client', t, e)
    whole(cx, [root], 'queries are dropped without being executed')
    cx.floor(n, 1, 'executions of queries')
    cx.floor(m, 2, 'removals from the query queue')
    cx.floor(k, 1, 'answers to queries')


# ------------------------------------------------------------------ forwarding

def own_shard(v):
    """the shard the node's driver was made for"""
    return v[0] == 'g' and v[1].endswith('.shard_id') or isf(v, 'shard_id')


def forwarded(cx):
    """A node that is not leader passes a request on, unchanged, to the node it believes to be the leader and to no other,
    never to itself, and refuses it if it knows no leader; the client gets that node's answer."""
    qt, qv = cx.ballot_q()
    n = 0
    for root in USER_RPC:
        nm = root.split(':')[-1]
        k = 0
        for r, t, i, e in distinct(cx, [root], lambda e: e.kind == 'rpc'):
            f = e.facts
            k += 1
            n += 1
            w = where(e)
            cx.check(e.a[0] == nm, 'forwarded-as:' + nm, w, f'a {nm} request is forwarded as {e.a[0]}', t, e)
            dest = e.a[1]
            ls = [g for g in t.events[:i] if iscall(g, LOAD) and is_ok(g, f)]
            cx.check(any(same(dest, some_of(proj(ok_of(g.ret), qv)), f) and is_some(proj(ok_of(g.ret), qv), f) for g in ls), 'destination:' + nm, w,
                     'a request is forwarded to a node other than the known leader', t, e)
            cx.check(f.bools.get(('eqv',) + eq_key(dest, cx.self_id())) is False, 'to-itself:' + nm, w, 'a node forwards a request to itself', t, e)
            cx.check(cx.state_is(f, 'Leader') is None, 'leader-forwards:' + nm, w, 'the leader forwards a request', t, e)
            m = e.a[2]
            if m[0] == 'agg':
                for fn, v in m[4]:
                    src = req_field(cx, root, fn)
                    good = any(same(v, x, f) for x in src) or fn == 'shard_id' and own_shard(v)
                    cx.check(good, f'changed:{nm}.{fn}', w, f'the {fn} of a request is changed when it is forwarded', t, e)
            else:
                cx.check(m == cx.arg(root, 2), 'changed:' + nm, w, 'a request is changed when it is forwarded', t, e)
            if t.end == 'ret' and t.ret[0] == 'agg' and t.ret[3] == 'Ok':
                cx.check(is_ok(e, t.facts), 'lost-error:' + nm, w, 'a request that the leader refused is answered with success', t, e)
                msg = next((afield(x, 'message') for x in walk(t.ret) if x[0] == 'agg' and x[2].endswith('::Response')), None)
                if msg is not None:
                    cx.check(contains_term(msg, e.ret), 'answer:' + nm, w, 'the client does not get the answer of the leader', t, e)
        cx.floor(k, 1, f'forwarding of {nm} requests')
        for t in cx.traces(root, ('ret',)):
            if not (t.ret[0] == 'agg' and t.ret[3] == 'Ok'):
                continue
            f = t.facts
            ls = [g for g in t.events if iscall(g, LOAD) and is_ok(g, f)]
            cx.check(not any(is_none(proj(ok_of(g.ret), qv), f) for g in ls[:1]), 'leader-unknown:' + nm, fnname(t.events[-1].fn), 'a request is served although no leader is known', t)
            cx.check(len(rpcs(t)) <= 1, 'forwarded-twice:' + nm, fnname(t.events[-1].fn), 'a request is forwarded more than once', t)
    for root in ('rpc:add_server', 'rpc:remove_server'):
        nm = root.split(':')[-1]
        k = 0
        for r, t, i, e in distinct(cx, [root], lambda e: e.kind == 'rpc' and e.a[0] == 'process_kern_request'):
            f = e.facts
            k += 1
            ls = [g for g in t.events[:i] if iscall(g, LOAD) and is_ok(g, f)]
            cx.check(same(e.a[1], cx.self_id(), f) or any(same(e.a[1], some_of(proj(ok_of(g.ret), qv)), f) for g in ls), 'change-destination:' + nm, where(e),
                     'a change of the membership is handed to a node other than this one and the known leader', t, e)
        cx.floor(k, 1, f'handing on of {nm} requests')
    cx.floor(n, 3, 'forwarded requests')


def served_by_leader(cx):
    """A request takes effect on a node itself only while the node is leader."""
    n = 0
    for root in USER_RPC:
        for r, t, i, e in distinct(cx, [root], lambda e: iscall(e, INS) or e.kind in ('insert', 'push')):
            if e.kind in ('insert', 'push') and (cell_of(e.a[0]) is None):
                continue
            n += 1
            cx.check(cx.state_is(e.facts, 'Leader') is not None, 'served-by-follower', where(e), 'a node that is not leader serves a request', t, e)
    cx.floor(n, 3, 'requests served by the leader')
