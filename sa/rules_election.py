"""Elections: votes, terms, leadership."""
from base import *

SAVE, LOAD = 'RaftBallotStore::save_ballot', 'RaftBallotStore::load_ballot'
LAST, GET = 'RaftLogStore::get_last_index', 'RaftLogStore::get_entry'


def ballot_roots(cx):
    """roots on which the ballot is written"""
    out = []
    for r in cx.process_roots():
        if any(iscall(e, SAVE) for t in cx.A.runs[r].traces for e in t.events):
            out.append(r)
            cx.roots_used.add(r)
    return out


def base_load(t, i):
    """the load the saved value is derived from: the last one before it on the path"""
    for e in reversed(t.events[:i]):
        if iscall(e, LOAD):
            return e
    return None


def save_events(cx):
    """(root, trace, index, event) of every distinct ballot write; one path per distinct situation"""
    if 'saves' in cx.memo:
        return cx.memo['saves']
    out = []
    for r in ballot_roots(cx):
        seen = set()
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if iscall(e, SAVE):
                    k = (id(e.facts), e.a, e.held, e.site)
                    k = (e.a, e.held, e.site, e.facts.key(), history(t))
                    if k not in seen:
                        seen.add(k)
                        out.append((r, t, i, e))
    cx.memo['saves'] = out
    return out


def ballot_terms(cx, e, L):
    qt, qv = cx.ballot_q()
    lv = ok_of(L.ret)
    return proj(e.a[1], qt), proj(e.a[1], qv), proj(lv, qt), proj(lv, qv)


def vote_atomic(cx):
    """A ballot is read, decided on and written under one lock that every writer of the ballot holds."""
    common = None
    n = 0
    for r, t, i, e in save_events(cx):
        L = base_load(t, i)
        if L is None or not is_ok(L, e.facts):
            cx.bad('write-without-read', where(e), 'a ballot is written that is not derived from the stored ballot', t, e)
            continue
        gs = common_guard(L, e)
        locks = {h[0] for h in gs}
        common = locks if common is None else common & locks
        n += 1
        cx.check(locks, 'no-lock:' + fnname(e.fn), where(e),
                 'the ballot is read and written without a lock that spans both: another request can vote in between', t, e)
    if n and common is not None:
        cx.check(common, 'no-common-lock', '-', 'no single lock is held by every writer of the ballot')
        for r in ballot_roots(cx):
            for name, locks in cx.A.runs[r].reread:
                cx.check(name != LOAD or locks & common, 'reread:' + r, r, 'the ballot is read twice under a lock that its writers do not take')
    cx.floor(n, 3, 'read-modify-write of the ballot')


def term_monotonic(cx):
    """Every ballot written has a term not lower than the one it replaces."""
    n = 0
    for r, t, i, e in save_events(cx):
        L = base_load(t, i)
        if L is None:
            continue
        nt, nv, ot, ov = ballot_terms(cx, e, L)
        n += 1
        cx.check(e.facts.le(ot, nt), 'term-decreases:' + fnname(e.fn), where(e),
                 f'the term written ({show(nt)[:80]}) is not shown to be at least the stored one', t, e)
    cx.floor(n, 3, 'ballot writes')


def ballot_lock(cx):
    """the locks that every writer of the ballot holds from reading it to writing it"""
    if 'ballot_lock' not in cx.memo:
        common = None
        for r, t, i, e in save_events(cx):
            L = base_load(t, i)
            locks = {h[0] for h in common_guard(L, e)} if L else set()
            common = locks if common is None else common & locks
        cx.memo['ballot_lock'] = common or set()
    return cx.memo['ballot_lock']


def leading_spans(cx, t, i, f):
    """spans in which the path knows the node to lead one term: (the term, a, s, b): the ballot was read at a and,
    unless it is kept from being written, again at b with the same term; the node was found to be leader at s"""
    qt, qv = cx.ballot_q()
    L = [(g, proj(ok_of(g.ret), qt)) for g in t.events[:i] if iscall(g, LOAD) and is_ok(g, f)]
    loc = cx.state_loc()
    S = [x[2] for x, v in f.var.items() if x[0] == 'cell' and x[1] == loc and v == 'Leader']
    out = []
    for g, x in L:
        ends = [h.ret[3] for h, y in L if h.ret[3] > g.ret[3] and (f.eq(x, y) or same(x, y, f))]
        if {h[0] for h in common_guard(g, t.events[i])} & ballot_lock(cx):
            ends.append(1 << 60)
        out += [(x, g.ret[3], s, b) for b in ends for s in S if g.ret[3] < s < b]
    return out


def serial_of(x):
    """when the value was read"""
    return x[3] if x[0] == 'res' else x[2] if x[0] in ('cell', 'ld') else None


def vote_not_withdrawn(cx):
    """Within a term the recorded vote is replaced only by what the leader of that term says."""
    n = 0
    hb_leader = None
    for r, t, i, e in save_events(cx):
        L = base_load(t, i)
        if L is None:
            continue
        nt, nv, ot, ov = ballot_terms(cx, e, L)
        f = e.facts
        if f.lt(ot, nt):
            cx.ok('new-term', where(e))
            continue
        n += 1
        if same(nv, ov, f) or is_none(ov, f):
            cx.ok('kept', where(e))
            continue
        if r == 'rpc:send_heartbeat':
            leader = heartbeat_leader(cx, nv)
            cx.check(leader, 'vote-replaced:' + fnname(e.fn), where(e),
                     'the vote of the current term is replaced by something else than the sender of the heartbeat', t, e)
        else:
            cx.bad('vote-replaced:' + fnname(e.fn), where(e),
                   'the vote recorded for the current term may be replaced by another one in the same term', t, e)
    cx.floor(n, 2, 'ballot writes within the term')


def heartbeat_leader(cx, nv):
    q = cx.gen('Heartbeat') + '.leader_id'
    lid = ('fld', cx.arg('rpc:send_heartbeat', 2), q)
    return nv[0] == 'agg' and nv[3] == 'Some' and contains_term(nv, lid)


def vote_req(cx, f):
    return ('fld', cx.arg('rpc:request_vote', 2), cx.gen('VoteRequest') + '.' + f)


def granted(cx, t):
    """facts under which the reply of this path grants the vote; [] when it does not"""
    if t.end != 'ret' or t.ret is None:
        return []
    q = None
    for x in walk(t.ret):
        if x[0] == 'agg' and x[2].endswith('VoteResponse'):
            q = afield(x, 'vote_granted')
    if q is None:
        if t.ret[0] == 'agg' and t.ret[3] == 'Err':
            return []
        raise AnchorMissing('vote_granted in the reply of request_vote')
    return t.facts.assume(q, True)


def candidate_is(cx, v, facts):
    """is v the node named in the vote request?"""
    cid = vote_req(cx, 'candidate_id')
    if v[0] == 'agg' and v[3] == 'Some':
        v = v[4][0][1]
    if contains_term(v, cid):
        return True
    for k, val in facts.bools.items():
        if val and k[0] == 'eqv' and ((k[1] == v and contains_term(k[2], cid)) or (k[2] == v and contains_term(k[1], cid))):
            return True
    return False


def grant_paths(cx):
    if 'grants' in cx.memo:
        return cx.memo['grants']
    out = []
    for t in cx.traces('rpc:request_vote', 'ret'):
        for f in granted(cx, t):
            pv = f.truth(vote_req(cx, 'pre_vote'))
            out.append((t, f, pv))
    cx.memo['grants'] = out
    return out


def vote_recorded(cx):
    """A vote is granted only if it is stored, for the requested term and candidate, before the reply,
    and the stored ballot did not hold a vote for another node in that term."""
    qt, qv = cx.ballot_q()
    n = 0
    for t, f, pv in grant_paths(cx):
        if pv is True:
            continue
        n += 1
        w = fnname(t.events[-1].fn) if t.events else '?'
        ls = calls(t, LOAD)
        if not ls or not is_ok(ls[-1], f):
            cx.bad('grant-without-ballot', w, 'a vote is granted without reading the stored ballot', t)
            continue
        saves = [(i, e) for i, e in enumerate(t.events) if iscall(e, SAVE)]
        L = base_load(t, saves[-1][0]) if saves else ls[-1]
        L = L or ls[-1]
        lv = ok_of(L.ret)
        ot, ov = proj(lv, qt), proj(lv, qv)
        rt = vote_req(cx, 'vote_term')
        # what the store held allows the vote
        cx.check(f.le(ot, rt), 'stale-term-granted', where(L), 'a vote is granted for a term older than the stored one', t)
        free = f.lt(ot, rt) or is_none(ov, f) or (is_some(ov, f) and candidate_is(cx, some_of(ov), f))
        cx.check(free, 'double-vote', where(L),
                 'a vote is granted although the stored ballot may name another candidate for the same term', t)
        already = f.eq(ot, rt) and is_some(ov, f) and candidate_is(cx, some_of(ov), f)
        if not saves:
            cx.check(already, 'grant-not-stored', w, 'a vote is granted that is not stored', t)
            continue
        e = saves[-1][1]
        v = e.a[1]
        cx.check(is_ok(e, f), 'store-error-ignored', where(e), 'a vote is granted although storing it may have failed', t, e)
        cx.check(f.eq(proj(v, qt), rt), 'wrong-term-stored', where(e), 'the stored ballot has not the term the vote was granted in', t, e)
        nv = proj(v, qv)
        cx.check(is_some(nv, f) and candidate_is(cx, some_of(nv), f), 'wrong-vote-stored', where(e),
                 'the stored ballot does not name the candidate the vote was granted to', t, e)
    cx.floor(n, 4, 'paths granting a real vote')


def last_clock(cx, t, f):
    """the node's view of its last log entry on this path -> ('zero',) or ('clock', term, index) or None"""
    eq, cq = cx.entry_q()
    for i, e in enumerate(t.events):
        if iscall(e, LAST) and is_ok(e, f):
            li = ok_of(e.ret)
            if f.eq(li, C(0)):
                return ('zero',)
            for g in t.events[i + 1:]:
                if iscall(g, GET) and is_ok(g, f) and f.eq(g.a[1], li):
                    ent = some_of(ok_of(g.ret))
                    c = proj(ent, eq + '.this_clock')
                    return ('clock', proj(c, cq + '.term'), proj(c, cq + '.index'))
    return None


def vote_up_to_date(cx):
    """A vote or pre-vote is granted only if the candidate's last log entry is not older than the voter's."""
    n = 0
    cc = some_of(vote_req(cx, 'candidate_clock'))
    g = cx.gen('Clock')
    ct, ci = ('fld', cc, g + '.term'), ('fld', cc, g + '.index')
    for t, f, pv in grant_paths(cx):
        n += 1
        w = fnname(t.events[-1].fn)
        lc = last_clock(cx, t, f)
        if lc is None:
            cx.bad('no-log-check', w, 'a vote is granted without comparing the last log entries', t)
            continue
        if lc[0] == 'zero':
            cx.ok('empty-log', w)
            continue
        good = f.lt(lc[1], ct) or (f.eq(lc[1], ct) and f.le(lc[2], ci)) or (f.le(lc[1], ct) and f.le(lc[2], ci))
        cx.check(good, 'older-log-granted', w,
                 "a vote is granted although the candidate's last entry may be older than the voter's", t)
    cx.floor(n, 4, 'paths granting a vote')


def vote_rpcs(cx, roots=None):
    """every vote request sent: (root, trace, index, event, message)"""
    out = []
    for r in (roots or ('rpc:send_timeout_now', 'task:election')):
        seen = set()
        for t in cx.traces(r):
            for i, e in enumerate(t.events):
                if e.kind == 'rpc' and e.a[0] == 'request_vote':
                    k = (e.a, e.held, e.facts.key(), history(t))
                    if k in seen:
                        continue
                    seen.add(k)
                    m = next((x for x in walk(e.a) if x[0] == 'agg' and x[2].endswith('VoteRequest')), None)
                    out.append((r, t, i, e, m))
    return out


def candidate_clock_sent(cx):
    """A candidate announces the clock of the last entry of its own log."""
    eq, cq = cx.entry_q()
    n = 0
    for r, t, i, e, m in vote_rpcs(cx):
        if m is None:
            cx.bad('vote-message', where(e), 'a vote request whose content is not known is sent', t, e)
            continue
        n += 1
        c = afield(m, 'candidate_clock')
        c = some_of(c)
        term, idx = proj(c, 'x.term'), proj(c, 'x.index')
        good = False
        for j, g in enumerate(t.events[:i]):
            if iscall(g, LAST) and is_ok(g, e.facts):
                for h in t.events[j:i]:
                    if iscall(h, GET) and is_ok(h, e.facts) and e.facts.eq(h.a[1], ok_of(g.ret)):
                        k = proj(some_of(ok_of(h.ret)), eq + '.this_clock')
                        if proj(k, cq + '.term') == term and proj(k, cq + '.index') == idx:
                            good = True
        if not good and term == C(0) and idx == C(0):
            good = True
        cx.check(good, 'candidate-clock', where(e), 'the announced log clock is not the one of the last log entry', t, e)
        me = afield(m, 'candidate_id')
        cx.check(contains_term(me, cx.self_id()), 'candidate-id', where(e), 'the request names another candidate than the sender', t, e)
    cx.floor(n, 4, 'vote requests sent')


def promote_roots(cx):
    out = []
    for r in cx.process_roots():
        if any(True for t in cx.A.runs[r].traces for e in t.events if variant_sets(e, ('Leader',)) and e.a[0][0] == 'cell' and e.a[0][1] == cx.state_loc()):
            out.append(r)
            cx.roots_used.add(r)
    return out


def leader_events(cx):
    if 'leaders' not in cx.memo:
        out = []
        for r in promote_roots(cx):
            seen = set()
            for t in cx.A.runs[r].traces:
                for i, e in cx.state_sets(t, ('Leader',)):
                    k = (e.site, e.held, e.facts.key(), history(t))
                    if k not in seen:
                        seen.add(k)
                        out.append((r, t, i, e))
        cx.memo['leaders'] = out
    return cx.memo['leaders']


def vote_cells(cx, facts, before=None):
    """membership snapshots this path found itself in"""
    me = cx.self_id()
    out = []
    for k, v in facts.bools.items():
        if v and k[0] == 'has' and k[2] == me and k[1][0] == 'cell' and k[1][1] == cx.membership():
            out.append(k[1])
    return out


def majority(cx, r, facts, cell, m_ok):
    """does the path show that more than half of `cell`, the node itself included, is for it?
    m_ok(message) selects the vote requests that count"""
    n = ('len', cell)
    lens = {x for l in facts.log for x in walk(l) if x[0] == 'len' and x[1] == cell}
    n = next(iter(lens), n)
    half = ('bin', 'Div', n, C(2))
    if facts.le(half, C(0)) or facts.le(n, C(1)):
        return 'alone'
    # the counters of this path
    phis = cx.run(r).phis
    cand = set()
    for (x, y) in list(facts.edges):
        for z in (x, y):
            if isinstance(z, tuple) and z and z[0] == 'phi' and z in phis:
                cand.add(z)
    for c in cand:
        for k in (0, 1):
            T = mk_add(c, k)
            if facts.le(half, T):
                why = counts_grants(cx, r, c, cell, m_ok)
                if why is True:
                    # T = c + 1 on this path: the last one counted must be a grant too
                    if k == 1 and not facts.le(half, c) and not any(grant_fact(cx, l, cell, m_ok) for l in facts.log):
                        continue
                    return 'counted'
        # the counter includes the node's own vote
        for k in (0, 1):
            T = mk_add(c, k)
            if facts.lt(half, T) and counts_grants(cx, r, c, cell, m_ok, 1) is True:
                return 'counted'
    # a counter of the grants still missing that goes down from at least half to zero
    for c in {x for l in facts.log for x in walk(l) if x[0] == 'phi' and x in phis} | cand:
        for k in (0, -1):
            if not facts.le(mk_add(c, k), C(0)):
                continue
            starts = [v for v in phis[c] if facts.le(half, v)]
            if any(counts_grants(cx, r, c, cell, m_ok, v, -1) is True for v in starts):
                if k == -1 and not facts.le(c, C(0)) and not any(grant_fact(cx, l, cell, m_ok) for l in facts.log):
                    continue
                return 'counted'
    for k in (1, 2):
        if facts.le(half, C(k)):
            # first answers counted without a generic iteration
            g = sum(1 for l in facts.log if grant_fact(cx, l, cell, m_ok))
            if g >= k:
                return 'counted'
    return None


def grant_fact(cx, l, cell, m_ok):
    """is the fact `the peer granted the vote`?"""
    if l[0] != 'b' or l[2] is not True:
        return False
    x = l[1]
    if not isf(x, 'vote_granted'):
        return False
    for y in walk(x):
        if y[0] == 'res' and y[1] == 'rpc.request_vote':
            m = next((z for z in walk(y) if z[0] == 'agg' and z[2].endswith('VoteRequest')), None)
            return m is not None
    return False


def counts_grants(cx, r, phi, cell, m_ok, start=0, step=1):
    """does the loop counter only go up (or down), by one, on answers that grant the vote?"""
    run = cx.run(r)
    start = C(start) if isinstance(start, int) else start
    if phi not in run.phis:
        return None
    for v in run.phis[phi]:
        if v == start or v == phi:
            continue
        inc = v == mk_add(phi, step) or v == mk_add(start, step)
        if not inc:
            return False
        for fs in run.phi_src.get((phi, v), ()):
            if not any(grant_fact(cx, l, cell, m_ok) for l in fs):
                return False
    return True


def leader_majority(cx):
    """A node becomes leader only after it stored its own vote for a new term and peers that make up a
    majority with it, in the membership it belongs to, granted their vote in that term."""
    qt, qv = cx.ballot_q()
    me = cx.self_id()
    n = 0
    for r, t, i, e in leader_events(cx):
        f = e.facts
        n += 1
        saves = [(j, s) for j, s in enumerate(t.events[:i]) if iscall(s, SAVE)]
        if not saves:
            cx.bad('no-self-vote', where(e), 'the node becomes leader without storing a vote for itself', t, e)
            continue
        j, s = saves[-1]
        L = base_load(t, j)
        nt, nv, ot, ov = ballot_terms(cx, s, L) if L else (None,) * 4
        cx.check(is_ok(s, f), 'self-vote-error', where(s), 'the node goes on although storing its own vote may have failed', t, e)
        cx.check(L is not None and f.lt(ot, nt), 'no-new-term', where(s), 'the term of the election is not a new one', t, e)
        cx.check(nv == Some(me) or (is_some(nv, f) and same(some_of(nv), me, f)), 'self-vote', where(s),
                 "the ballot stored for the election does not hold the node's vote for itself", t, e)
        cx.check(common_guard(s, e), 'vote-lock-released', where(e),
                 'the ballot may change between the vote of the node for itself and its becoming leader', t, e)
        asked = [g for g in t.events[j:i] if g.kind == 'rpc' and g.a[0] == 'request_vote']
        for g in asked:
            m = next((x for x in walk(g.a) if x[0] == 'agg' and x[2].endswith('VoteRequest')), None)
            if m is None:
                continue
            cx.check(f.eq(afield(m, 'vote_term'), nt), 'vote-term', where(g), 'votes are asked for another term than the one voted in', t, g)
            cx.check(f.truth(afield(m, 'pre_vote')) is False, 'pre-vote-counted', where(g), 'pre-votes are counted as votes', t, g)
        good = None
        for cell in vote_cells(cx, f):
            # the membership asked for this election: read after the vote was stored
            if cell[2] < (newest_serial(s.ret) or 0):
                continue
            good = good or majority(cx, r, f, cell, None)
        if good is None:
            for cell in vote_cells(cx, f):
                if all(contains_term(g.a[1], cell) for g in asked):
                    good = good or majority(cx, r, f, cell, None)
        if good == 'counted':
            for g in asked:
                d = g.a[1]
                cells = [x for x in walk(d) if x[0] == 'cell' and x[1] == cx.membership()]
                cx.check(cells, 'voters', where(g), 'votes are counted from nodes that are not taken from the membership', t, g)
                ne = [k for k, v in f.bools.items() if k[0] == 'eqv' and v is False and me in (k[1], k[2])]
        cx.check(good, 'no-majority', where(e),
                 'the node becomes leader on a path that does not show votes of a majority of the membership', t, e)
    cx.floor(n, 4, 'paths becoming leader')


def newest_serial(t):
    out = None
    if t is None:
        return None
    for x in walk(t):
        if x[0] in ('res', 'cell', 'ld') and isinstance(x[-1], int):
            out = max(out or 0, x[-1])
    return out


def voters_distinct(cx):
    """The nodes asked for a vote are the members other than the node itself, each asked once."""
    me = cx.self_id()
    n = 0
    for r, t, i, e, m in vote_rpcs(cx):
        d = e.a[1]
        el = [x for x in walk(d) if x[0] in ('elem', 'mkey')]
        src = [x for x in walk(d) if x[0] == 'cell' and x[1] == cx.membership()]
        n += 1
        cx.check(src and el, 'not-a-member', where(e), 'a vote is asked from a node that is not taken from the membership', t, e)
    # the collection of requests leaves out the node itself
    bad = None
    seen = 0
    for r in ('rpc:send_timeout_now', 'task:election'):
        for t in cx.traces(r):
            for e in t.events:
                if e.kind == 'rpc' and e.a[0] == 'request_vote':
                    seen += 1
                    d = next((x for x in walk(e.a[1]) if x[0] in ('elem', 'mkey')), None)
                    ex = d is not None and (e.facts.bools.get(('eqv',) + eq_key(d, me)) is False or e.facts.bools.get(('eqv',) + eq_key(e.a[1], me)) is False)
                    cx.check(ex, 'self-counted-twice', where(e),
                             'the node may also be asked for a vote itself and be counted twice', t, e)
                    break
            if seen > 300:
                break
    cx.floor(n, 4, 'vote requests sent')


def vote_before_ask(cx):
    """Votes are asked for only after the node stored its own vote for that term."""
    qt, qv = cx.ballot_q()
    n = 0
    for r, t, i, e, m in vote_rpcs(cx):
        if m is None or e.facts.truth(afield(m, 'pre_vote')) is True:
            continue
        n += 1
        saves = [s for s in t.events[:i] if iscall(s, SAVE)]
        good = saves and is_ok(saves[-1], e.facts) and e.facts.eq(proj(saves[-1].a[1], qt), afield(m, 'vote_term'))
        cx.check(good, 'asked-before-stored', where(e), "votes are asked for before the node's own vote is stored", t, e)
    cx.floor(n, 2, 'real vote requests sent')


EFFECTS = ('set', 'store', 'swap', 'fetch_add', 'fetch_sub', 'fetch_max', 'insert', 'remove', 'send', 'rpc', 'spawn', 'abort', 'notify')


def effects(t):
    """events that change state anyone else can see"""
    out = []
    for i, e in enumerate(t.events):
        if e.kind in EFFECTS or (e.kind == 'call' and e.a[0] in (
                SAVE, 'RaftLogStore::insert_entry', 'RaftLogStore::delete_entries_before', 'RaftApp::process_write',
                'RaftApp::install_snapshot', 'RaftApp::save_snapshot', 'RaftApp::delete_snapshots_before')):
            out.append((i, e))
    return out


def prevote_pure(cx):
    """Answering a pre-vote changes nothing on the voter."""
    pv = vote_req(cx, 'pre_vote')
    n = 0
    seen = set()
    for t in cx.traces('rpc:request_vote'):
        for i, e in effects(t):
            k = (e.site, e.kind, e.facts.truth(pv))
            n += 1
            if k in seen:
                continue
            seen.add(k)
            cx.check(e.facts.truth(pv) is False, 'prevote-effect:' + e.kind, where(e),
                     'a pre-vote request changes the state of the voter', t, e)
    cx.floor(n, 3, 'effects of vote requests')
    cx.floor(sum(1 for t, f, p in grant_paths(cx) if p is True), 2, 'paths granting a pre-vote')


def prevote_first(cx):
    """A node raises its term for an election only after a majority said it would vote for it in that term."""
    qt, qv = cx.ballot_q()
    me = cx.self_id()
    n = 0
    for r, t, i, e in save_events(cx):
        nt, nv = proj(e.a[1], qt), proj(e.a[1], qv)
        if nv != Some(me):
            continue
        n += 1
        f = e.facts
        asked = [g for g in t.events[:i] if g.kind == 'rpc' and g.a[0] == 'request_vote']
        good = None
        for cell in vote_cells(cx, f):
            good = good or majority(cx, r, f, cell, None)
        cx.check(good, 'no-prevote-majority', where(e),
                 'the term is raised on a path that does not show the pre-votes of a majority', t, e)
        for g in asked:
            m = next((x for x in walk(g.a) if x[0] == 'agg' and x[2].endswith('VoteRequest')), None)
            if m is None:
                continue
            cx.check(f.truth(afield(m, 'pre_vote')) is True, 'prevote-flag', where(g), 'the pre-vote is asked for as a real vote', t, g)
            cx.check(f.eq(afield(m, 'vote_term'), nt), 'prevote-term', where(g), 'the pre-vote is asked for another term than the election uses', t, g)
    cx.floor(n, 2, 'self-votes')


def detector_failed(cx, facts, after=0):
    """facts that say: the failure detector was asked (after serial `after`) and found the leader dead"""
    for l in facts.log:
        if l[0] == 'cmp':
            for side, op in ((2, 'Lt'), (3, 'Lt')):
                pass
            phi_l = any(x[0] == 'pf' and 'NormalDist::phi' in str(x[1]) for x in walk(l[2]))
            phi_r = any(x[0] == 'pf' and 'NormalDist::phi' in str(x[1]) for x in walk(l[3]))
            src = [x for y in (l[2], l[3]) for x in walk(y) if x[0] == 'cell']
            ser = max([x[2] for x in src] or [0])
            if ser < after:
                continue
            if phi_r and l[1] in ('Lt',) or phi_l and l[1] in ('Gt',):
                return True
    return False


def failure_asked(cx, facts):
    """(when, did it find the leader dead) for every time the failure detector was asked on the path"""
    out = []
    for l in facts.log:
        if l[0] == 'cmp':
            L, R = ([x for x in walk(y) if x[0] == 'pf' and 'NormalDist::phi' in str(x[1])] for y in (l[2], l[3]))
            if not L and not R:
                continue
            ser = max([x[2] for y in (l[2], l[3]) for x in walk(y) if x[0] == 'cell'] or [0])
            if l[1] in ('Lt', 'Gt'):
                out.append((ser, bool(R and l[1] == 'Lt' or L and l[1] == 'Gt')))
            elif l[1] in ('Le', 'Ge'):
                out.append((ser, False))
    return out


def sticky_voter(cx):
    """While a voter hears from its leader it neither votes nor changes its ballot or role for a candidate,
    unless the leadership is being transferred."""
    fv = vote_req(cx, 'force_vote')
    n = 0
    seen = set()
    for t in cx.traces('rpc:request_vote'):
        for i, e in effects(t):
            f = e.facts
            good = f.truth(fv) is True or detector_failed(cx, f)
            k = (e.site, good)
            n += 1
            if k in seen:
                continue
            seen.add(k)
            cx.check(good, 'disruption:' + e.kind, where(e), 'a vote request changes the voter although its leader is alive', t, e)
    for t, f, pv in grant_paths(cx):
        good = f.truth(fv) is True or detector_failed(cx, f)
        n += 1
        cx.check(good, 'vote-against-live-leader', fnname(t.events[-1].fn), 'a vote is granted although the leader is alive', t)
    cx.floor(n, 8, 'effects and grants of vote requests')


def forced_only_on_transfer(cx):
    """Only a leadership transfer asks voters to ignore their leader."""
    n = 0
    for r, t, i, e, m in vote_rpcs(cx):
        if m is None:
            continue
        n += 1
        fv = e.facts.truth(afield(m, 'force_vote'))
        if r == 'task:election':
            cx.check(fv is False, 'forced-election', where(e), 'an election after a timeout asks voters to ignore their leader', t, e)
        else:
            cx.check(fv is True, 'transfer-not-forced', where(e), 'a leadership transfer does not override the liveness of the old leader', t, e)
    cx.floor(n, 4, 'vote requests sent')


def election_on_timeout(cx):
    """A node starts an election on its own only when it is a member and a follower whose failure detector,
    asked after the random wait, says that the leader has failed."""
    n = 0
    me = cx.self_id()
    seen = set()
    lock = None
    for t in cx.traces('task:election'):
        sl = -1
        for i, e in enumerate(t.events):
            if e.kind == 'await' and e.a[0] == 'sleep':
                sl = i
            start = (e.kind == 'rpc' and e.a[0] == 'request_vote') or iscall(e, SAVE) or (e.kind == 'acquire' and e.a[2] == 'async')
            if start:
                f = e.facts
                k = (e.site, e.kind, f.key() if len(seen) < 2000 else 0)
                if k in seen:
                    break
                seen.add(k)
                n += 1
                asked = failure_asked(cx, f)
                last = max(asked, key=lambda x: x[0]) if asked else (0, False)
                cx.check(asked and last[1], 'election-without-failure', where(e),
                         'an election starts although the failure detector was not asked', t, e)
                # once the failure is suspected the node waits and asks again
                sus = [s for s, v in asked if v]
                out = any(k[0] == 'has' and k[2] == me and k[1][0] == 'cell' and v is False for k, v in f.bools.items())
                cx.check(len(sus) < 1 or sl >= 0 or out or any(not v for s, v in asked), 'election-without-wait', where(e),
                         'an election starts as soon as the leader is suspected, at the same time on every node', t, e)
                if sl >= 0:
                    cx.check(any(x[0] == 'res' and 'thread_rng' in str(x[1]) or x[0] == 'res' and str(x[1]).startswith(('Rng::', 'rand|')) for x in walk(t.events[sl].a)), 'wait-not-random', where(t.events[sl]),
                             'every node that suspects the leader waits for the same time', t, e)
                    before = [s for s, v in failure_asked(cx, t.events[sl].facts)]
                    cx.check(last[0] > max(before or [0]), 'election-without-asking-again', where(e),
                             'an election starts although the failure detector was not asked after the wait', t, e)
                cx.check(vote_cells(cx, f), 'election-by-non-member', where(e), 'a node that is not a member starts an election', t, e)
                cx.check(cx.state_is(f, 'Follower') is not None, 'election-by-non-follower', where(e),
                         'a node that is already leader or candidate starts an election', t, e)
                break
    cx.floor(n, 1, 'starts of an election')


def hb_field(cx, t, f):
    """terms for the leader's term / commit index in the heartbeat of one process"""
    q = cx.gen('LeaderCommitState') + '.' + f
    out = set()
    for l in t.facts.log:
        for x in walk(l):
            if x[0] == 'fld' and x[2] == q:
                out.add(x)
    for e in t.events:
        for x in walk(e.a):
            if x[0] == 'fld' and x[2] == q:
                out.add(x)
    return out


def stale_heartbeat(cx):
    """A heartbeat of an older term changes nothing: not the ballot, the role, the commit index or the
    failure detector."""
    qt, qv = cx.ballot_q()
    n = 0
    seen = set()
    for t in cx.traces('rpc:send_heartbeat'):
        hts = hb_field(cx, t, 'leader_term')
        for i, e in enumerate(t.events):
            if not (e.kind in EFFECTS or iscall(e, SAVE)):
                continue
            k = (e.site, e.kind, e.facts.key(), history(t))
            if k in seen:
                continue
            seen.add(k)
            n += 1
            L = next((g for g in reversed(t.events[:i]) if iscall(g, LOAD)), None)
            if L is None or not is_ok(L, e.facts):
                cx.bad('unchecked-heartbeat:' + e.kind, where(e), 'a heartbeat takes effect before its term is compared with the stored one', t, e)
                continue
            ot = proj(ok_of(L.ret), qt)
            cx.check(any(e.facts.le(ot, h) for h in hts), 'stale-heartbeat:' + e.kind, where(e),
                     'a heartbeat of an older term takes effect', t, e)
            cx.check(common_guard(L, e), 'heartbeat-unlocked:' + e.kind, where(e),
                     'the term may change between the check of a heartbeat and its effect', t, e)
    cx.floor(n, 5, 'effects of heartbeats')


def names_in(v):
    """names of the fields an aggregate or an update sets"""
    if v[0] == 'agg':
        return [n for n, _ in v[4]]
    return [k.rsplit('.', 1)[-1] for k, _ in v[2] if isinstance(k, str)] if v[0] == 'upd' else []


def heartbeat_learned(cx):
    """After a heartbeat of the current or a newer term the stored ballot has that term and names the
    sender, and the failure detector has seen the sender."""
    qt, qv = cx.ballot_q()
    n = 0
    for t in cx.traces('rpc:send_heartbeat', 'ret'):
        ls = calls(t, LOAD)
        if not ls:
            continue
        if not (t.ret[0] == 'agg' and t.ret[3] == 'Ok'):
            continue
        f = t.facts
        L = ls[-1]
        if not is_ok(L, f):
            continue
        ot, ov = proj(ok_of(L.ret), qt), proj(ok_of(L.ret), qv)
        hts = hb_field(cx, t, 'leader_term')
        if any(f.lt(h, ot) for h in hts):
            continue
        if not any(f.le(ot, h) for h in hts):
            continue
        n += 1
        saves = calls(t, SAVE)
        w = where(L)
        if saves:
            v = saves[-1].a[1]
            if not is_ok(saves[-1], f):
                k = t.events.index(saves[-1])
                cx.check(not any(e.kind in ('set', 'store', 'fetch_max') for e in t.events[k + 1:]), 'ballot-error', where(saves[-1]),
                         'the heartbeat takes effect although the ballot could not be stored', t)
                continue
        else:
            v = ok_of(L.ret)
        cx.check(any(f.eq(proj(v, qt), h) for h in hts), 'term-not-adopted', w, 'the term of the leader is not stored', t)
        nv = proj(v, qv)
        lid = ('fld', cx.arg('rpc:send_heartbeat', 2), cx.gen('Heartbeat') + '.leader_id')
        good = is_some(nv, f) and (contains_term(some_of(nv), lid) or any(
            val and k[0] == 'eqv' and some_of(nv) in (k[1], k[2]) and contains_term(k, lid) for k, val in f.bools.items()))
        cx.check(good, 'leader-not-learned', w, 'the sender of the heartbeat is not stored as the leader', t)
        pings = [e for e in t.events if e.kind == 'set' and isf(e.a[0], 'last_ping') or (e.kind == 'call' and 'add_ping' in str(e.a[0]))]
        cx.check(pings, 'liveness-not-noted', w, 'the failure detector does not see the heartbeat', t)
        cx.check(any(e.kind == 'set' and any(x[0] == 'res' and 'Instant::now' in x[1] for x in walk(e.a[1])) and
                     (isf(e.a[0], 'last_ping') or e.a[1][0] in ('agg', 'upd') and any(isinstance(x, tuple) and isf(x, 'last_ping') or x == 'last_ping' for x in names_in(e.a[1])))
                     for e in t.events), 'time-not-noted', w, 'the time of the last heartbeat is not noted', t)
        cx.check(any(e.kind == 'call' and 'add_ping' in str(e.a[0]) for e in t.events), 'interval-not-noted', w, 'the failure detector is not told the interval of the heartbeats', t)
    cx.floor(n, 4, 'heartbeats accepted')


def leave_leadership(cx):
    """Whenever a node stores a newer term it stops being leader before anyone else can see the ballot."""
    n = 0
    qt, qv = cx.ballot_q()
    for r in ballot_roots(cx):
        seen = set()
        for t in cx.done(r):
            if r.startswith('rpc:') and t.ret is not None and t.ret[0] == 'agg' and t.ret[3] == 'Err':
                continue
            for i, e in enumerate(t.events):
                if not iscall(e, SAVE) or not is_ok(e, t.facts):
                    continue
                L = base_load(t, i)
                if L is None:
                    continue
                nt, nv, ot, ov = ballot_terms(cx, e, L)
                if e.facts.le(nt, ot):
                    continue
                gs = common_guard(L, e)
                drop = any(t.events.index(L) < j < i and any(h in s.held for h in gs) for j, s in cx.state_sets(t, ('Follower', 'Candidate')))
                k = (e.site, drop, e.facts.key(), history(t))
                if k in seen:
                    continue
                seen.add(k)
                n += 1
                cx.check(drop, 'still-leader:' + fnname(e.fn), where(e),
                         'a newer term is stored while the node may go on as the leader of the old one', t, e)
    cx.floor(n, 3, 'ballot writes with a newer term')


def heartbeat_sent_for_own_term(cx):
    """A node announces itself as leader only while it is, and only with the term it holds its own vote in."""
    qt, qv = cx.ballot_q()
    me = cx.self_id()
    n = 0
    for r in cx.process_roots():
        seen = set()
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if e.kind != 'insert':
                    continue
                m = next((x for x in walk(e.a) if x[0] == 'agg' and x[2].endswith('request::Heartbeat')), None)
                if m is None:
                    continue
                k = (e.a, e.facts.key(), history(t))
                if k in seen:
                    continue
                seen.add(k)
                cx.roots_used.add(r)
                n += 1
                f = e.facts
                term = afield(m, 'leader_term')
                L = next((g for g in reversed(t.events[:i]) if iscall(g, LOAD) and is_ok(g, f) and proj(ok_of(g.ret), qt) == term), None)
                cx.check(cx.state_is(f, 'Leader') is not None, 'heartbeat-by-non-leader', where(e), 'a node that is not leader sends heartbeats', t, e)
                if L is None:
                    cx.bad('heartbeat-term', where(e), 'the term announced is not the stored one', t, e)
                    continue
                ov = proj(ok_of(L.ret), qv)
                own = same(ov, Some(me), f) or any(v and kk[0] == 'eqv' and me in walk_set(kk) and ov in walk_set(kk) for kk, v in f.bools.items()) or \
                    (is_some(ov, f) and same(some_of(ov), me, f))
                cx.check(own, 'heartbeat-for-foreign-term', where(e),
                         'the term announced may be one in which another node is the leader', t, e)
                cx.check(any(f.eq(sp[0], term) or same(sp[0], term, f) for sp in leading_spans(cx, t, i, f)), 'heartbeat-of-old-leadership', where(e),
                         'the node may have lost the leadership it found before it read the term, or won it again since', t, e)
    cx.floor(n, 1, 'heartbeats sent')


def walk_set(t):
    return set(walk(t))


def detector_follows_leader(cx):
    """The failure detector starts afresh when the leader changes."""
    n = 0
    for t in cx.traces('rpc:send_heartbeat', 'ret'):
        for i, e in enumerate(t.events):
            if e.kind == 'set' and isf(e.a[0], 'last_ping') or e.kind == 'call' and 'add_ping' in str(e.a[0]):
                f = e.facts
                w = [(k, v) for k, v in f.bools.items() if k[0] == 'eqv' and any(isf(x, 'watch_id') for x in walk(k))]
                if not w:
                    # replaced wholesale without comparing: fine only if it was replaced
                    continue
                n += 1
                if w[-1][1] is False:
                    # another leader: the detector was replaced before the ping was added
                    repl = [g for g in t.events[:i] if g.kind == 'set' and g.a[1][0] in ('agg', 'upd')]
                    cx.check(repl, 'detector-not-reset', where(e), 'the intervals of the old leader are kept for the new one', t, e)
                else:
                    cx.ok('same-leader', where(e))
                break
    cx.floor(n, 2, 'pings of the failure detector')


def failure_measured(cx):
    """The detector compares the silence since the last heartbeat with the intervals between the heartbeats noted before, and
    suspects the leader only when it is far outside of them (phi of 8 or more, the usual bound)."""
    import struct
    n = m = 0

    def since(x):
        return any(isf(y, 'last_ping') for y in walk(x)) and any(y[0] in ('res', 'pf') and 'Instant::' in str(y[1]) for y in walk(x))
    seen = set()
    for r in ('task:election', 'rpc:request_vote'):
        for t in cx.traces(r):
            for l in t.facts.log:
                if l[0] != 'cmp':
                    continue
                for a, b in ((l[2], l[3]), (l[3], l[2])):
                    if a[0] != 'pf' or 'NormalDist::phi' not in str(a[1]) or (r, l) in seen:
                        continue
                    seen.add((r, l))
                    n += 1
                    cx.check(since(a[2][1]), 'silence', r, 'the failure detector is not asked with the time since the last heartbeat', t)
                    if b[0] == 'k' and str(b[1]).isdigit():
                        v = struct.unpack('<d', struct.pack('<Q', int(b[1])))[0]
                        cx.check(v >= 8, 'threshold', r, f'the leader is suspected at phi = {v}: the least delay of a heartbeat would do', t)
    for t, e in {(e.a, e.facts.key()): (t, e) for t in cx.traces('rpc:send_heartbeat') for e in t.events if e.kind == 'call' and 'add_ping' in str(e.a[0])}.values():
        m += 1
        x = e.a[-1]
        now = [y for y in walk(x) if y[0] in ('res', 'pf') and 'Instant::' in str(y[1])]
        cx.check(since(x) or len(set(now)) > 1, 'interval', where(e), 'the interval noted is not the one since the last heartbeat', t, e)
    cx.floor(n, 2, 'questions to the failure detector')
    cx.floor(m, 1, 'intervals noted')


def starts_as_follower(cx):
    """A process starts as a follower without a safe term."""
    w = cx.A.wiring()
    n = 0
    for v in w.get(cx.state_loc(), ()):
        n += 1
        cx.check(v[0] == 'agg' and v[3] == 'Follower', 'starts-as', 'construction of the election state', f'a process starts as {v[3] if v[0] == "agg" else show(v)[:40]}')
    for v in w.get(cx.safe(), ()):
        n += 1
        cx.check(v == C(0), 'safe-from-start', 'construction of the safe term', 'a process starts with a safe term that it has not reached')
    cx.floor(n, 2, 'initial states of the election')


def vote_of_term(cx):
    """A ballot of a new term carries no vote of an earlier one."""
    qt, qv = cx.ballot_q()
    n = 0
    for r in cx.process_roots():
        done = set()
        for t in cx.A.runs[r].traces:
            last = None
            for e in t.events:
                if iscall(e, LOAD) and e.ret is not None:
                    last = ok_of(e.ret)
                if not iscall(e, SAVE) or last is None or (e.a, e.facts.key(), history(t)) in done:
                    continue
                done.add((e.a, e.facts.key(), history(t)))
                v, f = e.a[1], e.facts
                ot, ov = proj(last, qt), proj(last, qv)
                if f.eq(proj(v, qt), ot) or not f.lt(ot, proj(v, qt)):
                    continue
                n += 1
                cx.roots_used.add(r)
                nv = proj(v, qv)
                if any(k[0] == 'eqv' and val is True and contains_term(k, ov) and any(x[0] == 'arg' for x in walk(k)) for k, val in f.bools.items()):
                    # the vote is for the one the message names, whenever it was given
                    cx.ok('named-again', where(e))
                    continue
                known = is_none(nv, f) or nv[0] == 'agg'
                cx.check(known and not (nv[0] == 'agg' and any(contains_term(x, ov) for _, x in nv[4])), 'old-vote-kept', where(e), 'a vote of an earlier term is stored with the new term', t, e)
    cx.floor(n, 4, 'ballots of a new term')


def differs_from_candidate(cx, v, facts):
    """does the path know that the vote v is for a node other than the one named in the request?"""
    cid = vote_req(cx, 'candidate_id')
    vs = (v, some_of(v))
    return any(val is False and k[0] == 'eqv' and any(a in vs and contains_term(b, cid) for a, b in ((k[1], k[2]), (k[2], k[1])))
               for k, val in facts.bools.items())


def refused_for_reason(cx):
    """A vote is refused only because the leader is alive, the term is old, the log of the candidate is behind, or another candidate
    has the vote of that term."""
    qt, qv = cx.ballot_q()
    n = 0
    cc = some_of(vote_req(cx, 'candidate_clock'))
    g = cx.gen('Clock')
    ct, ci = ('fld', cc, g + '.term'), ('fld', cc, g + '.index')
    rt = vote_req(cx, 'vote_term')
    fv = vote_req(cx, 'force_vote')
    for t in cx.traces('rpc:request_vote', 'ret'):
        q = next((afield(x, 'vote_granted') for x in walk(t.ret) if x[0] == 'agg' and x[2].endswith('VoteResponse')), None) if t.ret else None
        if q is None:
            continue
        for f in t.facts.assume(q, False):
            n += 1
            w = fnname(t.events[-1].fn)
            if f.truth(fv) is False and not detector_failed(cx, f):
                cx.ok('leader-alive', w)
                continue
            ls = calls(t, LOAD)
            lv = ok_of(ls[0].ret) if ls and is_ok(ls[0], f) else None
            if lv is None:
                cx.bad('refused-blindly', w, 'a vote is refused without reading the ballot', t)
                continue
            ot, ov = proj(lv, qt), proj(lv, qv)
            lc = last_clock(cx, t, f)
            older = lc is not None and lc[0] == 'clock' and (f.lt(ct, lc[1]) or f.eq(ct, lc[1]) and f.lt(ci, lc[2]))
            other = f.le(rt, ot) and is_some(ov, f) and differs_from_candidate(cx, ov, f)
            cx.check(f.lt(rt, ot) or older or other, 'refused', w, 'a vote is refused to a candidate that deserves it', t)
    cx.floor(n, 4, 'refusals of a vote')
