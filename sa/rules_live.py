"""Failures and activities: what a failed step stops, which activities run for ever, and what they wait for."""
from base import *
from engine import shape
from rules_election import SAVE, LOAD, LAST, GET
from rules_log import *
from rules_apply import distinct, cells_of, cell_of, fields_named, on_cell
from rules_snapshot import SNAPSAVE, SNAPINST
from rules_member import failed

STATEFUL = (SAVE, INS, DELF, WRITE, SNAPINST, SNAPSAVE)
POINTER_MOVES = ('store', 'fetch_max', 'fetch_add', 'swap')


def turn_start(e):
    """does a new turn of an activity, or the next element of a stream, begin here?"""
    return e.kind == 'item' or e.kind == 'await' and e.a[0] in ('next', 'tick', 'notified', 'sleep', 'timeout', 'recv', 'yield_now')


def follow_up(cx, g):
    """is g a step that others see: a write, a move of an index, a message?"""
    if g.kind == 'call':
        return g.a[0] in STATEFUL
    if g.kind in POINTER_MOVES:
        return g.a[0][0] == 'g' and g.a[0][1].rsplit('.', 1)[-1] in POINTERS
    return g.kind in ('send', 'rpc')


def failure_stops(cx):
    """After a write of a ballot, an entry or a snapshot, or the application of an entry, nothing more of the operation
    happens unless the write is known to have succeeded."""
    n = 0
    for r in cx.process_roots():
        done = set()
        for t in cx.A.runs[r].traces:
            for i, e in enumerate(t.events):
                if not (e.kind == 'call' and e.a[0] in STATEFUL):
                    continue
                if iscall(e, INS) and cmd_kind(e.facts, entry_parts(cx, e.a[2])[2]) == 'CompleteRequest':
                    # nothing depends on it
                    continue
                for g in t.events[i + 1:]:
                    if turn_start(g):
                        break
                    if follow_up(cx, g):
                        k = (e.a, g.kind, g.a[0], g.site, is_ok(e, g.facts))
                        if k in done:
                            break
                        done.add(k)
                        cx.roots_used.add(r)
                        n += 1
                        cx.check(is_ok(e, g.facts), 'goes-on:' + e.a[0].split('::')[-1], where(g),
                                 f'the activity goes on although {e.a[0].split("::")[-1]} at {e.site.split("/")[-1]} may have failed', t, g)
                        break
    cx.floor(n, 15, 'steps after a write')


BEST_EFFORT = ('request_vote', 'send_heartbeat')


def fallible(e):
    return e.kind == 'call' and e.a[0].split('::')[0] in ('RaftBallotStore', 'RaftLogStore', 'RaftApp') or e.kind == 'rpc' and e.a[0] not in BEST_EFFORT


def ok_result(t):
    x = t.ret
    return x is not None and (x[0] == 'agg' and x[3] == 'Ok' or x[0] != 'agg' and t.facts.variant(x) != 'Err')


ANSWERED = ('rpc:write', 'rpc:read', 'rpc:process_kern_request', 'rpc:add_server', 'rpc:remove_server', 'rpc:request_vote',
            'rpc:send_replication_stream', 'rpc:get_snapshot')


def success_means_done(cx):
    """A request is answered with success, and a node starts, only if every access to the stores, every call of the
    application and every request passed on for it succeeded."""
    n = 0
    for r in ANSWERED + ('boot',):
        ends = [t for t in cx.traces(r, 'ret') if ok_result(t)]
        cx.floor(len(ends), 1, 'successful ends of ' + r)
        good, known = set(), set()
        # the steps of a turn of a loop count at its end: a path that leaves the loop forgets them
        for t in ends + list(cx.traces(r, ('iter', 'turn'))):
            for e in t.events[t.loop[2] if t.loop else 0:]:
                if not (fallible(e) and e.ret is not None):
                    continue
                n += 1
                k = (e.a[0], e.site)
                good.add(k)
                if is_ok(e, t.facts) or t.ret == e.ret:
                    known.add(k)
                elif not (r == 'boot' and t.loop):
                    cx.check(t.facts.variant(e.ret) != 'Err', 'success-unsure:' + k[0].split('::')[-1], where(e),
                             f'success is reported although {k[0]} failed', t, e)
        for k in good - known:
            cx.bad('success-unchecked:' + k[0].split('::')[-1], k[1], f'success is reported whether or not {k[0]} succeeds')
        for k in good:
            cx.ok('success:' + k[0].split('::')[-1], k[1])
    cx.floor(n, 20, 'steps of successful requests')


def administered(cx):
    """A membership request is answered with success only after it was passed on, with the command and the shard asked for, or the
    cluster was formed by it here."""
    n = 0
    for r in ('rpc:add_server', 'rpc:remove_server'):
        for t in cx.traces(r, 'ret'):
            if not ok_result(t):
                continue
            n += 1
            w = fnname(t.events[-1].fn) if t.events else r
            sent = [e for e in t.events if e.kind == 'rpc' and e.a[0] == 'process_kern_request' and is_ok(e, t.facts)]
            formed = [e for e in t.events if iscall(e, INS) and is_ok(e, t.facts) or e.kind == 'load' and e.a[0] == cx.snapp() and t.facts.eq(e.ret, C(1))]
            cx.check(sent or r == 'rpc:add_server' and formed, 'not-done', w, 'success is reported for a membership change that nobody was asked for', t)
            for e in sent:
                want = 'AddServer' if r == 'rpc:add_server' else 'RemoveServer'
                cx.check(any(x[0] == 'agg' and x[1] == 'enum' and x[3] == want and any(isf(y, 'server_id') for y in walk(x)) for x in walk(e.a[2])), 'asked-other', where(e),
                         'another change is asked for than the one requested', t, e)
    cx.floor(n, 2, 'successful membership requests')


# ---------------------------------------------------------------- locks
def lname(l):
    return l[1].split('::')[-1] if l[0] == 'g' else show(l)[:60]


def lock_roots(cx):
    rs = cx.process_roots() + ['node:new', 'node:attach', 'node:detach', 'node:driver', 'node:get', 'connection']
    rs += [r for r in cx.A.tasks() + list(cx.A.runs) if r not in rs and r.split(':')[0] in ('bg', 'task', 'stream', 'ballot', 'log', 'backend', 'drop')]
    cx.need(*rs)
    cx.roots_used.update(rs)
    return list(dict.fromkeys(rs))


def same_lock_order(cx):
    """No lock is asked for while the same lock is held, and the order in which locks are taken has no cycle."""
    order, n = {}, 0
    for r in lock_roots(cx):
        done = set()
        for t in cx.A.runs[r].traces:
            for e in t.events:
                if e.kind != 'acquire' or (e.a, e.held, e.site) in done:
                    continue
                done.add((e.a, e.held, e.site))
                n += 1
                for h in e.held:
                    if h[0] == e.a[0]:
                        cx.check(h[1] == 'r' and e.a[1] == 'r', 'again:' + lname(e.a[0]), where(e), f'{lname(e.a[0])} is asked for while it is held: the request waits for itself', t, e)
                    else:
                        order.setdefault(h[0], {}).setdefault(e.a[0], (r, t, e))
                        cx.ok('after:' + lname(h[0]), where(e))

    def reach(a, b, seen):
        for c in order.get(a, ()):
            if c == b or c not in seen and not seen.add(c) and reach(c, b, seen):
                return True
        return False
    for a in order:
        for b, (r, t, e) in order[a].items():
            cx.check(not reach(b, a, set()), 'order:' + '/'.join(sorted((lname(a), lname(b)))), where(e),
                     f'{lname(b)} is asked for while {lname(a)} is held, and elsewhere the other way round', t, e)
    cx.floor(n, 60, 'lock acquisitions')


def no_wait_under_spin(cx):
    """No guard of a blocking lock is held across a suspension, a request to a node, an access to a store or a call of the application,
    unless only one activity, of which there is one, ever takes the lock."""
    n, users, bad = 0, {}, []
    for r in lock_roots(cx):
        done = set()
        for t in cx.A.runs[r].traces:
            for e in t.events:
                if e.kind == 'acquire' and e.a[2] == 'spin':
                    users.setdefault(e.a[0], set()).add(r)
                waits = e.kind in ('await', 'rpc') or e.kind == 'call' and e.a[0].split('::')[0] in ('RaftBallotStore', 'RaftLogStore', 'RaftApp')
                if not waits or (e.a, e.held, e.site) in done:
                    continue
                done.add((e.a, e.held, e.site))
                n += 1
                sp = [h for h in e.held if h[2] == 'spin']
                for h in sp:
                    bad.append((h[0], r, t, e))
                if not sp:
                    cx.ok('free', where(e))
    for l, r, t, e in bad:
        one = users.get(l, set()) <= {r} and r.startswith('task:') and r not in ('task:replication', 'task:heartbeat')
        cx.check(one, 'blocked:' + lname(l), where(e), f'the blocking lock {lname(l)} is held while the activity waits ({e.kind} {e.a[0]})', t, e)
    cx.floor(n, 60, 'waits')


def bounded_under_lock(cx):
    """While a lock is held, nothing is waited for without bound: only for other locks, for a fixed time, or for an answer of another
    node that is given up after a fixed time."""
    n = 0
    for r in lock_roots(cx):
        done = set()
        for t in cx.A.runs[r].traces:
            for e in t.events:
                if e.kind not in ('await', 'rpc') or not e.held or (e.a, e.held, e.site) in done:
                    continue
                done.add((e.a, e.held, e.site))
                n += 1
                if e.kind == 'rpc':
                    good = e.a[-1][0] == 'c' and isinstance(e.a[-1][1], int) and e.a[-1][1] > 0
                else:
                    good = e.a[0] in ('lock', 'timeout', 'sleep', 'yield_now')
                what = e.a[0]
                cx.check(good, f'unbounded:{what}', where(e), f'{what} is waited for without bound while {", ".join(lname(h[0]) for h in e.held)} is held', t, e)
    cx.floor(n, 4, 'waits under a lock')


# ---------------------------------------------------------------- activities
NODE_WIDE = ('advance_kern', 'advance_user', 'advance_snapshot', 'advance_commit', 'election', 'log_compaction', 'query_execution',
             'snapshot_deleter', 'stepdown')


def task_name(e):
    m = re.search(r'thread::(\w+)::', show(e.a[0]))
    return m.group(1) if m else None


def activities_run(cx):
    """A process that started runs one instance of every activity, and keeps the handle of each for as long as it lives."""
    n = 0
    for t in cx.traces('boot', 'ret'):
        if not ok_result(t):
            continue
        n += 1
        sp = [e for e in t.events if e.kind == 'spawn' and e.a[1] == 'tokio']
        for name in NODE_WIDE:
            mine = [e for e in sp if task_name(e) == name]
            cx.check(len(mine) == 1, 'spawned:' + name, where(mine[0]) if mine else 'boot',
                     f'a process starts with {len(mine)} instances of the activity {name} instead of one', t)
        kept = [x for x in walk(t.ret) if x[0] == 'abort']
        for e in sp:
            if task_name(e) in NODE_WIDE:
                cx.check(any(contains_term(x[1], e.a[0]) for x in kept), 'kept:' + task_name(e), where(e),
                         f'the handle of the activity {task_name(e)} is not kept: it is stopped as soon as it is started', t, e)
    cx.floor(n, 1, 'successful starts')


def holds(cx, v):
    """the shared structures that v keeps alive"""
    w = cx.A.wiring()
    out, seen, work = set(), set(), [v]
    while work:
        for x in walk(work.pop()):
            if x in seen or x[0] not in ('g', 'G'):
                continue
            seen.add(x)
            if x[0] == 'g':
                work += list(w.get(x, ()))
            else:
                out.add(x[1])
                work += [y for k, vs in w.items() if k[0] == 'g' and k[1].rsplit('.', 1)[0] == x[1] for y in vs]
    return out


def stopped_when_dropped(cx):
    """A task whose handle is kept is aborted when the owner of the handle is dropped. A task that itself keeps the owner of its handle
    alive is stopped explicitly, by something that it does not keep alive."""
    owners, cells = {}, {}
    roots = cx.A.all_process_roots() + ['connection']
    cx.A.need(roots)
    for r in roots:
        made = [x for vs in cx.A.runs[r].inits.values() for x in vs]
        for t in cx.traces(r):
            for v in made + ([t.ret] if t.ret is not None else []) + [a for e in t.events if e.kind in ('insert', 'set', 'push') for a in e.a if isinstance(a, tuple)]:
                for x in walk(v):
                    if x[0] == 'agg':
                        for f, y in x[4]:
                            if y[0] == 'abort':
                                owners.setdefault(x[2], f)
            for e in t.events:
                if e.kind in ('insert', 'set', 'push') and e.a[0][0] == 'cell':
                    for x in walk(e.a[-1]):
                        if x[0] == 'abort':
                            cells.setdefault(e.a[0][1], {}).setdefault(shape(x), (x, e, t))
    n = 0
    for t in cx.traces('connection', 'ret'):
        n += 1
        got = list(walk(t.ret)) + [y for x in walk(t.ret) if x[0] == 'G' for v in cx.A.runs['connection'].inits.get(x[1], ()) for y in walk(v)]
        for e in t.events:
            if e.kind == 'spawn':
                cx.check(any(y[0] == 'abort' and contains_term(y[1], e.a[0]) for y in got), 'not-kept', where(e),
                         'the handle of the sender of heartbeats is not kept with the connection', t, e)
    cx.floor(n, 1, 'connections')
    drops = {j: 'crate::' + j[5:] if not j[5:].startswith('crate') else j[5:] for j in cx.A.jobs if j.startswith('drop:')}
    for ty, f in owners.items():
        ds = [j for j, q in drops.items() if q == ty]
        if not cx.check(ds, 'detached:' + ty, ty, f'a task goes on when its handle, {ty}, is dropped'):
            continue
        for t in cx.traces(ds[0], 'ret'):
            cx.check(any(e.kind == 'abort' and any(isf(x, f) or x[0] == 'g' and x[1].endswith('.' + f) for a in e.a for x in walk(a)) for e in t.events),
                     'not-aborted:' + ty, ty, f'a task goes on after its handle, {ty}, is dropped', t)
    cx.floor(len(owners), 2, 'owners of the handle of a task')
    for lock, xs in cells.items():
        adt = lock[1].rsplit('.', 1)[0]
        for x, e, t in xs.values():
            kept = holds(cx, x)
            if adt not in kept:
                continue
            ok = False
            for j, q in drops.items():
                if q in kept or q in owners:
                    continue
                ts = cx.traces(j, 'ret')
                if ts and all(any(g.kind in ('clear', 'drain', 'set', 'remove', 'abort', 'retain') and any(y[0] == 'cell' and y[1] == lock for a in g.a if isinstance(a, tuple) for y in walk(a))
                                  for g in d.events) for d in ts):
                    ok = True
            cx.check(ok, 'kept-alive:' + task_name_of(x), where(e), f'the activity {task_name_of(x)} keeps the owner of its own handle alive, so that it goes on when the process is dropped', t, e)
    cx.floor(len(cells), 1, 'collections of handles')
    # a value that is forgotten never drops the handle in it
    for r in roots:
        for t in cx.traces(r):
            for e in t.events:
                if e.kind == 'forget':
                    cx.check(not any(x[0] == 'abort' or x[0] == 'cell' and x[1] in cells or x[0] == 'agg' and x[2] in owners or x[0] == 'guard' or x[0] == 'res' and x[1] == 'spawn' for x in walk(e.a[0])),
                             'forgotten', where(e), 'the handle of an activity is forgotten, so that the activity is never stopped', t, e)


def task_name_of(x):
    m = re.search(r'thread::(\w+)::', show(x))
    return m.group(1) if m else show(x)[:40]


def activities_last(cx):
    """An activity never ends by itself: no path through it leaves its loop, and none panics, except on a stored command that cannot be
    decoded."""
    n = 0
    for r in cx.A.tasks():
        for t in cx.traces(r):
            n += 1
            if t.end == 'panic':
                f = t.facts.log[-1] if t.facts.log else None
                fine = f is not None and (f[0] == 'is' and f[1][0] == 'pf' and f[1][1] == 'deser' and f[2] == 'Err' or
                                          f[0] == 'b' and any(x[0] == 'has' for x in walk(f)) or r.startswith('bg:') and not t.events)
                cx.check(fine, 'panics:' + r, t.site or r, f'the activity {r[5:]} can end in a panic at {t.site}', t)
            else:
                cx.check(not t.end.startswith('ret') or r == 'bg:redb' and closed(t), 'ends:' + r, t.site or r,
                         f'the activity {r.split(":")[1]} can end by itself', t)
    cx.floor(n, 300, 'paths through activities')


def closed(t):
    """there was nothing left that could send to what is waited for"""
    rs = [e for e in t.events if iscall(e, 'recv')]
    return bool(rs) and t.facts.variant(rs[-1].ret) == 'Err' and not any(e.kind == 'drain' for e in t.events[t.events.index(rs[-1]):])


def writer_ends(cx):
    """The writer of the database ends when the last store is gone: it neither goes on asking nor keeps the database open."""
    n = m = 0
    for t in cx.traces('bg:redb'):
        for i, e in enumerate(t.events):
            if iscall(e, 'recv'):
                n += 1
                if t.facts.variant(e.ret) == 'Err':
                    m += 1
                    cx.check(t.end.startswith('ret') and e is t.events[-1], 'goes-on', where(e), 'the writer of the database goes on after the last store is gone: '
                             'it keeps a core busy and the database open', t, e)
    cx.floor(n, 10, 'waits for entries')
    cx.floor(m, 1, 'ends of the writer')


def turns_wait(cx):
    """Every turn of an activity waits for a bounded time: a timer, or a notification with a time limit, so that it neither keeps a
    thread busy nor sleeps for ever."""
    n = 0
    for r in [x for x in cx.A.tasks() if x != 'bg:redb']:
        for t in cx.traces(r, ('turn', 'iter')):
            n += 1
            aw = [e for e in t.events if e.kind == 'await']
            cx.check(any(e.a[0] in ('timeout', 'tick', 'sleep') for e in aw), 'busy:' + r, r, 'a turn passes without any wait', t)
            seg = t.events[t.loop[2]:] if t.loop else t.events
            if seg and t.end.startswith('turn') and not any(e.kind == 'await' and e.a[0] in ('timeout', 'tick', 'sleep') for e in seg):
                # the activity goes on at once: only because it did something
                cx.check(any(e.kind in ('store', 'fetch_max', 'set', 'remove', 'insert', 'send', 'push', 'split_off') for e in seg), 'spins:' + r, r,
                         'a turn follows at once on one that did nothing', t)
            for k, e in enumerate(aw):
                if e.a[0] in ('notified', 'recv', 'next'):
                    cx.check(e.a[0] == 'notified' and k > 0 and aw[k - 1].a[0] == 'timeout', 'endless:' + r, where(e), f'{e.a[0]} is waited for without a time limit', t, e)
    cx.floor(n, 300, 'turns')


def candidate_returns(cx):
    """Whoever becomes a candidate is leader or follower again when the election is over, whatever failed in it."""
    n = 0
    for r in cx.process_roots():
        for t in cx.traces(r):
            s = cx.state_sets(t, ('Candidate', 'Leader', 'Follower'))
            c = [k for k, (i, e) in enumerate(s) if variant_sets(e, ('Candidate',))]
            if not c or t.end.startswith('iter') or t.end == 'panic':
                continue
            n += 1
            e = s[c[-1]][1]
            cx.check(len(s) > c[-1] + 1, 'stays-candidate', where(e), 'an election can end with the node still a candidate, and such a node never starts another election', t, e)
    cx.floor(n, 1, 'elections')


def election_given_up(cx):
    """A candidate gives an election, or a pre-vote, up only when it is not a member, when it has too few peers, when something failed,
    or when the peers answered without a majority for it."""
    n = 0
    for r in ('rpc:send_timeout_now', 'task:election'):
        for t in cx.traces(r):
            if t.end != 'ret' and not t.end.startswith('turn') or failed(t):
                continue
            f = t.facts
            cells = {x for l in f.log for x in walk(l) if x[0] == 'cell' and x[1] == cx.membership()}
            if not cells or any(iscall(e, INS) for e in t.events) or any(iscall(e, GET) and is_none(ok_of(e.ret), f) for e in t.events):
                continue
            cell = max(cells, key=lambda c: c[2])
            if f.bools.get(('has', cell, cx.self_id())) is False:
                cx.ok('not-a-member', r)
                continue
            last = [e for e in t.events if iscall(e, LAST)]
            # an election that was won goes on to append, under one lock more
            if not last or len(last[-1].held) > len(last[0].held):
                continue
            lens = {x for l in f.log for x in walk(l) if x[0] == 'len' and x[1] == cell}
            half = ('bin', 'Div', next(iter(lens), ('len', cell)), C(2))
            n += 1
            peers = {x for l in f.log for x in walk(l) if x[0] == 'len' and x[1] != cell and contains_term(x, cell)} or {C(0)}
            phis = {x for l in f.log for x in walk(l) if x[0] == 'phi' and x in cx.run(r).phis}
            few = any(f.lt(x, half) for x in peers)
            asked = any(e.kind == 'rpc' and e.a[0] == 'request_vote' and contains_term(e.a[1], cell) for e in t.events)
            w = 'election'
            if not asked:
                cx.check(few, 'given-up-at-once', w, 'an election is given up although the peers could give the majority', t)
                continue
            all_in = any(f.eq(mk_add(c, k), x) for c in phis | {C(0)} for k in (0, 1, 2) for x in peers if x != C(0))
            both = any(l[0] == 'cmp' and len({x for x in walk(l) if x[0] == 'phi'}) > 1 for l in f.log)
            early = any(f.lt(half, mk_add(c, k)) for c in phis | {C(0)} for k in (0, 1, 2))
            cx.check(all_in or both or not early, 'given-up-early', w, 'an election is given up before the peers have answered', t)
    cx.floor(n, 4, 'elections given up')


def not_given_up(cx):
    """A request that writes to the log or starts an election is carried out by a task of its own: if the client gives up, it is not
    left half done, with a write under way and the locks released."""
    n = 0
    for r in cx.A.rpcs():
        for t in cx.traces(r):
            depth, begun = 0, False
            for e in t.events:
                depth += {'shield': 1, 'unshield': -1}.get(e.kind, 0)
                if e.kind == 'call' and e.a[0] == INS or e.kind == 'set' and variant_sets(e, ('Candidate',)):
                    n += 1
                    what = 'writes to the log' if e.kind == 'call' else 'starts an election'
                    cx.check(depth > 0, 'given-up:' + r, where(e), f'{r[4:]} {what}, and ends in the middle of it when the client gives up', t, e)
                    begun = True
                elif begun and e.kind in ('store', 'fetch_max', 'set', 'insert', 'push', 'remove', 'spawn', 'abort', 'entry') or begun and e.kind == 'call' and e.a[0] in STATEFUL:
                    cx.check(depth > 0, 'rest-given-up:' + r, where(e), f'what follows a write to the log in {r[4:]} is left out when the client gives up', t, e)
    cx.floor(n, 5, 'requests that write to the log or start an election')
