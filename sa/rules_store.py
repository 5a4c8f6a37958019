"""The stores on disk: what is reported as stored is committed, what is read is what was stored, and each shard has its own."""
import json
from base import *
from engine import shape
from rules_log import *
from rules_apply import distinct

BW, BR = 'redb|Database::begin_write', 'redb|Database::begin_read'
OPENW, OPENR = 'redb|WriteTransaction::open_table', 'redb|ReadTransaction::open_table'
COMMIT = 'redb|WriteTransaction::commit'
TINS, TDEL, TGET = 'redb|Table::insert', 'redb|Table::retain_in', ('redb|ReadOnlyTable::get', 'ReadableTable::get')
QUIET = ('redb|Table::range', 'ReadableTable::range', 'ReadableTable::get', 'ReadableTable::first', 'ReadableTable::last', 'ReadableTable::iter',
         'ReadableTableMetadata::is_empty', 'ReadableTableMetadata::len')


def table_of(x):
    """the table (transaction, definition) that the term stands for"""
    if x[0] == 'fld' and x[2] == OKP and x[1][0] == 'res' and x[1][1] in (OPENW, OPENR):
        return x[1][2][0], x[1][2][1]
    return None


def tx_of(x):
    """the transaction the term stands for -> the call that began it"""
    if x[0] == 'fld' and x[2] == OKP and x[1][0] == 'res' and x[1][1] in (BW, BR):
        return x[1]
    return None


def name_of(defn):
    """the name of the table"""
    if defn[0] == 'pf' and defn[1] == 'redb|TableDefinition::new':
        return strip(defn[2][0])
    return None


def changes(t, upto=None):
    """(position, event, table, what) of the changes to tables made on a path"""
    for i, e in enumerate(t.events[:upto]):
        if e.kind == 'call' and isinstance(e.a[0], str) and e.a[0].startswith('redb|Table::') and e.a[0] not in QUIET:
            yield i, e, table_of(e.a[1])


def committed(cx, t, i, e, upto, facts):
    """is the change e at i on disk at position upto?"""
    tb = table_of(e.a[1])
    if tb is None or tx_of(tb[0]) is None:
        return False
    if facts.variant(e.ret) == 'Err':
        return False
    return any(iscall(g, COMMIT) and g.a[1] == tb[0] and facts.variant(g.ret) == 'Ok' for g in t.events[i:upto])


def weakened(cx, t):
    """calls on a write transaction or the database that take away from what a commit promises"""
    for e in t.events:
        if e.kind == 'call' and isinstance(e.a[0], str) and e.a[0] in ('redb|WriteTransaction::set_durability', 'redb|WriteTransaction::abort',
                                                                        'redb|WriteTransaction::delete_table', 'redb|WriteTransaction::restore_savepoint',
                                                                        'redb|WriteTransaction::rename_table'):
            yield e


STORE_WRITES = ('ballot:save_ballot', 'log:delete_entries_before', 'log:delete_entries_from', 'backend_get')


def store_roots(cx):
    return sorted(r for r in cx.A.jobs if r.startswith(('log:', 'ballot:'))) + ['backend_get', 'bg:redb']


def ok_ends(cx, root):
    for t in cx.traces(root, 'ret'):
        r = t.ret
        if r is not None and (r[0] == 'agg' and r[3] == 'Ok' or r[0] != 'agg' and t.facts.variant(r) != 'Err'):
            yield t


def stored_before_ok(cx):
    """A store operation reports success only after every change it made is in one transaction that was committed without
    error, with the durability the database gives by default."""
    for r in STORE_WRITES:
        n = 0
        for t in ok_ends(cx, r):
            n += 1
            w = '%s (%s)' % (r, t.site)
            ch = list(changes(t))
            for i, e, tb in ch:
                cx.check(committed(cx, t, i, e, None, t.facts), 'uncommitted', where(e), f'{r} reports success though its change may not be on disk', t, e)
            txs = {x for x in (tx_of(tb[0]) for _, _, tb in ch if tb) if x}
            if r != 'backend_get':
                cx.check(len(txs) == 1, 'not-written', w, f'{r} reports success without a change in one transaction', t)
            cx.check(t.ret[0] == 'agg' or t.ret[0] == 'res' and t.ret[1] == COMMIT or not ch, 'result', w, 'the result is not that of the commit', t)
        cx.floor(n, 1, 'successful ends of ' + r)
    for r in store_roots(cx):
        for t in cx.traces(r):
            for e in weakened(cx, t):
                cx.bad('durability', where(e), 'the transaction is not committed as durable as the database allows', t, e)


def ballot_stored(cx):
    """Saving a ballot stores exactly the given one, in the place loading reads; a node starts with the ballot of term 0 only
    if it has none stored."""
    n = m = 0
    for t in ok_ends(cx, 'ballot:save_ballot'):
        ws = [(e, tb) for _, e, tb in changes(t)]
        for e, tb in ws:
            n += 1
            cx.check(e.a[0] == TINS and tb and is_store_field(cx, name_of(tb[1]), 'save_ballot', 1), 'place', where(e), 'the ballot is not stored in the place of this store', t, e)
            if e.a[0] == TINS:
                cx.check(roundtrip(cx, 'ballot:load_ballot', e.a[3], cx.arg('ballot:save_ballot', 2)), 'changed', where(e),
                         'the ballot that is loaded is not the one that was saved', t, e)
                cx.check(all(k == e.a[2] for k in keys_read(cx, 'ballot:load_ballot')), 'key', where(e), 'the ballot is saved under a key it is not loaded from', t, e)
        cx.check(len(ws) == 1, 'once', 'save_ballot', 'a save does not write one ballot', t)
    cx.floor(n, 1, 'ballots written by save_ballot')
    for t in cx.traces('backend_get'):
        for i, e, tb in changes(t):
            if e.a[0] != TINS or e.a[3][0] != 'ser':
                cx.bad('create', where(e), 'opening the stores of a shard changes what is stored', t, e)
                continue
            m += 1
            none = any(iscall(g, 'ReadableTableMetadata::is_empty') and g.a[1] == e.a[1] and e.facts.bools.get(ok_of(g.ret)) is True for g in t.events[:i]) or \
                any(iscall(g, 'ReadableTableMetadata::len') and g.a[1] == e.a[1] and e.facts.le(ok_of(g.ret), C(0)) for g in t.events[:i]) or \
                any(g.kind == 'call' and g.a[0] in TGET + ('ReadableTable::first', 'ReadableTable::last') and g.a[1] == e.a[1] and is_none(ok_of(g.ret), e.facts) for g in t.events[:i])
            cx.check(none, 'reset', where(e), 'a stored ballot is overwritten when the node starts', t, e)
            fs = [x for _, x in e.a[3][1][4]]
            cx.check(all(x == C(0) or x[0] == 'agg' and x[3] == 'None' for x in fs), 'initial', where(e), 'a new node does not start in term 0 without a vote', t, e)
    for t in ok_ends(cx, 'backend_get'):
        kn = [e for e in t.events if iscall(e, 'ReadableTableMetadata::is_empty')]
        if any(t.facts.bools.get(ok_of(e.ret)) is True for e in kn):
            cx.check(any(e.a[0] == TINS for _, e, _ in changes(t)), 'no-initial', 'backend_get', 'a new node has no ballot to load', t)
    cx.floor(m, 1, 'initial ballots')


def is_store_field(cx, x, fn, argn):
    """x is the name of the table kept in the store itself"""
    return x is not None and x[0] == 'fld' and x[1] == ('arg', fn, argn)


def keys_read(cx, root):
    return {e.a[2] for t in cx.traces(root) for e in t.events if e.kind == 'call' and e.a[0] in TGET}


def values_read(cx, root):
    """the values that a load returns, with the paths"""
    out = []
    for t in ok_ends(cx, root):
        v = t.ret
        v = v[4][0][1] if v[0] == 'agg' and v[3] == 'Ok' else ok_of(v)
        if v[0] == 'agg' and v[3] in ('Some', 'None'):
            if v[3] == 'None':
                continue
            v = v[4][0][1]
        out.append((t, v))
    return out


def roundtrip(cx, root, stored, given):
    """does what the load returns, for the stored bytes, equal what was given to the save?"""
    if stored[0] != 'ser':
        return False
    vals = values_read(cx, root)
    return bool(vals) and all(unpack(v, stored[1]) is not None and equal_values(cx, unpack(v, stored[1]), given) for _, v in vals)


def unpack(v, packed):
    """v with what it takes from the stored bytes replaced by what was put there"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'fld' and v[2] == OKP and v[1][0] == 'pf' and v[1][1] == 'deser':
        ty = v[1][2][1]
        return packed if packed[0] != 'agg' or not packed[2] or str(ty).split('::')[-1].split('<')[0] == packed[2].split('::')[-1] else ('x', 'other type', (), 0)
    if v and v[0] == 'fld':
        b = unpack(v[1], packed)
        return proj(b, v[2])
    if v and v[0] == 'add':
        return mk_add(unpack(v[1], packed), v[2])
    if v and v[0] == 'agg':
        return v[:4] + (tuple((k, unpack(x, packed)) for k, x in v[4]),)
    return tuple(unpack(x, packed) for x in v)


def equal_values(cx, a, b):
    """is the value a, built field by field, the value b?"""
    if a == b:
        return True
    if a[0] == 'agg' and a[1] != 'enum' and a[2]:
        want = {f['n'] for v in (cx.P.adts.get(a[2]) or {'variants': []})['variants'] for f in v['f']}
        return want == {k for k, _ in a[4]} and all(equal_values(cx, x, proj(b, a[2] + '.' + k)) or prev_index(cx, a, k, x, b) for k, x in a[4])
    return False


def prev_index(cx, a, k, x, b):
    """the index before an entry is its own index less one"""
    if k != 'index' or not isf(b, 'prev_clock'):
        return False
    eq, cq = cx.entry_q()
    return x == mk_add(proj(proj(b[1], eq + '.this_clock'), cq + '.index'), -1)


# ---------------------------------------------------------------- the queue of entries
def entry_queued(cx):
    """Inserting an entry reports success only after the writer of the log confirmed exactly this entry: the index, the
    entry and the place of this shard's log go into the queue of that writer."""
    n = 0
    root = 'log:insert_entry'
    lg = cx.run('backend')
    for t in ok_ends(cx, root):
        n += 1
        w = where(t.events[-1]) if t.events else root
        ss = [e for e in t.events if e.kind == 'send']
        aw = [e for e in t.events if e.kind == 'await' and e.a[0] == 'recv' or iscall(e, 'recv')]
        ok = False
        for s in ss:
            v = s.a[1]
            if v[0] != 'agg':
                continue
            txs = [x for _, x in v[4] if x[0] == 'chan' and x[1] == 'tx']
            rec = [e for e in aw if e.a[1][0] == 'chan' and any(e.a[1][2] == x[2] for x in txs) and t.facts.variant(e.ret) == 'Ok']
            fs = [x for _, x in v[4]]
            ok = ok or bool(rec and s.ret != FALSE and cx.arg(root, 2) in fs and cx.arg(root, 3) in fs and
                            any(is_store_field(cx, x, 'insert_entry', 1) for x in fs))
        direct = [(i, e) for i, e, tb in changes(t) if e.a[0] == TINS and e.a[2] == cx.arg(root, 2)]
        if not ok and direct:
            ok = all(committed(cx, t, i, e, None, t.facts) for i, e in direct)
        cx.check(ok, 'unconfirmed', w, 'an entry is reported as stored without the confirmation of the writer', t)
    cx.floor(n, 1, 'successful insertions')
    # both ends of one queue
    q = {x for t in cx.traces('backend') if t.ret is not None for x in walk(t.ret) if x[0] == 'new' and x[1] == 'qtx'}
    rx = {x for t in cx.traces('bg:redb') for e in t.events if iscall(e, 'recv') for x in walk(e.a[1]) if x[0] == 'new'}
    cx.check(q and rx and all(any(a[2:] == b[2:] for b in q) for a in rx), 'queue', 'backends::redb::Backend::new', 'entries are not queued for the thread that writes the log')


def base_elem(x):
    """the queued element that a field belongs to"""
    while x[0] == 'fld' and not (x[2] == OKP and x[1][0] == 'res') and x[2] != SOMEP:
        x = x[1]
    return x


def confirmed_after_commit(cx):
    """The writer of the log confirms an entry only after the transaction that holds it was committed: each confirmation goes
    to an element taken from the queue whose own entry was written, under its own index and into its own shard's table, in
    that transaction. Every element written is confirmed."""
    n = 0
    root = 'bg:redb'
    eq, cq = cx.entry_q()
    told, written = set(), set()
    for t in cx.traces(root):
        for i, e in enumerate(t.events):
            if e.kind != 'send':
                continue
            n += 1
            el = base_elem(e.a[0])
            told.add(shape(el))
            es = [(j, g) for j, g, tb in changes(t, i) if g.a[0] == TINS and shape(base_elem(g.a[2])) == shape(el)]
            if not cx.check(es, 'not-written', where(e), 'an entry is confirmed that was not written', t, e):
                continue
            cx.check(any(committed(cx, t, j, g, i, e.facts) for j, g in es), 'before-commit', where(e),
                     'an entry is confirmed before it is on disk', t, e)
        for j, g, tb in changes(t):
            if g.a[0] != TINS:
                cx.bad('other', where(g), 'the writer of the log does something else than adding entries', t, g)
                continue
            el = base_elem(g.a[2])
            written.add(shape(el))
            nm = name_of(tb[1]) if tb else None
            cx.check(nm is not None and nm[0] == 'fld' and nm[1] == el, 'table', where(g), 'an entry is written into the table of another one', t, g)
            ins = inserted_entry(cx)
            cx.check(g.a[3][0] == 'ser' and ins and all(roundtrip(cx, 'log:get_entry', g.a[3], ('fld', el, q)) for q in ins), 'entry', where(g),
                     'the entry that is read is not the one that was inserted', t, g)
            kq = queued_as(cx, 2)
            cx.check(g.a[2][0] == 'fld' and kq and g.a[2][2].rsplit('.', 1)[-1] in kq and g.a[2][1] == el, 'index', where(g),
                     'an entry is written under another index', t, g)
    cx.floor(n, 2, 'confirmations of the writer')
    whole(cx, [root], 'queued entries are left out')
    if written:
        miss = [x for x in written if x not in told]
        cx.check(not miss, 'unconfirmed', 'backends::redb', 'entries that were written are not all confirmed: ' + ', '.join(show(x)[:60] for x in miss))
    for t in cx.traces(root, ('turn', 'iter')):
        ns = [e for e in t.events if e.kind == 'send']
        if t.end.startswith('iter') and t.loop:
            body = t.events[t.loop[2]:]
            h = t.loop[:2]
            if h in send_loops(cx, root):
                cx.check(any(e.kind == 'send' for e in body), 'skipped', 'backends::redb', 'an element is passed over when the entries are confirmed', t)
        if (t.end.startswith('turn') or batch_loop(t)) and ns:
            el = base_elem(ns[-1].a[0])
            stop = [k for k, v in t.facts.bools.items() if k[0] == 'has' and v is True and k[2] == el]
            cx.check(not stop, 'stopped', where(ns[-1]), 'the confirmations stop at the first', t, ns[-1])


def send_loops(cx, root):
    return {t.loop[:2] for t in cx.traces(root, 'iter') if t.loop and any(e.kind == 'send' for e in t.events[t.loop[2]:]) and not batch_loop(t)}


def batch_loop(t):
    """the loop that takes one batch after the other"""
    return t.loop and any(iscall(e, 'recv') for e in t.events[t.loop[2]:])


def queued_as(cx, argn):
    """the fields of the queued element that hold the argument of insert_entry"""
    out = set()
    for t in cx.traces('log:insert_entry'):
        for e in t.events:
            if e.kind == 'send' and e.a[1][0] == 'agg':
                out |= {k for k, x in e.a[1][4] if x == cx.arg('log:insert_entry', argn)}
    return out


def inserted_entry(cx):
    for t in cx.traces('log:insert_entry'):
        for e in t.events:
            if e.kind == 'send' and e.a[1][0] == 'agg':
                return [e.a[1][2] + '.' + k for k, x in e.a[1][4] if x == cx.arg('log:insert_entry', 3)]
    return []


def deleted_range(cx):
    """Deleting the entries before an index removes exactly those with a smaller index, deleting from an index exactly that
    entry and those with a greater one."""
    for r, low in (('log:delete_entries_before', True), ('log:delete_entries_from', False)):
        n = 0
        ix = cx.arg(r, 2)
        for t in ok_ends(cx, r):
            for i, e, tb in changes(t):
                n += 1
                cx.check(tb and is_store_field(cx, name_of(tb[1]), r.split(':')[1], 1), 'table', where(e), 'entries are deleted from the log of another shard', t, e)
                if e.a[0] not in ('redb|Table::retain_in', 'redb|Table::retain'):
                    cx.bad('deletion', where(e), 'entries are deleted in a way that is not understood', t, e)
                    continue
                cx.check(kept_right(e, ix, low), 'range', where(e), 'other entries than those %s the index are deleted, or some of those are kept' % ('before' if low else 'from'), t, e)
        cx.floor(n, 1, 'deletions in ' + r)


def bound(rng):
    """(first, end) of a range of keys: [first, end)"""
    if rng[0] == 'rng':
        return rng[1], rng[2]
    if rng[0] != 'agg':
        return None
    n = rng[2].rsplit('::', 1)[-1]
    f = dict(rng[4])
    if n == 'RangeTo':
        return C(0), f['end']
    if n == 'RangeToInclusive':
        return C(0), mk_add(f['end'], 1)
    if n == 'RangeFrom':
        return f['start'], ('inf',)
    if n == 'RangeFull':
        return C(0), ('inf',)
    if n == 'Range':
        return f['start'], f['end']
    return None


def kept_right(e, ix, low):
    b = bound(e.a[2])
    if b is None:
        return False
    lo, hi = b
    _, k, outs = e.a[3]
    from terms import Facts
    drop = [fs for fs, v in outs if v == FALSE]
    keep = [fs for fs, v in outs if v == TRUE]
    if low:
        want = (C(0), ix)
    else:
        want = (ix, ('inf',))
    if (lo, hi) == want:
        return not keep and bool(drop)
    # a wider range with a condition on the key
    if lo != C(0) or hi != ('inf',):
        return False

    def side(fs):
        """which side of ix does the condition put the key on?"""
        f = Facts()
        for l in fs:
            if l[0] == 'cmp':
                f.add_cmp(l[1], l[2], l[3])
        return 'low' if f.lt(k, ix) else 'high' if f.le(ix, k) else None
    return bool(drop) and bool(keep) and all(side(fs) == ('low' if low else 'high') for fs in drop) and all(side(fs) == ('high' if low else 'low') for fs in keep)


def reads_answer(cx):
    """Reading the log answers with what is stored: an entry if and only if there is one under the index, the index of the
    first and of the last entry of the shard's table, 0 when it is empty."""
    n = 0
    for r in ('log:get_entry', 'ballot:load_ballot'):
        for t in ok_ends(cx, r):
            n += 1
            g = [e for e in t.events if e.kind == 'call' and e.a[0] in TGET]
            w = where(g[-1]) if g else r
            if not cx.check(g, 'not-read', w, r + ' answers without reading', t):
                continue
            e = g[-1]
            tb = table_of(e.a[1])
            cx.check(tb and is_store_field(cx, name_of(tb[1]), r.split(':')[1], 1), 'table', w, 'the entry is read from another table', t, e)
            if r == 'log:get_entry':
                cx.check(e.a[2] == cx.arg(r, 2), 'key', w, 'another index is read', t, e)
            v = t.ret[4][0][1] if t.ret[0] == 'agg' else None
            got = t.facts.variant(ok_of(e.ret))
            if r == 'log:get_entry':
                cx.check(v is not None and v[0] == 'agg' and v[3] == got, 'presence', w, 'the answer does not tell whether there is an entry', t, e)
            if got == 'Some' and v is not None:
                vals = [x for x in walk(v) if x[0] == 'pf' and x[1] == 'deser']
                cx.check(vals and all(contains_term(x, some_of(ok_of(e.ret))) for x in vals), 'value', w, 'the answer is not what is stored there', t, e)
    for r, op in (('log:get_head_index', 'first'), ('log:get_last_index', 'last')):
        for t in ok_ends(cx, r):
            n += 1
            g = [e for e in t.events if iscall(e, 'ReadableTable::' + op) or e.kind == 'call' and str(e.a[0]).endswith('Table::' + op)]
            w = where(g[-1]) if g else r
            if not cx.check(g, 'end', w, f'{r} is not answered from the {op} entry', t):
                continue
            e = g[-1]
            tb = table_of(e.a[1])
            cx.check(tb and is_store_field(cx, name_of(tb[1]), r.split(':')[1], 1), 'table', w, 'the index is read from another table', t, e)
            v = t.ret[4][0][1] if t.ret[0] == 'agg' else ok_of(t.ret)
            o = ok_of(e.ret)
            if t.facts.variant(o) == 'None':
                cx.check(v == C(0), 'empty', w, 'the index of an empty log is not 0', t, e)
            else:
                cx.check(key_of(v, some_of(o)), 'index', w, f'the index answered is not that of the {op} entry', t, e)
    cx.floor(n, 7, 'answers of the stores')


def key_of(v, pair):
    return v[0] == 'pf' and 'AccessGuard::value' in v[1] and strip(v[2][0]) == ('fld', pair, '(0)') or v in (('fld', pair, '(0)'), ('fld', pair, '(tuple).0')) or \
        v[0] == 'fld' and v[1] == pair and v[2].strip('()').rsplit('.', 1)[-1].strip('()') == '0'


# ---------------------------------------------------------------- codecs
def codec_roots(cx, needed):
    """(type, the bodies that write and read it)"""
    out = {}
    for k, b in cx.P.bodies.items():
        tr = b.get('trait') or ''
        n = k.rsplit('::', 1)[-1]
        if 'generated' in k:
            continue
        if n == 'serialize' and tr.split('<')[0].endswith('Serialize'):
            out.setdefault(adt_path(cx, b.get('self_ty')), []).append(('ser', k))
        elif n in ('visit_seq', 'visit_enum', 'visit_newtype_struct') and 'Visitor' in tr:
            m = re.search(r'for ([\w:]+)', b.get('self_ty') or '')
            out.setdefault(adt_path(cx, m.group(1) if m else None), []).append((n, k))
    return out


def adt_path(cx, s):
    if not s:
        return None
    s = s.split('<')[0]
    for p in (s, 'crate::' + s):
        if p in cx.P.adts:
            return p
    return s


def run_codec(cx, k):
    cx.A.jobs['codec:' + k] = ('fn', k)
    return cx.traces('codec:' + k)


def fields_complete(cx):
    """Every type that is written to disk or into the log is written with all its fields, in the order in which they are read
    back, and every kind of command under a tag of its own."""
    stored = set()
    for r in store_roots(cx) + cx.process_roots():
        for t in cx.traces(r):
            for e in t.events:
                for x in walk(e.a):
                    if x[0] == 'ser' and x[1][0] == 'agg' and x[1][2] in cx.P.adts:
                        stored.add(x[1][2])
    todo, seen = sorted(stored), set()
    cod = codec_roots(cx, todo)
    n = 0
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        a = cx.P.adts[p]
        for v in a['variants']:
            for f in v['f']:
                todo += [q for q in cod if q and q in cx.P.adts and re.search(r'\b' + re.escape(q.replace('crate::', '')) + r'\b', f['t'].replace('crate::', ''))]
        names = {v['n']: [f['n'] for f in v['f']] for v in a['variants']}
        cs = cod.get(p, [])
        if not cx.check(any(c == 'ser' for c, _ in cs), 'no-codec', short(p), 'it is not found how the type is written'):
            continue
        enum = len(a['variants']) > 1
        wrote, tags = {}, {}
        for c, k in cs:
            if c != 'ser':
                continue
            for t in run_codec(cx, k):
                if t.end != 'ret' or t.ret is None or t.ret[0] == 'agg' and t.ret[3] == 'Err':
                    continue
                n += 1
                var = t.facts.variant(('arg', 'serialize', 1)) if enum else a['variants'][0]['n']
                order = []
                for e in t.events:
                    if e.kind == 'call' and re.search(r'::serialize_(field|element|newtype_struct|newtype_variant)$', e.a[0]):
                        own = [x for x in walk(e.a[1:]) if x[0] == 'fld' and x[1] == ('arg', 'serialize', 1)]
                        order += [fname(x) for x in own if fname(x) in names.get(var, [])][-1:]
                    if e.kind == 'call' and re.search(r'::serialize_\w*variant$', e.a[0]):
                        tags.setdefault(next((x[1] for x in e.a[1:] if x[0] == 'c' and isinstance(x[1], int) and not isinstance(x[1], bool)), None), set()).add(var)
                if not order and not any(e.kind == 'call' and 'serialize' in e.a[0] and e.a[0].startswith('Seriali') for e in t.events):
                    # a hand-written form: at least all of the fields go in
                    order = [f for f in names.get(var, []) if any(x[0] == 'fld' and x[1] == ('arg', 'serialize', 1) and fname(x) == f for e in t.events for x in walk(e.a))]
                wrote.setdefault(var, set()).add(tuple(order))
        for v, fs in names.items():
            cx.check(wrote.get(v) == {tuple(fs)} or not fs and v in wrote or len(wrote.get(v, ())) == 1 and sorted(next(iter(wrote[v]))) == sorted(fs), 'not-written', short(p) + '.' + v,
                     f'not all the fields are written: {fs}, written are {sorted(wrote.get(v, ()))}')
        if enum:
            cx.check(all(len(x) == 1 for x in tags.values()) and {y for x in tags.values() for y in x} == set(names), 'tag', short(p), 'two kinds are written under one tag')
        read = {}
        for c, k in cs:
            if c == 'ser':
                continue
            for t in run_codec(cx, k):
                if t.end != 'ret' or t.ret is None or t.ret[0] != 'agg' or t.ret[3] != 'Ok':
                    continue
                v = t.ret[4][0][1]
                if v[0] != 'agg' or adt_path(cx, v[2]) != p:
                    continue
                n += 1
                got = []
                for fn_, x in v[4]:
                    src = [y for y in walk(x) if y[0] == 'res' and re.search(r'::(next_element|next_element_seed|newtype_variant|next_value)$|[|:]deserialize$', y[1])]
                    if src:
                        got.append((max(y[-1] for y in src), fn_))
                read.setdefault(v[3] or a['variants'][0]['n'], set()).add(tuple(f for _, f in sorted(got)))
        for v, fs in names.items():
            if not fs:
                continue
            w = next(iter(wrote.get(v, {()})))
            cx.check(any(len(x) == len(fs) for x in read.get(v, ())) and all(x == w for x in read.get(v, ())), 'not-read', short(p) + '.' + v,
                     f'the fields are not read as they were written: {w} and {sorted(read.get(v, ()))}')
    cx.floor(n, 12, 'ways a value is written or read')


# ---------------------------------------------------------------- shards
def literal(t):
    """the pieces of a format template around its only argument"""
    if t[0] == 'pf' and t[1] == 'fmt' and len(t[2]) == 2 and isinstance(t[2][0], tuple):
        h = t[2][0]
        s = next((x for x in h if isinstance(x, str) and x.startswith('hex:')), None)
        if s is None:
            return None
        b = bytes.fromhex(s[4:])
        pieces, cur, i, holes = [], b'', 0, 0
        while i < len(b) and b[i] != 0:
            if b[i] < 0x80:
                cur += b[i + 1:i + 1 + b[i]]
                i += 1 + b[i]
            else:
                if b[i] != 0xc0:
                    return None
                pieces.append(cur)
                cur = b''
                holes += 1
                i += 1
        pieces.append(cur)
        return pieces if holes == 1 else None
    return None


def spaces_of(cx):
    """names of the tables that a store of a shard works on: {log | ballot: term}"""
    out = {}
    for t in ok_ends(cx, 'backend_get'):
        for x in walk(t.ret):
            if x[0] == 'agg' and x[1] != 'enum' and x[2].startswith('crate::') and x[2].split('::')[-1] in ('LogStore', 'BallotStore'):
                for k, v in x[4]:
                    if any(y[0] == 'pf' and y[1] == 'fmt' for y in walk(v)) or v == cx.arg('get', 2):
                        out.setdefault(x[2] + '.' + k, set()).add(v)
    return out


def shard_tables(cx):
    """The log and the ballot of each shard are in tables of their own: the names differ between two shards and between the
    two stores, and each store works only on its table."""
    sp = spaces_of(cx)
    cx.floor(len(sp), 2, 'stores of a shard')
    pieces = {}
    for q, vs in sp.items():
        for v in vs:
            ps = literal(v)
            cx.check(ps is not None and v[2][1] == cx.arg('get', 2), 'name', short(q), 'the name of the table is not given by the shard: ' + show(v)[:120])
            if ps:
                pieces[q] = ps
    qs = sorted(pieces)
    for i, a in enumerate(qs):
        for b in qs[i + 1:]:
            x, y = pieces[a], pieces[b]
            pre = not (x[0].startswith(y[0]) or y[0].startswith(x[0]))
            suf = not (x[1].endswith(y[1]) or y[1].endswith(x[1]))
            cx.check(pre or suf, 'shared-table', short(a) + ' / ' + short(b), 'two stores may share a table')
    n = 0
    for r in store_roots(cx):
        if r in ('backend_get', 'bg:redb'):
            continue
        fn = r.split(':')[1]
        for t in cx.traces(r):
            for e in t.events:
                if e.kind == 'call' and e.a[0] in (OPENW, OPENR):
                    n += 1
                    nm = name_of(e.a[2])
                    cx.check(is_store_field(cx, nm, fn, 1) and nm[2] in sp, 'table', where(e), 'a store works on the table of another shard or store', t, e)
                if e.kind == 'send' and e.a[1][0] == 'agg':
                    n += 1
                    nm = [x for _, x in e.a[1][4] if is_store_field(cx, x, fn, 1)]
                    cx.check(len(nm) == 1 and nm[0][2] in sp, 'queued-table', where(e), 'an entry is queued for the log of another shard', t, e)
    # on creation: the table opened is the one kept
    for t in cx.traces('backend_get'):
        for e in t.events:
            if e.kind == 'call' and e.a[0] == OPENW:
                n += 1
                cx.check(any(name_of(e.a[2]) in vs for vs in sp.values()), 'created', where(e), 'the table that is created is not the one the store works on', t, e)
    cx.floor(n, 7, 'tables opened')


def request_shard(cx):
    """A message names the shard of the process that sends it, and is handled by the process attached under the shard it
    names; attaching, detaching and looking up processes use the given shard."""
    n = m = 0
    sh = cx.shared_field('shard_id')
    if not sh:
        raise AnchorMissing('shard_id of the driver')
    for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: e.kind == 'rpc'):
        for x in walk(e.a[2]):
            if x[0] == 'agg' and x[1] != 'enum' and any(k == 'shard_id' for k, _ in x[4]):
                n += 1
                cx.check(afield(x, 'shard_id') in sh, 'sent-shard', where(e), 'a message names another shard than that of its sender', t, e)
    hq = 'ReplicationStreamHeader'
    for r, t, i, e in distinct(cx, cx.process_roots(), lambda e: e.kind == 'rpc' and e.a[0] == 'send_replication_stream'):
        from rules_repl import yields
        for f, v, first, _ in yields(cx, e.a[2], e.facts):
            for x in walk(v):
                if x[0] == 'agg' and x[2].endswith(hq):
                    n += 1
                    cx.check(afield(x, 'shard_id') in sh, 'sent-shard', where(e), 'a stream names another shard than that of its sender', t, e)
    cx.floor(n, 6, 'messages that name a shard')
    procs = proc_maps(cx)
    for r in cx.A.rpcs():
        run = cx.run(r)
        seen = set()
        for t in run.traces:
            for b, v in t.facts.bools.items():
                if b[0] == 'has' and b[1][0] == 'cell' and b[1][1] in procs and b not in seen:
                    seen.add(b)
                    m += 1
                    cx.check(named_shard(cx, r, b[2]), 'handled-shard', r, 'a request is handled by the process of another shard than it names: ' + show(b[2])[:120], t)
            if r != 'rpc:send_heartbeat' and touches_process(cx, t):
                cx.check(any(b[0] == 'has' and b[1][0] == 'cell' and b[1][1] in procs and v is True for b, v in t.facts.bools.items()), 'no-lookup', r,
                         'a request is handled without looking up the process of its shard', t)
    cx.floor(m, 10, 'look-ups of the process of a request')
    for r, kinds in (('node:attach', ('insert',)), ('node:detach', ('remove',))):
        for t in cx.traces(r, 'ret'):
            es = [e for e in t.events if e.kind in ('insert', 'remove', 'set', 'clear') and e.a and e.a[0][0] == 'cell' and e.a[0][1] in procs]
            if cx.check(len(es) == 1 and es[0].kind in kinds, 'table-of-processes', r, 'the process is not attached or detached', t):
                e = es[0]
                k = cx.arg({'node:attach': 'attach_process', 'node:detach': 'detach_process'}[r], 2)
                cx.check(e.a[1] == k, 'attached-shard', where(e), 'a process is attached or detached under another shard', t, e)
                if e.kind == 'insert':
                    cx.check(contains_term(e.a[2], cx.arg('attach_process', 3)), 'attached', where(e), 'another process is attached', t, e)
    for t in cx.traces('node:driver', 'ret'):
        d = t.ret
        cx.check(d[0] == 'agg' and afield(d, 'shard_id') == cx.arg('get_driver', 2), 'driver-shard', 'node::RaftNode::get_driver', 'the driver of another shard is handed out', t)
    for t in cx.traces('node:get', 'ret'):
        v = t.ret
        if v[0] == 'agg' and v[3] == 'Some':
            x = v[4][0][1]
            cx.check(x[0] == 'mval' and x[2] == cx.arg('get_process', 2), 'looked-up', 'node::RaftNode::get_process', 'the process of another shard is looked up', t)


def proc_maps(cx):
    return [x for x in cx.shared_field('process')]


def touches_process(cx, t):
    return any(e.kind == 'call' and str(e.a[0]).startswith(('RaftLogStore::', 'RaftBallotStore::', 'RaftApp::')) for e in t.events)


def named_shard(cx, r, k):
    """k is the shard that the request names"""
    req = cx.arg(r, 2)
    if r == 'rpc:send_heartbeat':
        return k[0] in ('mkey', 'elem') and isf(k[1], 'leader_commit_states') and contains_term(k, req)
    if r == 'rpc:send_replication_stream':
        return isf(k, 'shard_id') and 'ReplicationStreamHeader' in k[2] and contains_term(k, req)
    return isf(k, 'shard_id') and k[1] == req


# ---------------------------------------------------------------- heartbeats of many shards
def heartbeat_collected(cx):
    """The heartbeat of a shard for a peer is put into the buffer of that peer under the shard's own id, and the newest one of
    each shard is sent."""
    n = 0
    for r, t, i, e in distinct(cx, ['task:heartbeat'], lambda e: e.kind == 'insert'):
        n += 1
        sh = cx.shared_field('shard_id')
        cx.check(e.a[1] in sh, 'shard', where(e), 'a heartbeat is kept under another shard', t, e)
        key = [x for x in walk(e.a[0]) if x[0] == 'mval']
        cx.check(key and all(x[2][0] == 'arg' and x[2][1] == 'task' for x in key), 'peer', where(e), 'a heartbeat is queued for another peer', t, e)
    cx.floor(n, 1, 'heartbeats queued')


TAKEN = ('drain', 'clear', 'set', 'remove', 'split_off', 'retain')


def heartbeat_batched(cx):
    """One message per peer and interval carries the collected heartbeats, each under its shard, with its term and its commit
    index, in the name of this node; sending them never stops, and a failed sending is not the last."""
    n = m = 0
    root = 'bg:heartbeat_multiplex'
    st = cx.gen('LeaderCommitState')
    for r, t, i, e in distinct(cx, [root], lambda e: e.kind == 'rpc' and e.a[0] == 'send_heartbeat'):
        msg = e.a[2]
        n += 1
        cx.check(contains_term(afield(msg, 'leader_id'), cx.self_id()), 'leader', where(e), 'the heartbeats are not sent in the name of this node', t, e)
        states = afield(msg, 'leader_commit_states')
        for c in walk(states):
            if c[0] == 'coll':
                for op in c[2]:
                    if op[0] != 'add':
                        cx.bad('removed', where(e), 'collected heartbeats are taken out again', t, e)
                        continue
                    m += 1
                    k, s = op[1][0], op[1][1]
                    ok = isinstance(k, tuple) and k[0] == 'mkey' and s[0] == 'agg' and s[2] == st
                    if cx.check(ok, 'element', where(e), 'what is sent for a shard is not its collected heartbeat', t, e):
                        for f, x in s[4]:
                            cx.check(isf(x, f) and value_of(x[1], k), 'field-' + f, where(e), f'the {f} sent for a shard is not the one collected for it', t, e)
                        cond = [l for l in op[2] if l[0] != 'b' or l[1][0] != 'has'] if isinstance(op[2], (tuple, list)) else []
                        cx.check(not cond, 'condition', where(e), 'collected heartbeats of some shards are not sent', t, e)
                        src = {x for x in walk(k) if x[0] == 'cell'}
                        cx.check(not src or any(g.kind in TAKEN and any(x in src for x in walk(g.a[0])) for g in t.events[:i]), 'again', where(e),
                                 'a heartbeat that was sent is sent again, also when this node leads no more', t, e)
    cx.floor(n, 1, 'messages with heartbeats')
    cx.floor(m, 1, 'heartbeats in a message')
    whole(cx, [root], 'collected heartbeats of some shards are not sent')
    for t in cx.traces(root):
        dr = [i for i, e in enumerate(t.events) if e.kind == 'drain']
        if not t.end.startswith(('turn', 'iter')):
            cx.bad('ends', root, 'the sending of heartbeats ends', t)
        elif t.end.startswith('turn') and t.loop and cx.P.endless(cx.P.bodies[t.loop[0]], t.loop[1]) and dr:
            cx.check(any(e.kind == 'rpc' for e in t.events[dr[-1]:]) or not_outer(cx, t), 'unsent', root, 'collected heartbeats are not sent', t)


def connected_to(cx):
    """The connection kept for a node leads to the address of that node, and what it sends by itself is sent over that
    connection in the name of this node."""
    me = cx.self_id()
    n = m = 0
    for r in cx.process_roots():
        for c, k, v, spawned, site in cx.A.runs[r].getwith:
            cx.roots_used.add(r)
            n += 1
            to = [set(ids(x)) for x in walk(v) if x[0] == 'pf' and x[1] == 'client']
            cx.check(to and all(len(x) == 1 and next(iter(x)) in (k, strip(k)) for x in to), 'connected-elsewhere', site,
                     'the connection kept for a node does not lead to that node')
            for sp in spawned:
                m += 1
                args = [x for x in (sp[2] if len(sp) > 2 else ())]
                cl = [x for a in args for x in walk(a) if x[0] == 'pf' and x[1] == 'client']
                rest = [a for a in args if not any(x[0] == 'pf' and x[1] == 'client' for x in walk(a))]
                cx.check(cl and all(set(ids(x)) in ({k}, {strip(k)}) for x in cl), 'sent-elsewhere', site, 'heartbeats for a node are not sent to it')
                kept = {x for x in walk(v) if x[0] == 'new'}
                cx.check(any(x in kept for a in rest for x in walk(a)), 'unsent-buffer', site, 'what is collected for a node is not what is sent to it')
                cx.check(k == me or me in rest and k not in rest, 'sent-as-another', site, 'heartbeats are not sent in the name of this node')
    cx.floor(n, 4, 'connections')
    cx.floor(m, 4, 'senders of heartbeats')


def ids(c):
    """the nodes an address is made from"""
    return [x[1] for x in walk(c) if x[0] == 'fld' and x[2].endswith('NodeId.0')]


def value_of(v, k):
    """v is the value under the key k of the same map"""
    v = strip(v)
    return v[0] == 'mval' and v[1] == k[1] and v[2] == k


def not_outer(cx, t):
    """the end of a loop inside the turn"""
    return t.loop[2] > 1


def heartbeat_delivered(cx):
    """A received message of heartbeats is handed to every attached shard in it, with the term and the commit index given for
    that shard and the sender as leader; the shards are served independently: the failure of one ends none of the others."""
    n = m = 0
    root = 'rpc:send_heartbeat'
    req = cx.arg(root, 2)
    procs = proc_maps(cx)
    for t in cx.traces(root):
        hs = [(b, v) for b, v in t.facts.bools.items() if b[0] == 'has' and b[1][0] == 'cell' and b[1][1] in procs]
        terms = {x for l in t.facts.log for x in walk(l) if isf(x, 'leader_term')}
        for x in terms:
            n += 1
            v = strip(x[1])
            if not cx.check(v[0] == 'mval' and isf(v[1], 'leader_commit_states') and contains_term(x, req), 'term', root, 'the term of a heartbeat is not the one sent for the shard', t):
                continue
            key = v[2]
            cx.check(any(v is True and b[2] == key for b, v in hs), 'shard', root, 'a heartbeat is handed to another shard than it is for', t)
        used = [x for l in t.facts.log for x in walk(l) if isf(x, 'leader_commit_index') and contains_term(x, req)]
        for x in used:
            v = strip(x[1])
            cx.check(v[0] == 'mval' and isf(v[1], 'leader_commit_states') and any(val is True and b[2] == v[2] for b, val in hs), 'index', root,
                     'the commit index of a heartbeat is not the one sent for the shard', t)
        hit = [i for i, e in enumerate(t.events) if e.kind == 'call' and str(e.a[0]).startswith('RaftBallotStore::')]
        if not hit or t.end.startswith('iter'):
            continue
        m += 1
        e = t.events[hit[0]]
        joined = [g for g in t.events[:hit[0]] if g.kind == 'await' and g.a[0] in ('join_all', 'try_join_all')]
        for g in joined:
            conds = [l for c in walk(g.a[1:]) if c[0] == 'coll' for op in c[2] if op[0] == 'add' for l in op[2]]
            cx.check(all(l[0] == 'b' and l[1][0] == 'has' and (isf(l[1][1], 'leader_commit_states') or l[2] is True) for l in conds), 'left-out', where(g),
                     'some of the shards do not get their heartbeat', t, g)
        cut = t.end == 'panic' or t.ret is not None and t.ret[0] == 'agg' and t.ret[3] == 'Err' or any(
            b[0] == 'has' and v is True and isf(b[1], 'leader_commit_states') for b, v in t.facts.bools.items())
        cx.check(joined and joined[-1].a[0] == 'join_all' or not cut and not joined, 'isolated', where(e),
                 'the failure of a heartbeat of one shard ends those of the other shards', t, e)
    cx.floor(n, 3, 'heartbeats handed to a process')
    whole(cx, [root], 'some of the shards do not get their heartbeat')
    # where the shards are gone through by a loop, the loop goes on after one that is not there
    looped = any(b[0] == 'has' and isf(b[1], 'leader_commit_states') for t in cx.traces(root) if t.end.startswith('iter') and t.loop
                 for l in t.facts.log[t.loop[3]:] if l[0] == 'b' for b in (l[1],))
    for t in cx.traces(root, 'ret'):
        gone = [b for b, v in t.facts.bools.items() if v is False and b[0] == 'has' and b[1][0] == 'cell' and b[1][1] in procs and b[2][0] == 'mkey' and isf(b[2][1], 'leader_commit_states')]
        cx.check(not (looped and gone), 'missing-ends', root, 'a shard that is missing keeps the others from their heartbeats', t)
    cx.floor(m, 1, 'heartbeats processed')
