"""C18 RFID statistics count what happened."""
import math
import random
import numpy as np
from pyvc.runner import case
from specs.readerkit import *
from specs.handlerkit import *
from specs import tagkit
from specs.c16 import world, nxt, fire, switch_on, TagStub, MediumStub

ASSUME = ['kernel under its contract (C01-C04)', 'when a tag joins a round or follows an adjustment is C10', 'which replies arrive is C15']


# ------------------------------------------------------------- what a command adds to the records
@case('C18', 'rounds are counted for every Query taken part in, adjustments for every QueryAdjust followed', samples=600, shards=4)
def counts(b):
    k = HKernel(b); m = ob.Model(); k.context = m; m.medium = MediumStub(b)
    q = b.choice('Q', [2, 0, 15])
    r = new_reader(b, link='fixed', q=q, all_settings=False); r.kernel = k; m.reader = r; stir(b, m); b.ensure_ok(b.call(r.turn_on))
    ses = r.session; other = std.Session.S2 if ses is not std.Session.S2 else std.Session.S1
    name = b.choice('command', ['Query', 'QueryRep', 'QueryAdjust', 'Ack', 'ReqRN', 'Read'])
    cs = b.choice('session of the command', [ses, other]); updn = b.choice('updn', [-1, 1])
    cmd = {'Query': lambda: std.Query(std.DivideRatio.DR_8, std.TagEncoding.FM0, False, std.SelFlag.ALL, cs, std.InventoryFlag.A, q, 0), 'QueryRep': lambda: std.QueryRep(cs), 'QueryAdjust': lambda: std.QueryAdjust(cs, updn),
           'Ack': lambda: std.Ack(7), 'ReqRN': lambda: std.ReqRN(7, 0), 'Read': lambda: std.Read(std.MemoryBank.TID, 0, 4, 7, 0)}[name]()
    f = tagkit.frame(cmd)
    want = []
    for i in range(b.choice('tags', [1, 2]) if not b.symbolic else 1):
        t, _, st = tagkit.any_tag(b, actives=[ses, None] if i == 0 else [ses], enc=std.TagEncoding.FM0)
        if t._active_session is None and st != 'READY' and st != 'OFF': b.assume(False)
        t.kernel = k; m.tags.append(t)
        rec = b.ensure_ok(b.call(m.statistics.create_tag_record, t))
        b.need(rec, 'num_rounds_attained', 'num_qadjust_attained')
        b.set(rec, num_rounds_attained=b.int('rounds so far', 0, 10 ** 6), num_qadjust_attained=b.int('adjustments so far', 0, 10 ** 6))
        want.append((t, rec, rec.num_rounds_attained, rec.num_qadjust_attained, name == 'QueryAdjust' and cs is t._active_session and st in ('ARBITRATE', 'REPLY')))
    b.ensure_ok(b.call(hd._build_transaction, k, r, f))
    for t, rec, rounds, adj, follows in want:
        joins = name == 'Query' and t.state in (ob.Tag.State.ARBITRATE, ob.Tag.State.REPLY)
        b.ensure('one round for a Query taken part in, none otherwise', b.eq(rec.num_rounds_attained, rounds + (1 if joins else 0)))
        b.ensure('one adjustment for a QueryAdjust followed, none otherwise', b.eq(rec.num_qadjust_attained, adj + (1 if follows else 0)))
        b.ensure('nothing is read by sending a command', len(rec.inventory_history) == 0)


class KindStub(TagStub):
    """a tag that ends up in a given state and answers as told"""
    def __init__(self, b, i, answers, ends): super().__init__(b, i, answers); self.ends = ends
    def receive(self, frame): self.log.append(('command', frame)); self.state = self.ends; return tag_frame('rn16', 9) if self.answers else None
    receive.pyvc_model = True


@case('C18', 'any number of tags: those a Query leaves in the round get one round each, the others none', mode='sym')
def any_counts(b):
    from pyvc.seq import Base, Seq, Groups
    k = HKernel(b); m = ob.Model(); k.context = m; m.medium = MediumStub(b)
    q = b.choice('Q', [2, 15])
    r = new_reader(b, link='fixed', q=q, all_settings=False); r.kernel = k; m.reader = r; stir(b, m); b.ensure_ok(b.call(r.turn_on))
    cmd = b.choice('command', [std.Query(std.DivideRatio.DR_8, std.TagEncoding.FM0, False, std.SelFlag.ALL, r.session, std.InventoryFlag.A, q, 0), std.QueryRep(r.session), std.QueryAdjust(r.session, 1), std.Ack(7), std.ReqRN(7, 0), std.Read(std.MemoryBank.TID, 0, 4, 7, 0)])
    parts = []; want = []; states = [ob.Tag.State.ARBITRATE, ob.Tag.State.REPLY, ob.Tag.State.READY, ob.Tag.State.ACKNOWLEDGED, ob.Tag.State.SECURED, ob.Tag.State.OFF]
    for i, ends in enumerate(states):
        t = KindStub(b, i, ends is ob.Tag.State.REPLY, ends); t.slot_counter = b.int(f'slot {i}', 1, 2 ** q - 1) if ends is ob.Tag.State.ARBITRATE else 0; base = Base(b, f'tags that end in {ends.name}')
        rec = b.ensure_ok(b.call(m.statistics.create_tag_record, t)); b.need(rec, 'num_rounds_attained', 'num_qadjust_attained')
        b.set(rec, num_rounds_attained=b.int('rounds so far', 0), num_qadjust_attained=b.int('adjustments so far', 0))
        want.append((rec, rec.num_rounds_attained, rec.num_qadjust_attained, i < 2 and isinstance(cmd, std.Query)))
        parts.append(Seq(base, t, owned=(rec,)))
    m.tags = Groups(parts)
    if hasattr(ob, '_TagPowerMinMap'):
        b.stub(ob._TagPowerMinMap, '__init__', lambda o, values: None); b.stub(ob._TagPowerMinMap, 'update', lambda o, tag, power: None); b.stub(ob._TagPowerMinMap, 'get', lambda o, tag: -60)
    some = b.choice('anybody there', [True, False])
    for q in parts: b.assume(b.lt(0, q.base.n) if some else b.eq(q.base.n, 0))
    b.ensure_ok(b.call(hd._build_transaction, k, r, tagkit.frame(cmd)))
    if not some: return
    for rec, rounds, adj, joins in want:
        b.ensure('one round for a Query taken part in, none otherwise', b.eq(rec.num_rounds_attained, rounds + (1 if joins else 0)), replayable=False)
        b.ensure('adjustments are counted by the tags', b.eq(rec.num_qadjust_attained, adj), replayable=False)
        b.ensure('nothing is read by sending a command', len(rec.inventory_history) == 0, replayable=False)


# ------------------------------------------------------------- what a reply adds to the records
class Outcome(FakeTx):
    pass


@case('C18', 'a received EPC yields one read record with the facts of that moment, a received TID marks it', samples=600, shards=2)
def replies(b):
    k = HKernel(b); m = ob.Model(); k.context = m; m.medium = MediumStub(b); m.statistics.use_power_statistics = False
    r = new_reader(b, link='fixed', q=2, all_settings=False); r.kernel = k; m.reader = r; stir(b, m); r.use_query_adjust = b.choice('adjust', [False, True]); r.adjust_delta = b.num(0.5); r.q_fp = 2
    for i in range(b.choice('antennas', [1, 2])):
        a = ob.Antenna(); a.pos = np.array([b.real(f'antenna{i}{c}', -9, 9) for c in 'xyz'], dtype=object if b.symbolic else float); r.attach_antenna(a)
    b.ensure_ok(b.call(r.turn_on))
    for i in range(b.choice('slots before', [0, 1, 3, 5])): b.ensure_ok(b.call(r.next_slot))
    if r.num_antennas > 1 and b.choice('second antenna', [True, False]): b.ensure_ok(b.call(r.select_next_antenna))
    kind = b.choice('reply', ['rn16', 'epc', 'none', 'several'])
    b.ensure_ok(b.call(r.set_state, {'epc': RS.ACK}.get(kind, RS.QREP)))
    tags = [TagStub(b, i, False) for i in range(2)]
    for t in tags:
        t.pos = np.array([b.real(f'tag{t.tag_id}{c}', -9, 9) for c in 'xyz'], dtype=object if b.symbolic else float); t.normalized_direction = np.array([0, 1, 0]); t.velocity = b.real('speed', 0, 50)
        b.ensure_ok(b.call(m.statistics.create_tag_record, t))
    m.tags = list(tags); t = tags[0]; rec = m.statistics.get_tag_record(t)
    left = b.choice('the tag has left', [False, True])
    if left: b.ensure_ok(b.call(hd.remove_tag, k, t))
    snr, ber = b.real('SNR', 0, 1e6), b.real('BER', 0, 0.5)
    f = tag_frame(kind, 9) if kind in ('rn16', 'epc') else None
    rnd, ant, pos, apos = r.inventory_round.index, r.antenna_index, list(t.pos), list(r.antenna.pos)
    tx = Outcome(b, None, [(t, f)] if f else ([(x, tag_frame('rn16', 1)) for x in tags] if kind == 'several' else []), (t, f, snr, ber) if f else (None,) * 4)
    m.transaction = tx; k.context = m
    b.ensure_ok(b.call(hd.finish_transaction, k, tx))
    for x in tags:
        h = (rec if x is t else m.statistics.get_tag_record(x)).inventory_history
        b.ensure('one read record for a received EPC, none otherwise', len(h) == (1 if kind == 'epc' and x is t else 0))
    if kind != 'epc': return
    rr = rec.inventory_history[0]
    b.need(rr, 'round_index', 'antenna_index', 'tag_pos', 'reader_antenna_pos', 'snr', 'ber', 'read_tid')
    b.ensure('with the round of that moment', b.eq(rr.round_index, rnd)); b.ensure('with the antenna of that moment', b.eq(rr.antenna_index, ant))
    t.pos += np.array([1, 1, 1]) if not b.symbolic else np.array([1, 1, 1], dtype=object)
    r.antenna.pos += np.array([1, 1, 1])
    b.ensure('with the position of the tag at that moment', b.eq(list(rr.tag_pos), pos)); b.ensure('with the position of the antenna at that moment', b.eq(list(rr.reader_antenna_pos), apos))
    b.ensure('with the SNR and BER of that moment', b.And(b.eq(rr.snr, snr), b.eq(rr.ber, ber)))
    b.ensure('no TID yet', rr.read_tid is False)
    if not r.read_tid_bank: return
    # handle, then the TID or nothing
    tid = b.choice('the TID arrives', [True, False])
    for kind2 in (['handle', 'data'] if tid else ['handle', None]):
        fr = tag_frame(kind2, 9) if kind2 else None
        tx = m.transaction = Outcome(b, None, [(t, fr)] if fr else [], (t, fr, snr, ber) if fr else (None,) * 4)
        b.ensure_ok(b.call(hd.finish_transaction, k, tx))
    b.ensure('still one record', len(rec.inventory_history) == 1 and rec.inventory_history[0] is rr)
    b.ensure('marked as TID-read exactly when the TID arrived', bool(rr.read_tid) == tid)


@case('C18', 'a tag read again and again: one record per EPC, marked per TID', samples=300, shards=4)
def reread(b):
    k, m, r, mode = world(b, answering=1, silent=1)
    m.medium.ber = 0; r.use_query_adjust = False
    b.set(r, read_tid_bank=b.choice('reads TIDs', [True, False]), tari=b.num(6.25e-6), rtcal=b.num(18.75e-6), trcal=b.num(37.5e-6), delim=b.num(12.5e-6), read_tid_words_num=4)
    switch_on(b, k, m, r)
    t, idle = m.tags; want = []
    quiet = b.choice('silent during', [None, 2, 3] if b.symbolic else [None, 2, 3, 1, 4, 6, 7])
    for i in range(9 if b.symbolic else 20):
        tx = m.transaction; cmd = get(b, tx, 'command').command; hears = len(get(b, tx, 'replies')) == 1
        t.answers = i + 1 != quiet
        nxt(b, k, m, r, 'next')
        if isinstance(cmd, std.Ack) and hears: want.append(False)
        if isinstance(cmd, std.Read) and hears: want[-1] = True
    rec = m.statistics.get_tag_record(t)
    b.ensure('one record per EPC received, marked where a TID was', [bool(x.read_tid) for x in rec.inventory_history] == want)
    b.ensure('nothing for the tag that never answers', not m.statistics.get_tag_record(idle).inventory_history)
    b.ensure('current records stay out of the history', not m.statistics.tags_history)


# ------------------------------------------------------------- the reported figures
def reported(b, s, n, mean, inv, tid):
    b.ensure('average rounds per tag: mean round count, 0 without tags', b.ite(b.eq(n, 0), b.eq(b.ensure_ok(b.call(s.average_rounds_per_tag)), 0), b.eq(b.ensure_ok(b.call(s.average_rounds_per_tag)) * n, mean)) if not (b.symbolic and not isinstance(n, int)) else
             b.eq(b.ensure_ok(b.call(s.average_rounds_per_tag)) * n, mean))
    for what, f, c in (('inventory probability', s.inventory_probability, inv), ('TID probability', s.read_tid_probability, tid)):
        p = b.ensure_ok(b.call(f))
        b.ensure(f'{what}: share of departed tags, 0 without tags', b.And(b.Implies(b.eq(n, 0), b.eq(p, 0)), b.eq(p * n, c)))


@case('C18', 'reported figures, histories of any length', mode='sym')
def figures(b):
    from pyvc.seq import Base, Seq
    from pyvc.sym import Sym, uf
    hist = Base(b, 'departed tags'); j = hist.j
    reads = Base(b, 'read records', n=Sym(uf('reads of tag', 'i', 'i')(j))); i = reads.j
    b.assume(b.le(0, reads.n))
    rr = b.ensure_ok(b.call(ob._TagReadRecord)); tid = Sym(uf('TID read', 'i', 'i', 'b')(j, i)); rr.read_tid = tid
    rec = b.ensure_ok(b.call(ob._TagRecord, b.atom('tag')))
    b.set(rec, num_rounds_attained=Sym(uf('rounds of tag', 'i', 'i')(j)), num_qadjust_attained=Sym(uf('adjustments of tag', 'i', 'i')(j)), inventory_history=Seq(reads, rr))
    s = b.ensure_ok(b.call(ob.Statistics)); b.set(s, tags_history=Seq(hist, rec))
    # what they ought to be
    inv = hist.count(b.lt(0, reads.n)); tids = hist.count(b.lt(0, reads.count(tid)))
    reported(b, s, hist.n, hist.total(True, rec.num_rounds_attained), inv, tids)


@case('C18', 'reported figures', samples=1500)
def figures_n(b):
    s = b.ensure_ok(b.call(ob.Statistics)); n = b.choice('departed', [0, 1, 2] if b.symbolic else [0, 1, 2, 3, 5, 9, 17]); tot = inv = tids = 0
    for x in range(n):
        rec = b.ensure_ok(b.call(ob._TagRecord, b.atom('tag'))); rec.num_rounds_attained = b.int('rounds', 0, 500); tot = tot + rec.num_rounds_attained
        hits = [b.choice('TID read', [True, False]) for _ in range(b.choice('reads', [0, 1, 2] if b.symbolic else [0, 1, 2, 3, 7]))]
        for h in hits:
            rr = b.ensure_ok(b.call(ob._TagReadRecord)); rr.read_tid = h; rec.inventory_history.append(rr)
        inv += bool(hits); tids += any(hits); s.tags_history.append(rec)
    if b.choice('somebody is still around', [True, False]):
        t = TagStub(b, 5, True); cur = b.ensure_ok(b.call(s.create_tag_record, t)); cur.num_rounds_attained = 1000; rr = ob._TagReadRecord(); rr.read_tid = True; cur.inventory_history.append(rr)
    p = [b.ensure_ok(b.call(f)) for f in (s.average_rounds_per_tag, s.inventory_probability, s.read_tid_probability)]
    b.ensure('average rounds per tag: mean round count of the departed, 0 without', b.eq(p[0] * n, tot) and (n > 0 or b.eq(p[0], 0)))
    b.ensure('inventory probability: share of departed tags read, 0 without', b.eq(p[1] * n, inv) and (n > 0 or b.eq(p[1], 0)))
    b.ensure('TID probability: share of departed tags whose TID was read, 0 without', b.eq(p[2] * n, tids) and (n > 0 or b.eq(p[2], 0)))


@case('C18', 'a record lives from entry to departure', samples=200)
def lifecycle(b):
    s = b.ensure_ok(b.call(ob.Statistics)); tags = [TagStub(b, i, False) for i in range(4)]; cur = {}; gone = []
    for i in range(b.choice('operations', [3] if b.symbolic else [3, 4, 7])):
        free = [t for t in tags if t not in cur and t not in [x for x, _ in gone]]
        op = b.choice('operation', ['enter', 'leave'])
        if op == 'enter' and free:
            cur[free[0]] = b.ensure_ok(b.call(s.create_tag_record, free[0]))
            b.ensure('the record of that tag', cur[free[0]].tag is free[0] and len(cur[free[0]].inventory_history) == 0 and cur[free[0]].num_rounds_attained == 0 and cur[free[0]].num_qadjust_attained == 0)
        elif op == 'leave' and cur:
            t = list(cur)[b.choice('who', [0, -1])]; b.ensure_ok(b.call(s.close_tag_record, t)); gone.append((t, cur.pop(t)))
        for t, rec in cur.items(): b.ensure('one record while the tag is there', b.ensure_ok(b.call(s.get_tag_record, t)) is rec)
        b.ensure('in the history after departure, once, in order', len(s.tags_history) == len(gone) and all(x is y for x, (_, y) in zip(s.tags_history, gone)))


@case('C18', 'many tags, many reads, many departures', mode='native', samples=8, thorough=80, bound='8 histories of up to 1500 departures and 3000 reads of one tag')
def many(b):
    s = b.ensure_ok(b.call(ob.Statistics)); n = b.choice('tags', [5, 90, 1500]); r = random.Random(b.int('seed', 0, 2 ** 31))
    reader = ob.Reader(Kernel()); a = ob.Antenna(); a.pos = np.array([0., 0., 5.]); reader.attach_antenna(a)
    here = {}; gone = []; rounds = {}; hits = {}; tids = {}
    heavy = r.randrange(n)
    for i in range(n):
        t = TagStub(b, i, False); rec = here[t] = b.ensure_ok(b.call(s.create_tag_record, t))
        rec.num_rounds_attained = rounds[t] = r.choice([0, 1, 7, 10 ** 5]); hits[t] = []
        for j in range(3000 if i == heavy else r.choice([0, 0, 1, 2, 70])):
            rr = b.ensure_ok(b.call(rec.new_tag_read_record, reader, j)); rr.read_tid = r.random() < .3; hits[t].append((rr, j, rr.read_tid))
            if r.random() < .9: b.ensure_ok(b.call(rec.close_tag_read_record))
        while len(here) > r.choice([1, 30, 400]):
            t2 = r.choice([list(here)[0], list(here)[-1]]); b.ensure_ok(b.call(s.close_tag_record, t2)); gone.append((t2, here.pop(t2)))
    for t, rec in list(gone) + list(here.items()):
        b.ensure('every read is kept, in order', len(rec.inventory_history) == len(hits[t]) and all(x is y[0] and x.round_index == y[1] and x.read_tid == y[2] for x, y in zip(rec.inventory_history, hits[t])))
    b.ensure('every departed tag is in the history, in order', len(s.tags_history) == len(gone) and all(x is y for x, (_, y) in zip(s.tags_history, gone)))
    b.ensure('the others keep their records', all(s.get_tag_record(t) is rec for t, rec in here.items()))
    d = [t for t, _ in gone]; m = max(1, len(d))
    for f, want in ((s.average_rounds_per_tag, sum(rounds[t] for t in d) / m), (s.inventory_probability, sum(bool(hits[t]) for t in d) / m), (s.read_tid_probability, sum(any(x[2] for x in hits[t]) for t in d) / m)):
        b.ensure('reported figures', b.eq(b.ensure_ok(b.call(f)), want))


@case('C18', 'rounds and adjustments of a crowd', mode='native', samples=12, thorough=120, bound='12 commands to up to 300 tags')
def crowd(b):
    k = HKernel(b); m = ob.Model(); k.context = m; m.medium = MediumStub(b); m.statistics.use_power_statistics = False
    r = new_reader(b, link='fixed', q=b.choice('Q of the round', [0, 4, 8]), all_settings=False); r.kernel = k; m.reader = r; b.ensure_ok(b.call(r.turn_on))
    for i in range(b.choice('tags', [40, 130, 300])):
        t = b.ensure_ok(b.call(ob.Tag, i, k)); t.epc = 'AABB'; t.tid = 'CCDD'; t.antenna.pos = np.array([0., 0., 0.]); b.ensure_ok(b.call(t.set_power, 0.0, -5.0)); m.tags.append(t)
        b.ensure_ok(b.call(m.statistics.create_tag_record, t))
    q = std.Query(std.DivideRatio.DR_8, std.TagEncoding.FM0, False, std.SelFlag.ALL, r.session, std.InventoryFlag.A, r.q, 0)
    want = {t: [0, 0] for t in m.tags}
    for cmd in (q, std.QueryAdjust(r.session, b.choice('updn', [-1, 0, 1])), std.QueryRep(r.session), q):
        was = {t: t.state.name for t in m.tags}
        b.ensure_ok(b.call(hd._build_transaction, k, r, tagkit.frame(cmd)))
        for t in m.tags:
            if isinstance(cmd, std.Query): want[t][0] += t.state.name in ('ARBITRATE', 'REPLY')
            if isinstance(cmd, std.QueryAdjust): want[t][1] += was[t] in ('ARBITRATE', 'REPLY')
        got = {t: [m.statistics.get_tag_record(t).num_rounds_attained, m.statistics.get_tag_record(t).num_qadjust_attained] for t in m.tags}
        b.ensure('one round for every Query taken part in, one adjustment for every QueryAdjust followed', got == want)


@case('C18', 'whole runs: the records agree with what happened', mode='native', samples=12, thorough=400, budget=40, shards=4, bound='12 runs of up to 0.6 s model time with random settings (400 in the thorough tier)', randomize=False)
def runs(b):
    from specs import e2e
    st, gap = e2e.settings(b)
    m = e2e.cf.create_model(st); bad = []; rounds = {}; adj = {}; reads = {}; last = {}; gone = []
    orig = ob.Tag.receive; orig_rx = ob.Transaction.received_tag_frame

    def receive(t, f):
        was = t.state.name; act = t._active_session; out = orig(t, f)
        if isinstance(f.command, std.Query): rounds[t] = rounds.get(t, 0) + (t.state.name in ('ARBITRATE', 'REPLY'))
        if isinstance(f.command, std.QueryAdjust) and f.command.session is act and was in ('ARBITRATE', 'REPLY'): adj[t] = adj.get(t, 0) + 1
        return out

    def received(tx, medium, time):
        r = orig_rx(tx, medium, time)
        if r[1] is not None and isinstance(r[1].reply, std.AckReply): reads.setdefault(r[0], []).append([m.reader.inventory_round.index, list(r[0].pos), r[2], r[3], False])
        if r[1] is not None and isinstance(r[1].reply, std.ReadReply): reads[r[0]][-1][4] = True
        return r
    ob.Tag.receive = receive; ob.Transaction.received_tag_frame = received
    try: run = e2e.Run(m, None, lambda k, name, a: gone.append(a[0]) if name == 'remove_tag' else None).go(0.6)
    finally: ob.Tag.receive = orig; ob.Transaction.received_tag_frame = orig_rx
    if run.error: b.assume(False)
    s = m.statistics
    if [r.tag for r in s.tags_history] != gone: bad.append('history is not the departed tags in order')
    for rec in list(s.tags_history) + [s.get_tag_record(t) for t in m.tags]:
        t = rec.tag
        if rec.num_rounds_attained != rounds.get(t, 0): bad.append(f'rounds {rec.num_rounds_attained} != {rounds.get(t, 0)}')
        if rec.num_qadjust_attained != adj.get(t, 0): bad.append(f'adjustments {rec.num_qadjust_attained} != {adj.get(t, 0)}')
        got = [[x.round_index, list(x.tag_pos), x.snr, x.ber, x.read_tid] for x in rec.inventory_history]
        if got != reads.get(t, []): bad.append(f'reads {got} != {reads.get(t)}')
    n = len(gone)
    figs = (s.average_rounds_per_tag(), s.inventory_probability(), s.read_tid_probability())
    want = (sum(rounds.get(t, 0) for t in gone) / n, sum(bool(reads.get(t)) for t in gone) / n, sum(any(x[4] for x in reads.get(t, [])) for t in gone) / n) if n else (0, 0, 0)
    if not all(e2e.near(x, y) for x, y in zip(figs, want)): bad.append(f'figures {figs} != {want}')
    b.trace += bad[:3]
    b.ensure('records and figures agree with what happened', not bad)
