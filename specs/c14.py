"""C14 Adaptive Q moves by at most one, within 0..15, in the right direction."""
from pyvc.runner import case
from specs.readerkit import *
from specs.handlerkit import *
from specs.c16 import TagStub

ASSUME = ['any positive step and any floating Q within 0..15, also one set apart from Q', 'two or more replies are a collision (C15); link settings of the reader arbitrary']
STATES = ['QUERY', 'QREP', 'QAdjust', 'ACK', 'REQRN', 'READ']


def finish(b, outcome, state, adjust):
    """finish_transaction with a reader in that state and that outcome; -> reader, frame sent, new transaction"""
    k = HKernel(b); m = ob.Model(); k.context = m
    r = new_reader(b, q=3, all_settings=False)
    b.need(r, 'use_query_adjust', 'adjust_delta', 'q_fp', 'q', 'updn')
    r.kernel = k; m.reader = r; stir(b, m)
    b.ensure_ok(b.call(r.turn_on))
    if state == 'QREP': b.ensure_ok(b.call(r.timeout))
    elif state != 'QUERY': r.last_rn = 5; b.ensure_ok(b.call(r.set_state, RS[state]))
    q = b.int('Q', 0, 15); fp = b.real('floating Q', 0, 15); d = b.real('step', 0, 20)
    b.assume(d > 0)
    b.set(r, use_query_adjust=adjust, adjust_delta=d, q_fp=fp, q=q)
    sent = []
    r.state_change_listeners.add(Rec(sent))
    n = {'none': 0, 'lost': 1, 'received': 1}.get(outcome) if outcome != 'collision' else b.choice('replies that collide', [2, 3] if b.symbolic else [2, 3, 5, 17])
    fr = tag_frame({'ACK': 'epc', 'REQRN': 'handle', 'READ': 'data'}.get(state, 'rn16'), 77); tag = TagStub(b, 1, False)
    if outcome == 'received':
        a = ob.Antenna(); a.pos = [0., 0., 5.]; r.attach_antenna(a)
        m.tags = [tag]; rec = b.ensure_ok(b.call(m.statistics.create_tag_record, tag))
        if state == 'READ': b.ensure_ok(b.call(rec.new_tag_read_record, r, 0))
    tx = FakeTx(b, None, ((tag, fr),) if n == 1 else ((object(), object()),) * n, *([(tag, fr, 50, 0.1)] if outcome == 'received' else [])); m.transaction = tx
    b.ensure_ok(b.call(hd.finish_transaction, k, tx))
    return k, r, q, fp, d, m.transaction, sent


class Rec:
    pyvc_model = True
    def __init__(self, log): self.log = log
    def __call__(self, old, new): self.log.append(new)


def plain(b, r, sent, tx, name):
    b.ensure(f'{name}: goes on as after a timeout', sent in ([RS.QUERY], [RS.QREP]) and type(tx.command.command) is (std.Query if sent == [RS.QUERY] else std.QueryRep))


@case('C14', 'no reply and collision after Query and QueryRep', samples=500, shards=4, budget=100)
def adjusts(b):
    outcome = b.choice('outcome', ['none', 'lost', 'collision']); state = b.choice('state', STATES[:2])
    k, r, q, fp, d, tx, sent = finish(b, outcome, state, True)
    down = outcome != 'collision'
    bound = b.eq(q, 0 if down else 15)
    nfp = b.ite(bound, fp, b.max(b.num(0), fp - d) if down else b.min(b.num(15), fp + d))
    b.ensure('floating Q moves by the step, within its bound', b.eq(r.q_fp, nfp))
    rn = b.round(nfp)
    want = b.ite(b.And(b.Not(bound), b.Or(b.eq(rn, q - 1), b.eq(rn, q + 1))), rn, q)
    b.ensure('Q follows the rounded floating Q exactly when that differs by one', b.eq(r.q, want))
    together = b.eq(b.round(fp), q)
    b.ensure('Q moves in the right direction, unless the floating Q was set apart from it', b.Implies(together, b.le(r.q, q) if down else b.le(q, r.q)))
    b.ensure('a step below one keeps Q and floating Q together', b.Implies(b.And(together, b.lt(d, 1)), b.eq(b.round(r.q_fp), r.q)))
    b.ensure('Q within 0..15', b.And(b.le(0, r.q), b.le(r.q, 15)))
    b.ensure('Q is an integer', not isinstance(r.q, float))
    c = tx.command.command
    if isinstance(c, std.QueryAdjust):
        b.ensure('QueryAdjust only when Q changed', b.Not(b.eq(r.q, q)))
        b.ensure('matching up/down value', b.eq(c.updn, r.q - q))
        b.ensure('stays in its slot, waiting for replies', sent == [RS.QAdjust] and r.state is RS.QAdjust)
    else:
        b.ensure('QueryAdjust whenever Q changed', b.eq(r.q, q))
        plain(b, r, sent, tx, 'no adjustment')


@case('C14', 'the waiting time after QueryAdjust', samples=300)
def waiting(b):
    outcome = b.choice('outcome', ['none', 'collision'])
    k, r, q, fp, d, tx, sent = finish(b, outcome, 'QUERY', True)
    if not isinstance(tx.command.command, std.QueryAdjust): b.assume(False)
    t1 = b.ensure_ok(b.call(std.link_t1_max, r.rtcal, r.trcal, r.dr, r.temp)); t3 = b.ensure_ok(b.call(std.link_t3))
    b.ensure('waits for the QueryAdjust sent + T1 max + T3', b.eq(get(b, tx, 'duration'), get(b, tx.command, 'duration') + t1 + t3))


@case('C14', 'adjustment off, or another command: Q stays', samples=300, shards=2)
def others(b):
    outcome = b.choice('outcome', ['none', 'lost', 'collision'])
    state, adjust = b.choice('when', [(s, False) for s in STATES] + [(s, None) for s in STATES[:2]] + [(s, True) for s in STATES[2:]])
    k, r, q, fp, d, tx, sent = finish(b, outcome, state, adjust)
    b.ensure('Q unchanged', b.eq(r.q, q)); b.ensure('floating Q unchanged', b.eq(r.q_fp, fp))
    plain(b, r, sent, tx, f'{state}, adjustment {adjust}')


@case('C14', 'a reply received, in whatever state: Q stays', samples=200, shards=2)
def received(b):
    state, adjust = b.choice('when', [(s, True) for s in STATES] + [(s, False) for s in STATES[:2]])
    k, r, q, fp, d, tx, sent = finish(b, 'received', state, adjust)
    b.ensure('Q unchanged', b.eq(r.q, q)); b.ensure('floating Q unchanged', b.eq(r.q_fp, fp))
    want = {'ACK': RS.REQRN if r.read_tid_bank else None, 'REQRN': RS.READ, 'READ': None}.get(state, RS.ACK)
    if want is None: plain(b, r, sent, tx, f'{state}, adjustment {adjust}')
    else: b.ensure('goes on as the reply demands', sent == [want])


@case('C14', 'histories of slots: Q and floating Q against a reference', mode='native', samples=200, thorough=5000, bound='200 random histories of up to 40 slots (5000 in the thorough tier)')
def histories(b):
    k = HKernel(b); m = ob.Model(); k.context = m
    r = new_reader(b, q=b.int('Q', 0, 15)); r.kernel = k; m.reader = r; stir(b, m)
    r.use_query_adjust = True; r.adjust_delta = d = b.choice('step', [0.1, 0.2, 0.3, 0.35, 0.5, 1, 1.7]); r.q_fp = b.choice('floating Q', [float(r.q)] * 4 + [5.0, 2.4])
    f = r.turn_on(); q, fp = r.q, r.q_fp
    for i in range(b.int('slots', 1, 40)):
        outcome = b.choice('outcome', ['none', 'collision', 'none', 'collision', 'none'])
        can = r.state in (RS.QUERY, RS.QREP)
        tx = FakeTx(b, None, () if outcome == 'none' else ((object(), object()),) * b.choice('replies', [2, 3, 9])); m.transaction = tx
        b.ensure_ok(b.call(hd.finish_transaction, k, tx))
        c = m.transaction.command.command; old = q
        if can and outcome == 'none' and q > 0: fp = max(0, fp - d); n = round(fp); q = n if abs(n - q) == 1 else q
        elif can and outcome == 'collision' and q < 15: fp = min(15, fp + d); n = round(fp); q = n if abs(n - q) == 1 else q
        b.ensure('Q', r.q == q and type(r.q) is int); b.ensure('floating Q', b.eq(r.q_fp, fp)); fp = r.q_fp
        if q != old: b.ensure('QueryAdjust up or down', isinstance(c, std.QueryAdjust) and c.updn == q - old)
        else: b.ensure('a plain next slot', isinstance(c, (std.Query, std.QueryRep)))
