"""C16 The reader runs one transaction after another and cycles power on schedule."""
import random, types
from pyvc.runner import case
from specs.readerkit import *
from specs.handlerkit import *

ASSUME = ['kernel under its contract (C01-C04): an event runs at now + delay unless cancelled', 'what the tags answer is arbitrary (C10, C11); the step-by-step proof takes at most two tags, the proof of a whole cycle any number (there the reader-side power map is under an assumed contract)',
          'on and off times are positive']


class TagStub:
    """a tag that answers as told"""
    pyvc_model = True
    def __init__(self, b, i, answers):
        self.tag_id = i; self.answers = answers; self.log = []; self.velocity = 0; self.pos = 0; self.normalized_direction = 0; self.last_pos_update = 0
        self.blf = 160e3 if not b.symbolic else b.num(160e3); self.power = -5; self.tx_power = -20; self.state = ob.Tag.State.READY; self.encoding = std.TagEncoding.FM0; self.trext = False
    def set_power(self, time, power): self.log.append(('power', time, power)); self.power = power
    def receive(self, frame):
        self.log.append(('command', frame))
        kind = {std.Query: 'rn16', std.QueryRep: 'rn16', std.QueryAdjust: 'rn16', std.Ack: 'epc', std.ReqRN: 'handle', std.Read: 'data'}[type(frame.command)]
        return tag_frame(kind, 9) if self.answers else None
    set_power.pyvc_model = receive.pyvc_model = True


class MediumStub:
    """some power while the transmitter is on, some SNR, some BER"""
    pyvc_model = True
    def __init__(self, b): self.ber = b.choice('BER', [0, 1])
    def estimate_tag_rx_power(self, reader, tag, time): return None if reader.power is None else -7
    def estimate_reader_rx_power(self, reader, tag, time): return None if tag.power is None else -60
    def estimate_reader_rx_snr(self, reader, tag, tags, time): return 100
    def estimate_reader_rx_ber(self, reader, tag, tags, snr): return self.ber
    for f in (estimate_tag_rx_power, estimate_reader_rx_power, estimate_reader_rx_snr, estimate_reader_rx_ber): f.pyvc_model = True


def world(b, answering=None, silent=None):
    k = HKernel(b); m = ob.Model(); k.context = m; m.medium = MediumStub(b); m.statistics.use_power_statistics = False
    r = new_reader(b, q=2, all_settings=False); r.kernel = k; m.reader = r; stir(b, m)
    b.need(r, 'power_control_mode', 'power_on_duration', 'power_off_duration', 'antenna_switch_interval')
    a = ob.Antenna(); a.pos = [0., 0., 5.]; r.attach_antenna(a)
    r.use_query_adjust = b.choice('adjust', [False, True]); r.adjust_delta = 0.5 if not b.symbolic else b.num(0.5); r.q_fp = 2
    mode = b.choice('mode', ['PERIODIC', 'ALWAYS_ON'])
    b.set(r, power_control_mode=ob.Reader.PowerControlMode[mode], power_on_duration=b.real('on time', 0.001, 10), power_off_duration=b.real('off time', 0.001, 10), antenna_switch_interval=b.real('antenna time', 0.001, 10))
    n = b.choice('answering tags', [0, 1, 2] if b.symbolic else [0, 1, 2, 3, 7]) if answering is None else answering
    m.tags = [TagStub(b, i, i < n) for i in range(n + (b.choice('silent tags', [0, 1] if b.symbolic else [0, 1, 2, 5]) if silent is None else silent))]
    for t in m.tags: b.ensure_ok(b.call(m.statistics.create_tag_record, t))
    return k, m, r, mode


def transaction_pending(b, k, m, r, name):
    """exactly one transaction, begun now, whose completion is pending at its end"""
    tx = m.transaction
    b.ensure(f'{name}: a transaction runs', tx is not None)
    done = k.pending(hd.finish_transaction)
    b.ensure(f'{name}: exactly one completion is pending', len(done) == 1)
    b.ensure(f'{name}: for the transaction that runs', len(done[0][3]) == 1 and done[0][3][0] is tx)
    b.ensure(f'{name}: it began now', b.eq(get(b, tx, 'start_time'), k.time))
    b.ensure(f'{name}: completes its own duration from now', b.eq(done[0][1], get(b, tx, 'duration')))
    reps = [t for t in m.tags if t.answers]
    b.ensure(f'{name}: with the replies of all tags that answered', [t for t, _ in get(b, tx, 'replies')] == reps)
    ups = k.pending(hd.update_power_at_response_start)
    b.ensure(f'{name}: power is measured when the replies start', len(ups) == (1 if reps else 0))
    if ups: b.ensure(f'{name}: at the start of its replies', b.And(ups[0][3][0] is tx, b.eq(ups[0][1], get(b, tx, 'reply_start_time') - k.time)))
    b.ensure(f'{name}: nothing in the past', b.And(*[b.le(0, s[1]) for s in k.scheduled]))
    return tx, done[0]


def switch_on(b, k, m, r):
    b.ensure_ok(b.call(hd.turn_reader_on, k, r))


def fire(k, ev):
    """the event runs: it is no longer pending"""
    k.scheduled = [s for s in k.scheduled if s[0] != ev[0]]


@case('C16', 'switching on', samples=300, shards=2)
def on(b):
    k, m, r, mode = world(b)
    switch_on(b, k, m, r)
    b.ensure('powered with the configured maximum', b.eq(r.power, r.max_power))
    tx, _ = transaction_pending(b, k, m, r, 'on')
    b.ensure('with a Query', isinstance(get(b, tx, 'command').command, std.Query))
    for t in m.tags: b.ensure('every tag is powered, then hears the command', [e[0] for e in t.log] == ['power', 'command'] and t.log[0][2] == -7 and t.log[1][1] is get(b, tx, 'command'))
    off = k.pending(hd.turn_reader_off)
    if mode == 'ALWAYS_ON': b.ensure('never switched off', not off)
    else:
        b.ensure('switch-off is pending', len(off) == 1 and off[0][3] == (r,))
        b.ensure('after the configured on time', b.eq(off[0][1], r.power_on_duration))
    b.ensure('one antenna: no switching', not k.pending(hd.switch_reader_antenna))


@case('C16', 'completing a transaction starts the next one', samples=400, shards=4)
def finish(b):
    k, m, r, mode = world(b)
    switch_on(b, k, m, r)
    for i in range(b.choice('transactions before', [0, 1] if b.symbolic else [0, 1, 2, 5])):
        nxt(b, k, m, r, 'next')
    for t in m.tags: t.log.clear()
    nxt(b, k, m, r, 'next')
    tx = m.transaction
    for t in m.tags: b.ensure('every tag hears the new command once', [e for e in t.log if e[0] == 'command'] == [('command', get(b, tx, 'command'))])
    off = k.pending(hd.turn_reader_off)
    b.ensure('switch-off as scheduled when switched on', len(off) == (0 if mode == 'ALWAYS_ON' else 1))


def nxt(b, k, m, r, name):
    old = m.transaction; done = k.pending(hd.finish_transaction)[0]
    start = k.time
    for u in k.pending(hd.update_power_at_response_start):
        b.set(k, time=start + u[1]); fire(k, u); b.ensure_ok(b.call(hd.update_power_at_response_start, k, *u[3]))
    k.time = start + done[1]; fire(k, done)
    b.ensure_ok(b.call(hd.finish_transaction, k, old))
    b.ensure(f'{name}: a new transaction', m.transaction is not old)
    transaction_pending(b, k, m, r, name)


@case('C16', 'switching off, at any moment of a transaction', samples=400, shards=2)
def off(b):
    k, m, r, mode = world(b)
    if mode == 'ALWAYS_ON': b.assume(False)
    switch_on(b, k, m, r)
    if b.choice('transactions before', [0, 1]): nxt(b, k, m, r, 'next')
    if b.choice('replies have begun', [False, True]):
        for u in k.pending(hd.update_power_at_response_start):
            k.time = k.time + u[1]; fire(k, u); b.ensure_ok(b.call(hd.update_power_at_response_start, k, *u[3]))
    o = k.pending(hd.turn_reader_off)[0]; fire(k, o); k.time = k.time + b.real('later', 0, 0.001)
    for t in m.tags: t.log.clear()
    b.ensure_ok(b.call(hd.turn_reader_off, k, r))
    b.ensure('no transaction', m.transaction is None)
    b.ensure('its completion is cancelled', not k.pending(hd.finish_transaction))
    b.ensure('its measurement at reply start is cancelled', not k.pending(hd.update_power_at_response_start))
    b.ensure('the reader has no power', r.power is None and r.state is RS.OFF)
    for t in m.tags: b.ensure('the tags have no power', len(t.log) == 1 and t.log[0][0] == 'power' and t.log[0][2] is None)
    onev = k.pending(hd.turn_reader_on)
    b.ensure('switch-on is pending', len(onev) == 1 and onev[0][3] == (r,))
    b.ensure('after the configured off time', b.eq(onev[0][1], r.power_off_duration))
    b.ensure('nothing else is pending', len([s for s in k.scheduled if s[0] not in k.cancelled]) == 1)
    # and on again
    fire(k, onev[0]); k.time = k.time + onev[0][1]
    b.ensure_ok(b.call(hd.turn_reader_on, k, r))
    transaction_pending(b, k, m, r, 'on again')


@case('C16', 'antennas are switched in turn while the reader is on', samples=100)
def antennas(b):
    k, m, r, mode = world(b, 0, 0)
    n = b.choice('antennas', [2, 3] if b.symbolic else [2, 3, 1, 4, 6, 9, 17, 70]); m.tags = []
    for i in range(n - 1):
        a = ob.Antenna(); a.pos = [0., 0., 5.]; r.attach_antenna(a)
    r.always_start_with_first_antenna = b.choice('always first', [True, False])
    switch_on(b, k, m, r)
    b.ensure('first antenna', r.antenna_index == 0)
    turns = 3 if b.symbolic else b.choice('turns', [3, 11, 40, 75])
    for i in range(1, turns + 1):
        ev = k.pending(hd.switch_reader_antenna)
        if n == 1: b.ensure('a single antenna stays in use', len(ev) <= 1 and r.antenna_index == 0); continue
        b.ensure('one switch is pending, after the interval', len(ev) == 1 and b.eq(ev[0][1], r.antenna_switch_interval))
        fire(k, ev[0]); b.ensure_ok(b.call(hd.switch_reader_antenna, k, r))
        b.ensure('the next antenna, round robin', r.antenna_index == i % n and r.antenna is r.get_antenna(i % n))
    b.ensure_ok(b.call(hd.turn_reader_off, k, r))
    b.ensure('switching stops with the power', not k.pending(hd.switch_reader_antenna))
    b.ensure_ok(b.call(hd.turn_reader_on, k, r))
    b.ensure('antenna after switching on', r.antenna_index == (0 if r.always_start_with_first_antenna else turns % n))


class Ring:
    """any number of antennas: the one at position i knows that it is there"""
    pyvc_model = True
    def __init__(self, b, n): self.b, self.n = b, n
    def pyvc_len(self): return self.n
    def pyvc_getitem(self, i):
        self.b.ensure('there is such an antenna', self.b.And(self.b.le(0, i), self.b.lt(i, self.n)), replayable=False)
        a = ob.Antenna(); a.index = i; a.pos = [0., 0., 5.]
        return a
    __getitem__ = pyvc_getitem


@case('C16', 'any number of antennas, whichever is in use: the next one, and the first one after the last', mode='sym')
def ring(b):
    k, m, r, mode = world(b, 0, 0)
    n, at = b.int('antennas', 1), b.int('in use', 0); b.assume(b.lt(at, n))
    b.need(r, '_antennas', '_antenna_index'); r._antennas = Ring(b, n); r._antenna_index = at
    r.always_start_with_first_antenna = b.choice('always first', [True, False])
    b.ensure_ok(b.call(hd.turn_reader_on, k, r))
    start = 0 if r.always_start_with_first_antenna else at
    b.ensure('the antenna after switching on', b.eq(r.antenna_index, start))
    one = b.p.decide(b.eq(n, 1).z); ev = k.pending(hd.switch_reader_antenna)
    if one: return
    for _ in range(2):
        b.ensure('one switch is pending, after the interval', len(ev) == 1 and b.eq(ev[0][1], r.antenna_switch_interval))
        fire(k, ev[0]); b.ensure_ok(b.call(hd.switch_reader_antenna, k, r))
        start = b.ite(b.eq(start + 1, n), 0, start + 1)
        b.ensure('the next antenna, round robin', b.eq(r.antenna_index, start)); b.ensure('that one is used', b.eq(r.antenna.index, start))
        ev = k.pending(hd.switch_reader_antenna)


@case('C16', 'any number of tags: all are powered and hear every command, one transaction after another', mode='sym', shards=4)
def any_tags(b):
    from pyvc.seq import Base, Seq, Groups
    k, m, r, mode = world(b, 0, 0)
    yes, no = TagStub(b, 0, True), TagStub(b, 1, False); many = Base(b, 'tags that answer'); rest = Base(b, 'tags that do not')
    for t in (yes, no): b.ensure_ok(b.call(m.statistics.create_tag_record, t))
    m.tags = Groups([Seq(many, yes), Seq(rest, no)])
    there = (([yes] if b.choice('some answer', [False, True]) else []) + ([no] if b.choice('some do not', [False, True]) else []))
    b.assume(b.And(b.lt(0, many.n) if yes in there else b.eq(many.n, 0), b.lt(0, rest.n) if no in there else b.eq(rest.n, 0)))
    if hasattr(ob, '_TagPowerMinMap'):
        b.stub(ob._TagPowerMinMap, '__init__', lambda o, values: None); b.stub(ob._TagPowerMinMap, 'update', lambda o, tag, power: None); b.stub(ob._TagPowerMinMap, 'get', lambda o, tag: -60)

    def check(name):
        tx = m.transaction
        b.ensure(f'{name}: a transaction runs', tx is not None, replayable=False)
        done = k.pending(hd.finish_transaction); ups = k.pending(hd.update_power_at_response_start)
        b.ensure(f'{name}: exactly one completion is pending, for that transaction', len(done) == 1 and tuple(done[0][3]) == (tx,), replayable=False)
        b.ensure(f'{name}: it began now and completes its own duration from now', b.And(b.eq(get(b, tx, 'start_time'), k.time), b.eq(done[0][1], get(b, tx, 'duration'))), replayable=False)
        reps = get(b, tx, 'replies')
        b.ensure(f'{name}: with as many replies as tags that answered', b.eq(b.ensure_ok(b.call(len, reps)), many.n), replayable=False)
        if yes in there: b.ensure(f'{name}: with the replies of these tags', isinstance(reps, Seq) and reps.elem[0] is yes, replayable=False)
        b.ensure(f'{name}: power is measured when the replies start', len(ups) == (yes in there) and (not ups or b.And(ups[0][3][0] is tx, b.eq(ups[0][1], get(b, tx, 'reply_start_time') - k.time))), replayable=False)
        for t in there:
            b.ensure(f'{name}: every tag hears the command once', [e for e in t.log if e[0] == 'command'] == [('command', get(b, tx, 'command'))], replayable=False)
            b.ensure(f'{name}: every tag has power', t.power == -7, replayable=False)
            t.log.clear()
        return tx, done[0], ups
    switch_on(b, k, m, r)
    for t in there: b.ensure('powered before the command', [e[0] for e in t.log] == ['power', 'command'], replayable=False)
    tx, done, ups = check('on'); start = k.time
    if ups:
        b.set(k, time=start + ups[0][1]); fire(k, ups[0]); b.ensure_ok(b.call(hd.update_power_at_response_start, k, tx))
        for t in there: b.ensure('power is measured for every tag when the replies start', [e[:2] for e in t.log] == [('power', k.time)], replayable=False); t.log.clear()
    k.time = start + done[1]; fire(k, done)
    b.ensure_ok(b.call(hd.finish_transaction, k, tx))
    b.ensure('completing it starts a new one', m.transaction is not tx, replayable=False)
    for t in there: t.power = -7        # measured at the start of replies, at updates and at switching
    check('next')
    if mode == 'ALWAYS_ON': return
    b.ensure_ok(b.call(hd.turn_reader_off, k, r))
    for t in there: b.ensure('no tag has power afterwards', [e[2] for e in t.log] == [None], replayable=False)
    b.ensure('no transaction', m.transaction is None and not k.pending(hd.finish_transaction) and not k.pending(hd.update_power_at_response_start), replayable=False)


@case('C16', 'a crowd of tags in the field', mode='native', samples=24, thorough=300, bound='up to 300 tags, 24 runs of a few transactions')
def crowd(b):
    n = b.choice('how many answer', [0, 1, 2, 40, 200]); quiet = b.choice('how many do not', [0, 60, 100])
    k, m, r, mode = world(b, n, quiet); random.shuffle(m.tags); m.medium.ber = 0
    switch_on(b, k, m, r)
    for i in range(3):
        tx, _ = transaction_pending(b, k, m, r, f'crowd {i}')
        b.ensure('every tag hears every command once', all([e[1] for e in t.log if e[0] == 'command'] == [get(b, tx, 'command')] for t in m.tags))
        b.ensure('every tag has power', all(t.power == -7 for t in m.tags))
        for t in m.tags: t.log.clear()
        nxt(b, k, m, r, 'next')
    if mode == 'ALWAYS_ON': return
    for t in m.tags: t.log.clear()
    b.ensure_ok(b.call(hd.turn_reader_off, k, r))
    b.ensure('no tag has power afterwards', all([e[2] for e in t.log if e[0] == 'power'] == [None] for t in m.tags))


@case('C16', 'the start of a simulation', samples=40)
def start(b):
    k, m, r, mode = world(b)
    m.update_interval = b.real('update interval', 0.0001, 1)
    g = ob.Generator(); gi = b.real('generation interval', 0.0001, 10)
    class Const:
        pyvc_model = True
        def __call__(self): return gi
    g.set_interval(Const()); m.generators = [g, g][:b.choice('generators', [0, 1, 2])]
    b.ensure_ok(b.call(hd.start_simulation, k))
    on = k.pending(hd.turn_reader_on)
    b.ensure('the reader is switched on at once', len(on) == 1 and b.And(b.eq(on[0][1], 0), on[0][3] == (r,)))


@case('C16', 'whole runs: one transaction at a time, on schedule', mode='native', samples=12, thorough=400, budget=40, shards=4, bound='12 runs of 0.5 s model time with random settings (400 in the thorough tier)', randomize=False)
def runs(b):
    from specs import e2e
    st, gap = e2e.settings(b)
    m = e2e.cf.create_model(st); bad = []
    s = dict(on=None, off=None, tx=None, begun=None)

    def before(k, name, a):
        s['prev'] = m.transaction
        if name in ('finish_transaction', 'update_power_at_response_start') and m.reader.power is None: bad.append(f'{name} while the reader is off')
        if name == 'finish_transaction' and not (a[0] is m.transaction and e2e.near(k.time, a[0].start_time + a[0].duration)): bad.append(f'transaction finished at {k.time}, not at its end')
        if name == 'update_power_at_response_start' and not (a[0] is m.transaction and e2e.near(k.time, a[0].reply_start_time)): bad.append(f'reply start at {k.time}, not when replies start')
        if name == 'turn_reader_off' and not (st.reader_switch_power and e2e.near(k.time, s['on'] + st.reader_power_on_duration)): bad.append(f'off at {k.time}')
        if name == 'turn_reader_on' and not e2e.near(k.time, 0 if s['off'] is None else s['off'] + st.reader_power_off_duration): bad.append(f'on at {k.time}')

    def after(k, name, a):
        r = m.reader
        if name == 'turn_reader_on': s['on'] = k.time
        if name == 'turn_reader_off': s['off'] = k.time
        if (m.transaction is None) != (r.power is None) and s['on'] is not None: bad.append(f'{name}: transaction {m.transaction is not None}, power {r.power}')
        if r.power is not None and not e2e.near(r.power, st.reader_power): bad.append('power is not the configured maximum')
        if r.power is None and any(t.power is not None for t in m.tags): bad.append('a tag has power while the reader is off')
        if name in ('finish_transaction', 'turn_reader_on') and not (m.transaction is not s['prev'] and m.transaction is not None and e2e.near(m.transaction.start_time, k.time)): bad.append(f'{name}: no new transaction begun')
        if name not in ('finish_transaction', 'turn_reader_on', 'turn_reader_off') and m.transaction is not s['prev']: bad.append(f'{name} changed the transaction')

    def sched(k, delay, h, args):
        if delay is not None and delay < 0: bad.append(f'{h.__name__} scheduled {delay} in the past')
    run = e2e.Run(m, before, after, sched).go(0.5)
    if run.error and not bad: b.assume(False)
    b.trace += bad[:3]
    b.ensure('one transaction at a time, on schedule', not bad)
    b.ensure('the reader ran', s['on'] is not None)
