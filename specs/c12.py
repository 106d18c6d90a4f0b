"""C12 The reader follows the Gen2 command sequence."""
from pyvc.runner import case
import pysim.models.rfid.objects as ob
import pysim.models.rfid.epcstd as std
from specs.readerkit import *
from specs.handlerkit import *

ASSUME = ['link settings (Tari, RTcal, TRcal, delimiter) positive reals in the range of the standard', 'constant target strategy (the alternating one is C13)',
          'frame durations and T1/T3 themselves are C07 and C08']
from specs.c16 import TagStub, MediumStub
ON = ['QUERY', 'QREP', 'QAdjust', 'ACK', 'REQRN', 'READ']
EXPECTS = {'QUERY': 'rn16', 'QREP': 'rn16', 'QAdjust': 'rn16', 'ACK': 'epc', 'REQRN': 'handle', 'READ': 'data'}


def reader_in(b, st, slots=None, q=None, **kw):
    """a reader that is in state st, some slots into a round, and the frame it sent on entering it"""
    r = new_reader(b, q=q, **kw)
    ev = Events(r)
    f = b.ensure_ok(b.call(r.turn_on))
    n = b.choice('slots before', [0, 1]) if slots is None else slots
    for i in range(n if st != 'QREP' else 1): f = b.ensure_ok(b.call(r.timeout))
    if st == 'QREP':
        if r.q == 0: b.assume(False)
        b.ensure('a slot after the first is in QREP', r.state is RS.QREP); return r, ev, f, None
    if st == 'QUERY':
        if n and r.q: b.assume(False)
        b.ensure('first slot is in QUERY', r.state is RS.QUERY); return r, ev, f, None
    if st == 'QAdjust':
        r.updn = b.choice('updn', [-1, 0, 1])
        return r, ev, b.ensure_ok(b.call(r.set_state, RS.QAdjust)), None
    rn = b.int('RN16', 0, 65535)
    f = b.ensure_ok(b.call(r.receive, tag_frame('rn16', rn)), 'takes the RN16')
    if st == 'ACK': return r, ev, f, rn
    if not r.read_tid_bank: b.assume(False)
    f = b.ensure_ok(b.call(r.receive, tag_frame('epc')), 'takes the EPC')
    if st == 'REQRN': return r, ev, f, rn
    rn = b.int('handle', 0, 65535)
    return r, ev, b.ensure_ok(b.call(r.receive, tag_frame('handle', rn)), 'takes the handle'), rn


def next_slot_ok(b, r, ev, before, f, name):
    """exactly one more slot was started, and its command sent"""
    new = ev.log[before:]
    starts = [e for e in new if e[0] == 'slot+']
    b.ensure(f'{name}: starts exactly one new slot', len(starts) == 1)
    first = starts[0][2] == 0
    b.ensure(f'{name}: state of a new slot', r.state is (RS.QUERY if first else RS.QREP))
    frame_ok(b, r, f, std.Query if first else std.QueryRep, name)


@case('C12', 'every state: its command, preamble and settings, and the waiting time', samples=400, shards=8)
def commands(b):
    st = b.choice('state', ON)
    r, ev, f, rn = reader_in(b, st, slots=None if st in ('QUERY', 'QREP') else 0, q=None if st == 'QUERY' else 1)
    kind = dict(zip(ON, (std.Query, std.QueryRep, std.QueryAdjust, std.Ack, std.ReqRN, std.Read)))[st]
    b.ensure(f'in {st}', r.state is RS[st])
    c = frame_ok(b, r, f, kind, st)
    if rn is not None: b.ensure(f'{st}: the number received from the tag', b.eq(c.rn, rn))
    if st == 'QAdjust': b.ensure('QAdjust: up/down value of the reader', b.eq(c.updn, r.updn))
    if st == 'READ':
        b.ensure('READ: TID bank', c.bank is std.MemoryBank.TID)
        b.ensure('READ: from word 0', b.eq(c.word_ptr, 0))
        b.ensure('READ: configured word count', b.eq(c.word_count, r.read_tid_words_num))
    timeout_ok(b, r, f, st)


@case('C12', 'settings changed while the reader works are in force from the next command on', samples=300, shards=4)
def changed(b):
    st = b.choice('state', ['QUERY', 'QREP', 'ACK', 'REQRN'])
    r, ev, f, rn = reader_in(b, st, slots=None if st in ('QUERY', 'QREP') else 0, q=0 if st == 'QUERY' else 3)
    timeout_ok(b, r, f, f'before, in {st}')
    b.set(r, tari=val(b, 'new tari', 6, 26), rtcal=val(b, 'new rtcal', 15, 80), trcal=val(b, 'new trcal', 17, 225), delim=val(b, 'new delim', 10, 14), session=b.choice('new session', [std.Session.S2, std.Session.S1][:1 if b.symbolic else 2]))
    r.dr = std.DivideRatio.DR_643 if r.dr is std.DivideRatio.DR_8 else std.DivideRatio.DR_8; r.temp = std.TempRange.EXTENDED if r.temp is std.TempRange.NOMINAL else std.TempRange.NOMINAL
    r.tag_encoding = std.TagEncoding.FM0 if r.tag_encoding is not std.TagEncoding.FM0 else std.TagEncoding.M8; r.trext = not r.trext; r.target = r.target.invert(); r.sel = std.SelFlag.SEL if r.sel is std.SelFlag.ALL else std.SelFlag.ALL
    if st in ('QUERY', 'QREP'): kind, f = (std.Query if st == 'QUERY' else std.QueryRep), b.ensure_ok(b.call(r.timeout))
    else: kind, f = (std.ReqRN if st == 'ACK' else std.Read), b.ensure_ok(b.call(r.receive, tag_frame(EXPECTS[st], 77)))
    if st == 'ACK' and not r.read_tid_bank: kind = std.QueryRep
    frame_ok(b, r, f, kind, f'after {st}'); timeout_ok(b, r, f, f'after {st}')


@case('C12', 'what follows each expected reply', samples=400, shards=4)
def replies(b):
    st = b.choice('state', ON)
    r, ev, f, rn = reader_in(b, st)
    n = len(ev.log); new = b.int('number in the reply', 0, 65535)
    f = b.ensure_ok(b.call(r.receive, tag_frame(EXPECTS[st], new)), f'{st}: takes {EXPECTS[st]}')
    if st in ('QUERY', 'QREP', 'QAdjust'):
        b.ensure(f'{st}: goes on to ACK', r.state is RS.ACK)
        b.ensure(f'{st}: ACK for the number received', b.eq(frame_ok(b, r, f, std.Ack, st).rn, new))
    elif st == 'ACK' and r.read_tid_bank:
        b.ensure('ACK: goes on to REQRN', r.state is RS.REQRN)
        b.ensure('ACK: ReqRN for the same number', b.eq(frame_ok(b, r, f, std.ReqRN, st).rn, rn))
    elif st == 'REQRN':
        b.ensure('REQRN: goes on to READ', r.state is RS.READ)
        b.ensure('REQRN: Read with the handle received', b.eq(frame_ok(b, r, f, std.Read, st).rn, new))
    else: next_slot_ok(b, r, ev, n, f, st); return
    b.ensure(f'{st}: stays in its slot', len(ev.log) == n)


@case('C12', 'waiting in vain starts the next slot', samples=300, shards=4)
def waits(b):
    st = b.choice('state', ON)
    r, ev, f, rn = reader_in(b, st)
    n = len(ev.log)
    f = b.ensure_ok(b.call(r.timeout), f'{st}: timeout')
    next_slot_ok(b, r, ev, n, f, st)


@case('C12', 'replies that do not fit raise, a reader that is off ignores them', samples=400)
def misfit(b):
    st = b.choice('state', ON + ['OFF'])
    kind = b.choice('reply', ['rn16', 'epc', 'handle', 'data', 'other'])
    fr = tag_frame(kind, 5) if kind != 'other' else std.TagFrame(std.create_tag_preamble(std.TagEncoding.FM0, False), 'no reply')
    if st == 'OFF':
        if kind == 'other': b.assume(False)
        r = new_reader(b)
        if b.choice('was on', [True, False]):
            b.ensure_ok(b.call(r.turn_on)); b.ensure_ok(b.call(r.turn_off))
        b.ensure('OFF: the reply is ignored', b.ensure_ok(b.call(r.receive, fr)) is None)
        b.ensure('OFF: stays off', r.state is RS.OFF and r.power is None)
        return
    if kind == EXPECTS[st]: b.assume(False)
    r, ev, f, rn = reader_in(b, st, slots=0)
    b.ensure(f'{st}: {kind} raises an error', b.call(r.receive, fr).exc is not None)


@case('C12', 'switching on and off', samples=120)
def on_off(b):
    st = b.choice('state', ON)
    r, ev, f, rn = reader_in(b, st, slots=0 if st != 'QREP' else None, q=b.choice('Q', [1, 15]))
    b.ensure('powered with the configured maximum', b.eq(r.power, r.max_power))
    n = len(ev.log)
    b.ensure('switching on a reader that is on sends nothing', b.ensure_ok(b.call(r.turn_on)) is None)
    b.ensure('and changes nothing', r.state is RS[st] and len(ev.log) == n)
    out = b.ensure_ok(b.call(r.turn_off))
    b.ensure('off: sends nothing', out is None)
    b.ensure('off: state', r.state is RS.OFF); b.ensure('off: no power', r.power is None)
    b.ensure('off: switching off again sends nothing', b.ensure_ok(b.call(r.turn_off)) is None)
    how = b.choice('how', ['turn_on', 'timeout'])
    f = b.ensure_ok(b.call(r.turn_on if how == 'turn_on' else r.timeout))
    b.ensure('on again: a new Query', r.state is RS.QUERY)
    frame_ok(b, r, f, std.Query, 'on again')


@case('C12', 'at the end of a transaction the reader acts on the reply received, or on none', samples=400, shards=4)
def through_transactions(b):
    st = b.choice('state', ON)
    r, ev, f, rn = reader_in(b, st, slots=0 if st != 'QREP' else None, q=2 if st == 'QREP' else 1, all_settings=False)
    k = HKernel(b); m = ob.Model(); k.context = m; m.medium = MediumStub(b); m.reader = r; r.kernel = k; stir(b, m); m.statistics.use_power_statistics = False
    a = ob.Antenna(); a.pos = [0., 0., 5.]; r.attach_antenna(a)
    tag = TagStub(b, 1, False); other = TagStub(b, 2, False); rec = b.ensure_ok(b.call(m.statistics.create_tag_record, tag)); b.ensure_ok(b.call(m.statistics.create_tag_record, other))
    m.tags = [tag, other]
    if st in ('REQRN', 'READ'): b.ensure_ok(b.call(rec.new_tag_read_record, r, 0))
    outcome = b.choice('outcome', ['received', 'received, the tag has left', 'lost', 'none', 'several'])
    if outcome == 'received, the tag has left': m.tags.remove(tag); b.ensure_ok(b.call(m.statistics.close_tag_record, tag))
    new = b.int('number in the reply', 0, 65535); fr = tag_frame(EXPECTS[st], new)
    got = outcome.startswith('received')
    tx = FakeTx(b, f, () if outcome == 'none' else ((tag, fr), (other, fr))[:2 if outcome == 'several' else 1], *([(tag, fr, 50, 0.1)] if got else [])); m.transaction = tx
    n = len(ev.log)
    b.ensure_ok(b.call(hd.finish_transaction, k, tx), f'{st}: {outcome}')
    f = get(b, m.transaction, 'command'); name = f'{st}, {outcome}'
    follow = got and {'ACK': std.ReqRN if r.read_tid_bank else None, 'REQRN': std.Read, 'READ': None}.get(st, std.Ack)
    if not follow: next_slot_ok(b, r, ev, n, f, name); return
    c = frame_ok(b, r, f, follow, name)
    b.ensure(f'{name}: the number in force', b.eq(c.rn, rn if st == 'ACK' else new))
    b.ensure(f'{name}: stays in its slot', len([e for e in ev.log[n:] if e[0] == 'slot+']) == 0)
