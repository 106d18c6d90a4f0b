"""C27 Slot durations and the timing table add up the exchanges they stand for."""
from fractions import Fraction
from pyvc.runner import case
import pysim.models.rfid.epcstd as std
from specs.c06 import SEL, SES, TGT, BANK, DR, M
from specs.c07 import val, opt, in_force, link, body, blf_of, pre_bits, SPB, ENC, US
from specs.c08 import window, frt_of

ASSUME = ['durations are compared as exact reals (native runs: relative tolerance 1e-9)',
          'link settings are those of the standard: RTcal between 2.5 and 3 Tari, TRcal between 1.1 and 3 RTcal',
          'random draws lie within the bounds they are given']
SLOTS = ['EMPTY', 'COLLISION', 'INVENTORY', 'ACCESS']


def legal_link(b, given):
    """link timings the standard allows, passed as arguments or in force as system-wide defaults"""
    D = std.stdParams
    tari = b.real('tari', 6 * US, 25 * US); delim = val(b, 'delim', 10, 14)
    if b.symbolic:
        rtcal = b.real('rtcal', 15 * US, 75 * US); trcal = b.real('trcal', 16 * US, 225 * US)
        b.assume(b.And(2.5 * tari <= rtcal, rtcal <= 3 * tari, rtcal * b.num(1.1) <= trcal, trcal <= 3 * rtcal))
    else:
        rtcal = b.real('rtcal', 2.5 * tari, 3 * tari); trcal = b.real('trcal', 1.1 * rtcal, 3 * rtcal)
    kw = dict(tari=tari, rtcal=rtcal, trcal=trcal, delim=delim)
    if not given:
        for n, v in kw.items(): setattr(D, n, v)
    return (kw if given else {}), (tari, rtcal, trcal, delim)


def keep_defaults(fn):
    def run(b):
        D = std.stdParams; saved = dict(D.__dict__)
        try: fn(b)
        finally: D.__dict__.clear(); D.__dict__.update(saved)
    run.__name__ = fn.__name__; run.__module__ = fn.__module__; run.__doc__ = fn.__doc__
    return run


def reader_time(b, cmd, L, query=False):
    tari, rtcal, trcal, delim = L
    return delim + tari + rtcal + (trcal if query else 0) + body(b, b.ensure_ok(b.call(cmd.encode)), tari, rtcal)


def reply_time(b, bits, L, drn, enc, tx):
    return (pre_bits(enc, tx) + bits + 1) * SPB[enc] / blf_of(b, drn, L[2])


def op(bank, wp, wc):
    o = std.TagReadOp(); o.bank = std.MemoryBank[bank]; o.word_ptr = wp; o.word_count = wc
    return o


MODES = [(e, t, s, f, g) for e in ENC for t in (False, True) for s in SES for f in SEL for g in TGT]
COVER = [('FM0', False, 'S0', 'ALL', 'A'), ('M2', True, 'S1', 'NOT_SEL', 'B'), ('M4', False, 'S2', 'SEL', 'A'), ('M8', True, 'S3', 'SEL', 'B'), ('FM0', True, 'S2', 'ALL', 'B'), ('M8', False, 'S0', 'SEL', 'A')]


def mode(b):
    """encoding, extended preamble, session, selection, target: a covering list in the proof, all of them natively"""
    return b.choice('mode', COVER if b.symbolic else COVER + MODES)      # inputs are recorded by position


def tolerance(b):
    """the contract of get_frt (proved in C08) stands for its body"""
    if b.symbolic and hasattr(std, 'get_frt'):
        D = std.stdParams
        b.stub(std, 'get_frt', lambda trcal=None, dr=None, temp_range=None: frt_of(b, (dr or D.divide_ratio).name, (temp_range or D.temp_range).name, D.trcal if trcal is None else trcal))


def settings(b, given):
    tolerance(b)
    kw, L = legal_link(b, given)
    D = std.stdParams
    drn, temp = b.choice('dr and temperature', [('DR_8', 'EXTENDED'), ('DR_643', 'NOMINAL'), ('DR_643', 'EXTENDED'), ('DR_8', 'NOMINAL')][:3 if b.symbolic else 4])
    if given: kw.update(dr=std.DivideRatio[drn], temp=std.TempRange[temp])
    else: D.divide_ratio = std.DivideRatio[drn]; D.temp_range = std.TempRange[temp]
    return kw, L, drn, temp


def expected(b, slot, ops, L, drn, temp, enc, tx, query, first, rn, epc, crc16):
    eff = (L[1], L[2], drn, temp)
    (t1, t1max), (t2, _), t3, t4 = window(b, 1, eff), window(b, 2, eff), 0, window(b, 4, eff)[0]
    def ans(bits): return b.max(t1 + reply_time(b, bits, L, drn, enc, tx) + t2, t4)
    total = reader_time(b, query, L, first)
    if slot == 'EMPTY': return total + b.max(t1max + t3, t4)
    total = total + ans(16)
    if slot == 'COLLISION': return total
    total = total + reader_time(b, std.Ack(rn), L) + ans(32 + 8 * epc)
    if slot == 'INVENTORY' or ops is None: return total
    for bank, wp, wc in ops:
        # equal to command + max(T1 + reply + T2, T4) for every legal TRcal: the reply alone outlasts T4
        total = total + b.max(reader_time(b, std.Read(std.MemoryBank[bank], wp, wc, rn, crc16), L) + t1 + reply_time(b, 33 + 16 * wc, L, drn, enc, tx) + t2, t4)
    return total


def draw_ops(b, slot):
    k = b.choice('operations', [None, 0, 1, 2] if slot == 'ACCESS' else [None, 1])
    if k is None: return None
    few = [('USER', 77, 8), ('EPC', 5, 1)]
    if b.symbolic or b.choice('drawn', [False, True, True]) is False: return few[:k]
    return [(b.choice(f'bank{i}', list(BANK)), b.int(f'word_ptr{i}', 0, 127), b.int(f'word_count{i}', 0, 255)) for i in range(k)]


def numbers(b):
    """Q, CRC-5, RN16, CRC-16, EPC bytes: a few in the proof (what they add to a frame is proved for all of them in C07), all of them natively"""
    few = [(4, 0, 0xA5C3, 0x1234, 12), (9, 21, 7, 0xFF0F, 62)]
    n = b.choice('numbers', few if b.symbolic else few + [None] * 6)
    if n: return n
    return b.int('q', 0, 15), b.int('crc5', 0, 31), b.int('rn', 0, 65535), b.int('crc16', 0, 65535), b.int('epc bytes', 0, gen=lambda r: r.choice([12, r.randint(0, 64), r.randint(0, 300)]))


def make(ops): return None if ops is None else [op(*o) for o in ops]


@case('C27', 'slot_duration, settings given', samples=250, shards=4)
@keep_defaults
def given(b):
    kw, L, drn, temp = settings(b, True)
    slot = b.choice('slot', SLOTS); ops = draw_ops(b, slot)
    first = b.choice('first', [True, False]); enc, tx, ses, sel, tgt = mode(b)
    q, crc5, rn, crc16, epc = numbers(b)
    a = (std.DivideRatio[drn], std.TagEncoding[enc], tx, std.SelFlag[sel], std.Session[ses], std.InventoryFlag[tgt], q, crc5)
    query = std.Query(*a) if first else std.QueryRep(std.Session[ses])
    out = b.ensure_ok(b.call(std.slot_duration, std.SlotType[slot], make(ops), m=a[1], trext=tx, sel=a[3], session=a[4], target=a[5], q=q,
                             rn=rn, epc=epc, crc5=crc5, crc16=crc16, is_first=first, **kw))
    b.ensure('sum of the exchanges', b.eq(out, expected(b, slot, ops, L, drn, temp, enc, tx, query, first, rn, epc, crc16)))


@case('C27', 'slot_duration, settings left to the system-wide defaults', samples=150, shards=4, budget=150)
@keep_defaults
def left_out(b):
    kw, L, drn, temp = settings(b, False)
    D = std.stdParams
    slot = b.choice('slot', SLOTS); first = b.choice('first', [True, False]); enc, tx, ses, sel, tgt = mode(b)
    D.tag_encoding = std.TagEncoding[enc]; D.trext = tx; D.session = std.Session[ses]; D.sel = std.SelFlag[sel]; D.target = std.InventoryFlag[tgt]
    D.Q, D.default_crc5, _, D.default_crc16, _ = numbers(b); D.default_epc = 'AB' * 5
    n = len(b.draws)
    ops = [('TID', 3, 2)] if slot == 'ACCESS' else None
    out = b.ensure_ok(b.call(std.slot_duration, std.SlotType[slot], make(ops), is_first=first))
    b.ensure('one random RN16', len(b.draws) == n + 1)
    rn = b.get_draw(n)[2]
    query = std.Query() if first else std.QueryRep()
    b.ensure('sum of the exchanges', b.eq(out, expected(b, slot, ops, L, drn, temp, enc, tx, query, first, rn, 5, None)))


@case('C27', 'slot_duration_min and slot_duration_max are the slot at its extreme settings', samples=200)
@keep_defaults
def extremes(b):
    kw, L, drn, temp = settings(b, True)
    slot = b.choice('slot', SLOTS); ops = draw_ops(b, slot); first = b.choice('first', [True, False]); epc = numbers(b)[4]
    d = std.DivideRatio[drn]
    for f, enc, tx, sel, ses, tgt, q, rn, crc5, crc16 in ((std.slot_duration_min, 'FM0', False, 'ALL', 'S0', 'A', 0, 0, 0, 0),
                                                          (std.slot_duration_max, 'M8', True, 'SEL', 'S3', 'B', 15, 0xFFFF, 0x1F, 0xFFFF)):
        query = std.Query(d, std.TagEncoding[enc], tx, std.SelFlag[sel], std.Session[ses], std.InventoryFlag[tgt], q, crc5) if first else std.QueryRep(std.Session[ses])
        out = b.ensure_ok(b.call(f, std.SlotType[slot], make(ops), epc=epc, is_first=first, **kw))
        b.ensure(f.__name__, b.eq(out, expected(b, slot, ops, L, drn, temp, enc, tx, query, first, rn, epc, crc16)))


@case('C27', 'every slot lasts between its minimum and its maximum', samples=150, shards=4, budget=150)
@keep_defaults
def between(b):
    kw, L, drn, temp = settings(b, True)
    slot = b.choice('slot', SLOTS); first = b.choice('first', [True, False]); enc, tx, ses, sel, tgt = mode(b)
    ops = [('TID', 3, 2)] if slot == 'ACCESS' else None
    q, crc5, rn, crc16, epc = numbers(b)
    a = dict(m=std.TagEncoding[enc], trext=tx, sel=std.SelFlag[sel], session=std.Session[ses], target=std.InventoryFlag[tgt])
    out = b.ensure_ok(b.call(std.slot_duration, std.SlotType[slot], make(ops), q=q, rn=rn, epc=epc, crc5=crc5, crc16=crc16, is_first=first, **a, **kw))
    lo, hi = [b.ensure_ok(b.call(f, std.SlotType[slot], make(ops), epc=epc, is_first=first, **kw)) for f in (std.slot_duration_min, std.slot_duration_max)]
    b.ensure('not below the minimum', b.le(lo, out))
    b.ensure('not above the maximum', b.le(out, hi))


@case('C27', 'an operation that is not a read is refused', samples=20)
@keep_defaults
def refused(b):
    k = b.choice('position', [0, 1])
    ops = [op('TID', 0, 1)] * k + ['write']
    b.ensure('ValueError', b.call(std.slot_duration, std.SlotType.ACCESS, ops, rn=1).raised(ValueError))


ROWS = ['Tari', 'RTcal', 'TRcal', 'Delim', 'Q', 'WordPtr', 'WordCount', 'TempRange', 'DR', 'TRext', 'M', 'Target', 'Sel', 'Session', 'Bank', 'Query', 'QueryRep', 'ACK', 'ReqRN', 'Read',
        'RN16', 'Response', 'Handle', 'Data'] + [f'T{i}({w})' for i in range(1, 8) for w in ('min', 'max')]


@case('C27', 'timing table: settings, frames and windows', samples=150, shards=4)
@in_force
def table(b):
    D = std.stdParams; tolerance(b)
    how = b.choice('link', ['given', 'left out'] if b.symbolic else ['given', 'left out', 'mixed'])
    if how == 'mixed': t, r, c, d = link(b)
    elif how == 'given': t, r, c, d = [(v, v) for v in (val(b, 'tari'), val(b, 'rtcal', 2, 180), val(b, 'trcal', 2, 540), val(b, 'delim'))]
    else: t, r, c, d = [(None, b.num(getattr(D, n))) for n in ('tari', 'rtcal', 'trcal', 'delim')]
    kw = dict(tari=t[0], rtcal=r[0], trcal=c[0], delim=d[0])
    L = (t[1], r[1], c[1], d[1])
    given = b.choice('other settings given', [True, False])
    drn, temp = b.choice('dr and temperature', [(None, 'EXTENDED'), ('DR_643', None), (None, None), ('DR_8', 'NOMINAL'), ('DR_8', 'EXTENDED'), ('DR_643', 'NOMINAL')][:2 if b.symbolic else 6])
    kw.update(dr=drn and std.DivideRatio[drn], temp=temp and std.TempRange[temp])
    e = dict(m=std.TagEncoding.M4, trext=True, sel=std.SelFlag.SEL, session=std.Session.S3, target=std.InventoryFlag.B, q=b.int('q', 0, 15), bank=std.MemoryBank.USER,
             word_ptr=b.int('word_ptr', 0, 127), word_count=b.int('word_count', 0, 255)) if given else dict(m=D.tag_encoding, trext=D.trext, sel=D.sel, session=D.session,
             target=D.target, q=D.Q, bank=D.read_default_bank, word_ptr=D.read_default_word_ptr, word_count=D.read_default_word_count)
    if given: kw.update(e)
    drv, tv = std.DivideRatio[drn] if drn else D.divide_ratio, std.TempRange[temp] if temp else D.temp_range
    more = b.choice('identifiers given', [True, False])
    rn, crc, epc, mem = (b.int('rn', 0, 65535), b.int('crc', 0, 31), 'AB' * 5, 'CD' * 4) if more else (0, 0, '0' * 24, '0' * 12)
    if more: kw.update(rn=rn, crc=crc, epc=epc, mem=mem)
    g = b.ensure_ok(b.call(std.get_elementary_timings, **kw))
    absent = [k for k in ROWS if k not in g]
    b.ensure('no row is missing', not absent)
    if absent: return
    for k, v in (('Tari', L[0]), ('RTcal', L[1]), ('TRcal', L[2]), ('Delim', L[3]), ('Q', e['q']), ('WordPtr', e['word_ptr']), ('WordCount', e['word_count'])):
        b.ensure(k, b.eq(g[k], v))
    for k, v in (('TempRange', tv), ('DR', drv), ('TRext', e['trext']), ('M', e['m']), ('Target', e['target']), ('Sel', e['sel']), ('Session', e['session']), ('Bank', e['bank'])):
        b.ensure(k, g[k] == v)
    for k, cmd in (('Query', std.Query(drv, e['m'], e['trext'], e['sel'], e['session'], e['target'], e['q'], crc)), ('QueryRep', std.QueryRep(e['session'])), ('ACK', std.Ack(rn)),
                   ('ReqRN', std.ReqRN(rn, crc)), ('Read', std.Read(e['bank'], e['word_ptr'], e['word_count'], rn, crc))):
        b.ensure(k, b.eq(g[k], reader_time(b, cmd, L, k == 'Query')))
    for k, bits in (('RN16', 16), ('Response', 32 + 4 * len(epc)), ('Handle', 32), ('Data', 33 + 4 * len(mem))):
        b.ensure(k, b.eq(g[k], reply_time(b, bits, L, drv.name, e['m'].name, e['trext'])))
    for i in range(1, 8):
        b.ensure(f'T{i}', b.eq((g[f'T{i}(min)'], g[f'T{i}(max)']), window(b, i, (L[1], L[2], drv.name, tv.name))))
