"""C07 Air time of every frame follows from its bits and link settings."""
from fractions import Fraction
from pyvc.runner import case
from pyvc.seq import Mixed
from pyvc.sym import SStr, Sym
import pysim.models.rfid.epcstd as std
from specs.c06 import SEL, SES, TGT, BANK, DR, M

US = 1e-6
ENC = list(M)
SPB = {'FM0': 1, 'M2': 2, 'M4': 4, 'M8': 8}
ASSUME = ['durations are compared as exact reals (native runs: relative tolerance 1e-9)',
          'word pointers below 128 in the command-duration cases (the layout itself is covered by C06)']


def in_force(fn):
    """run the case under the shipped system-wide defaults or under others in force"""
    def run(b):
        D = std.stdParams; saved = dict(D.__dict__)
        try:
            if b.choice('system-wide defaults', ['shipped', 'other']) == 'other':
                for n, lo, hi in (('tari', 1, 60), ('rtcal', 2, 180), ('trcal', 2, 540), ('delim', 1, 60)): setattr(D, n, val(b, 'default ' + n, lo, hi))
                D.divide_ratio = std.DivideRatio.DR_643; D.tag_encoding = std.TagEncoding.M4; D.trext = True; D.temp_range = std.TempRange.EXTENDED
                D.session = std.Session.S2; D.sel = std.SelFlag.SEL; D.target = std.InventoryFlag.B; D.Q = 7; D.default_rn = 0x1234; D.default_crc5 = 3; D.default_crc16 = 0x101
                D.read_default_bank = std.MemoryBank.USER; D.read_default_word_ptr = 9; D.read_default_word_count = 7; D.default_epc = 'AB' * 5
            fn(b)
        finally: D.__dict__.clear(); D.__dict__.update(saved)
    run.__name__ = fn.__name__; run.__module__ = fn.__module__; run.__doc__ = fn.__doc__
    return run


def val(b, name, lo=1, hi=60, gen=None):
    return b.real(name, lo * US, hi * US, gen=gen)


def opt(b, name, default, lo=1, hi=60, gen=None):
    """(argument, effective value) of a link parameter given or left out"""
    if b.choice(name + ' given', [True, False]):
        v = val(b, name, lo, hi, gen); return v, v
    return None, default


def counts(s):
    s = s if isinstance(s, SStr) else str(s)
    return s.count('0'), s.count('1')


def dr_value(b, name): return 8 if name == 'DR_8' else Fraction(64, 3) if b.symbolic else 64 / 3


def blf_of(b, drname, trcal):
    return dr_value(b, drname) / trcal


def pre_bits(enc, trext): return (18 if trext else 6) if enc == 'FM0' else (22 if trext else 10)


class SymBytes:
    """a byte list of symbolic length"""
    def __init__(self, n): self.n = n
    def pyvc_len(self): return self.n
    def __iter__(self): raise TypeError('contents not modelled')


def body(b, bits, tari, rtcal):
    n0, n1 = counts(bits)
    return n0 * tari + n1 * (rtcal - tari)


@case('C07', 'reader frame: sync or preamble plus Tari per 0 and RTcal-Tari per 1', samples=200, bound='any bit string up to 24 bits in the proof, up to 300 in the native runs; any_frame proves every length')
def reader_frame(b):
    n = b.choice('bits', [0, 1, 4, 9, 18, 24] if b.symbolic else [0, 1, 4, 9, 18, 24, 58, 65, 130, 300])
    bits = SStr(())
    for i in range(n):
        v = b.bool(f'bit{i}')
        bits = bits + (SStr([(v.z,)]) if isinstance(v, Sym) else ('1' if v else '0'))
    bits = bits.norm()
    tari, rtcal, trcal, delim = val(b, 'tari'), val(b, 'rtcal', 2, 180), val(b, 'trcal', 2, 540), val(b, 'delim')
    full = b.bool('full preamble')
    if full: pre = b.ensure_ok(b.call(std.ReaderPreamble, tari, rtcal, trcal, delim))
    else: pre = b.ensure_ok(b.call(std.ReaderSync, tari, rtcal, delim))
    pd = delim + tari + rtcal + (trcal if full else 0)
    fr = b.ensure_ok(b.call(std.ReaderFrame, pre, bits))
    get = lambda o, n: b.ensure_ok(b.call(getattr, o, n)) if b.symbolic else getattr(o, n)
    b.ensure('preamble lasts delimiter + Tari + RTcal (+ TRcal)', b.eq(get(fr, 'preamble_duration'), pd))
    b.ensure('body lasts Tari per 0 and RTcal-Tari per 1', b.eq(get(fr, 'body_duration'), body(b, bits, tari, rtcal)))
    b.ensure('frame lasts preamble + body', b.eq(get(fr, 'duration'), pd + body(b, bits, tari, rtcal)))


@case('C07', 'reader frame: any bit string of any length', mode='sym')
def any_frame(b):
    zeros, ones = b.int('zeros', 0), b.int('ones', 0)
    bits = Mixed(b, [('0', zeros), ('1', ones)], text=True)
    tari, rtcal, trcal, delim = val(b, 'tari'), val(b, 'rtcal', 2, 180), val(b, 'trcal', 2, 540), val(b, 'delim')
    full = b.choice('full preamble', [False, True])
    pre = b.ensure_ok(b.call(std.ReaderPreamble, tari, rtcal, trcal, delim) if full else b.call(std.ReaderSync, tari, rtcal, delim))
    want = zeros * tari + ones * (rtcal - tari)
    fr = b.ensure_ok(b.call(std.ReaderFrame, pre, bits))
    get = lambda o, n: b.ensure_ok(b.call(getattr, o, n))
    b.ensure('body lasts Tari per 0 and RTcal-Tari per 1', b.eq(get(fr, 'body_duration'), want))
    b.ensure('frame lasts preamble + body', b.eq(get(fr, 'duration'), delim + tari + rtcal + (trcal if full else 0) + want))


def link(b, trc=True):
    D = std.stdParams
    t = opt(b, 'tari', b.num(D.tari)); r = opt(b, 'rtcal', b.num(D.rtcal), 2, 180)
    c = opt(b, 'trcal', b.num(D.trcal), 2, 540) if trc else None
    d = opt(b, 'delim', b.num(D.delim))
    return t, r, c, d


def frame_time(b, cmd, t, r, c, d, query):
    bits = b.ensure_ok(b.call(cmd.encode))
    return d + t + r + (c if query else 0) + body(b, bits, t, r)


@case('C07', 'query_duration, command_duration(QUERY), reader_frame_duration(Query)', samples=150, shards=8)
@in_force
def query_dur(b):
    t, r, c, d = link(b)
    drn = b.choice('dr', [None, 'DR_643']); enc = b.choice('m', [None, 'M8']); tx = b.choice('trext', [None, True])
    sel = b.choice('sel', [None, 'SEL']); ses = b.choice('session', [None, 'S3']); tgt = b.choice('target', [None, 'B'])
    if b.choice('numbers given', [True, False]): q, crc = b.int('q', 0, 15), b.int('crc', 0, 31)
    else: q = crc = None
    a = (drn and std.DivideRatio[drn], enc and std.TagEncoding[enc], tx, sel and std.SelFlag[sel], ses and std.Session[ses], tgt and std.InventoryFlag[tgt], q, crc)
    cmd = std.Query(*a)
    exp = frame_time(b, cmd, t[1], r[1], c[1], d[1], True)
    kw = dict(zip(('dr', 'm', 'trext', 'sel', 'session', 'target', 'q', 'crc'), a))
    b.ensure('query_duration', b.eq(b.ensure_ok(b.call(std.query_duration, tari=t[0], rtcal=r[0], trcal=c[0], delim=d[0], **kw)), exp))
    kw['crc5'] = kw.pop('crc')
    b.ensure('command_duration(QUERY)', b.eq(b.ensure_ok(b.call(std.command_duration, std.CommandCode.QUERY, tari=t[0], rtcal=r[0], trcal=c[0], delim=d[0], **kw)), exp))
    b.ensure('reader_frame_duration(Query)', b.eq(b.ensure_ok(b.call(std.reader_frame_duration, cmd, t[0], r[0], c[0], d[0])), exp))


def check_short(b, cmd, code, fn, t, r, c, d, cmdkw, fnkw=None):
    exp = frame_time(b, cmd, t[1], r[1], None, d[1], False)
    L = dict(tari=t[0], rtcal=r[0], delim=d[0])
    b.ensure(f'{code.name}: duration helper', b.eq(b.ensure_ok(b.call(fn, **L, **(cmdkw if fnkw is None else fnkw))), exp))
    b.ensure(f'{code.name}: command_duration', b.eq(b.ensure_ok(b.call(std.command_duration, code, **L, **cmdkw)), exp))
    b.ensure(f'{code.name}: reader_frame_duration has no TRcal', b.eq(b.ensure_ok(b.call(std.reader_frame_duration, cmd, t[0], r[0], c and c[0], d[0])), exp))


@case('C07', 'QueryRep duration', samples=80)
@in_force
def query_rep_dur(b):
    t, r, c, d = link(b)
    ses = b.choice('session', [None] + list(SES)); s = ses and std.Session[ses]
    check_short(b, std.QueryRep(s), std.CommandCode.QUERY_REP, std.query_rep_duration, t, r, c, d, dict(session=s))


@case('C07', 'QueryAdjust duration', samples=150)
@in_force
def query_adjust_dur(b):
    t, r, c, d = link(b)
    ses = b.choice('session', [None] + list(SES)); s = ses and std.Session[ses]
    u = b.choice('updn', ['left out', 1, 0, -1])
    cmd = std.QueryAdjust(s) if u == 'left out' else std.QueryAdjust(s, u)
    exp = frame_time(b, cmd, t[1], r[1], None, d[1], False)
    kw = dict(tari=t[0], rtcal=r[0], delim=d[0], session=s)
    if u != 'left out': kw['updn'] = u
    b.ensure('QUERY_ADJUST: duration helper', b.eq(b.ensure_ok(b.call(std.query_adjust_duration, **kw)), exp))
    b.ensure('QUERY_ADJUST: reader_frame_duration', b.eq(b.ensure_ok(b.call(std.reader_frame_duration, cmd, t[0], r[0], c[0], d[0])), exp))
    if u == 'left out':
        b.ensure('QUERY_ADJUST: command_duration', b.eq(b.ensure_ok(b.call(std.command_duration, std.CommandCode.QUERY_ADJUST, tari=t[0], rtcal=r[0], trcal=c[0], delim=d[0], session=s)), exp))


@case('C07', 'Ack duration', samples=80)
@in_force
def ack_dur(b):
    t, r, c, d = link(b)
    rn = b.int('rn', 0, 65535) if b.choice('rn given', [True, False]) else None
    check_short(b, std.Ack(rn), std.CommandCode.ACK, std.ack_duration, t, r, c, d, dict(rn=rn))


@case('C07', 'ReqRN duration', samples=80)
@in_force
def reqrn_dur(b):
    t, r, c, d = link(b)
    rn = b.int('rn', 0, 65535) if b.choice('rn given', [True, False]) else None
    crc = b.int('crc', 0, 65535) if b.choice('crc given', [True, False]) else None
    check_short(b, std.ReqRN(rn, crc), std.CommandCode.REQ_RN, std.reqrn_duration, t, r, c, d, dict(rn=rn, crc16=crc), dict(rn=rn, crc=crc))


@case('C07', 'Read duration', samples=120)
@in_force
def read_dur(b):
    t, r, c, d = link(b)
    bank = b.choice('bank', [None, 'USER']); bk = bank and std.MemoryBank[bank]
    g = b.choice('numbers given', [True, False])
    wp = b.int('word_ptr', 0, 127) if g else None; wc = b.int('word_count', 0, 255) if g else None
    rn = b.int('rn', 0, 65535) if g else None; crc = b.int('crc', 0, 65535) if g else None
    kw = dict(bank=bk, word_ptr=wp, word_count=wc, rn=rn)
    check_short(b, std.Read(bk, wp, wc, rn, crc), std.CommandCode.READ, std.read_duration, t, r, c, d, dict(kw, crc16=crc), dict(kw, crc=crc))


@case('C07', 'an encoded bit string is timed like the command it encodes', samples=100)
def bit_string_dur(b):
    t, r, c, d = val(b, 'tari'), val(b, 'rtcal', 2, 180), val(b, 'trcal', 2, 540), val(b, 'delim')
    k = b.choice('command', ['Query', 'QueryRep', 'QueryAdjust', 'Ack', 'ReqRN', 'Read'])
    n = b.int('number', 0, 127)
    cmd = {'Query': lambda: std.Query(std.DivideRatio.DR_643, std.TagEncoding.M4, True, std.SelFlag.SEL, std.Session.S2, std.InventoryFlag.B, n, n),
           'QueryRep': lambda: std.QueryRep(std.Session.S1), 'QueryAdjust': lambda: std.QueryAdjust(std.Session.S2, 1),
           'Ack': lambda: std.Ack(n), 'ReqRN': lambda: std.ReqRN(n, n), 'Read': lambda: std.Read(std.MemoryBank.EPC, n, n, n, n)}[k]()
    s = b.ensure_ok(b.call(cmd.encode))
    b.ensure('string and command agree', b.eq(b.ensure_ok(b.call(std.reader_frame_duration, s, t, r, c, d)), frame_time(b, cmd, t, r, c, d, k == 'Query')))


# ---------------------------------------------------------------- tag side
def reply_of(b, kind, n):
    """a reply whose payload has n bytes (symbolic length in the proof) and its number of bits"""
    if kind == 'rn16': return b.ensure_ok(b.call(std.QueryReply, 5)), 16
    if kind == 'handle': return b.ensure_ok(b.call(std.ReqRNReply, 5, 6)), 32
    if b.symbolic:
        b.stub(std, 'to_bytes', lambda v: v)
        payload = SymBytes(n)
    else: payload = 'A5' * n
    if kind == 'epc': return b.ensure_ok(b.call(std.AckReply, payload, 1, 2)), 32 + 8 * n
    return b.ensure_ok(b.call(std.ReadReply, payload, 1, 2)), 33 + 8 * n


KINDS = ['rn16', 'epc', 'handle', 'data']
def SIZES(r): return r.choice([0, 1, 8, 12, r.randint(0, 20), r.randint(0, 64), r.randint(50, 130), r.randint(200, 600)])


@case('C07', 'reply bit lengths; tag frame duration, body, bit length', samples=250)
def tag_frame(b):
    kind = b.choice('reply', KINDS); n = b.int('payload bytes', 0, gen=SIZES)
    enc = b.choice('encoding', ENC); tx = b.choice('trext', [True, False])
    blf = b.real('blf', 40e3, 640e3)
    rep, nb = reply_of(b, kind, n)
    get = lambda o, a: b.ensure_ok(b.call(getattr, o, a))
    b.ensure('reply bit length', b.eq(get(rep, 'bitlen'), nb))
    pre = b.ensure_ok(b.call(std.create_tag_preamble, std.TagEncoding[enc], tx))
    b.ensure('preamble bit length', b.eq(get(pre, 'bitlen'), pre_bits(enc, tx)))
    b.ensure('preamble encoding', get(pre, 'encoding') is std.TagEncoding[enc])
    b.ensure('preamble extension', bool(pre.extended) == tx)
    fr = b.ensure_ok(b.call(std.TagFrame, pre, rep))
    m = SPB[enc]
    b.ensure('preamble duration', b.eq(b.ensure_ok(b.call(pre.get_duration, blf)), pre_bits(enc, tx) * m / blf))
    b.ensure('body duration', b.eq(b.ensure_ok(b.call(fr.get_body_duration, blf)), nb * m / blf))
    b.ensure('frame lasts (preamble + reply + 1) * symbols per bit / BLF', b.eq(b.ensure_ok(b.call(fr.get_duration, blf)), (pre_bits(enc, tx) + nb + 1) * m / blf))
    b.ensure('frame bit length', b.eq(get(fr, 'bitlen'), pre_bits(enc, tx) + nb + 1))
    f2 = b.real('other blf', 40e3, 640e3)
    b.ensure('the same preamble at another BLF', b.eq(b.ensure_ok(b.call(pre.get_duration, f2)), pre_bits(enc, tx) * m / f2))
    b.ensure('the same body at another BLF', b.eq(b.ensure_ok(b.call(fr.get_body_duration, f2)), nb * m / f2))
    b.ensure('the same frame at another BLF', b.eq(b.ensure_ok(b.call(fr.get_duration, f2)), (pre_bits(enc, tx) + nb + 1) * m / f2))


@case('C07', 'tag_frame_duration with settings given or left out', samples=150)
@in_force
def tag_frame_dur(b):
    D = std.stdParams
    kind = b.choice('reply', KINDS); n = b.int('payload bytes', 0, gen=SIZES)
    enc = b.choice('encoding', [None] + ENC); tx = b.choice('trext', [None, True, False])
    rep, nb = reply_of(b, kind, n)
    blf = b.real('blf', 40e3, 640e3) if b.choice('blf given', [True, False]) else None
    e = enc or D.tag_encoding.name
    exp = (pre_bits(e, D.trext if tx is None else tx) + nb + 1) * SPB[e] / (blf if blf is not None else blf_of(b, D.divide_ratio.name, b.num(D.trcal)))
    b.ensure('tag_frame_duration', b.eq(b.ensure_ok(b.call(std.tag_frame_duration, rep, blf, enc and std.TagEncoding[enc], tx)), exp))


def tag_link(b):
    D = std.stdParams
    drn = b.choice('dr', [None, 'DR_8', 'DR_643']); enc = b.choice('encoding', [None] + ENC); tx = b.choice('trext', [None, True, False])
    c = opt(b, 'trcal', b.num(D.trcal), 2, 540)
    e = enc or D.tag_encoding.name
    kw = dict(dr=drn and std.DivideRatio[drn], trcal=c[0], encoding=enc and std.TagEncoding[enc], trext=tx)
    per_bit = SPB[e] / blf_of(b, drn or D.divide_ratio.name, c[1])
    return kw, pre_bits(e, D.trext if tx is None else tx), per_bit


@case('C07', 'reply_duration and the per-reply helpers', samples=250)
@in_force
def reply_dur(b):
    D = std.stdParams
    kw, pre, per_bit = tag_link(b)
    kind = b.choice('reply', KINDS)
    given = b.choice('size given', [True, False])
    n = b.int('size', 0, gen=SIZES) if given else None
    if kind == 'rn16':
        nb, fn, code, fx, gx = 16, std.query_reply_duration, std.ReplyType.QUERY_REPLY, {}, {}
    elif kind == 'handle':
        nb, fn, code, fx, gx = 32, std.reqrn_reply_duration, std.ReplyType.REQRN_REPLY, {}, {}
    elif kind == 'epc':
        nb, fn, code = 32 + 8 * (n if given else len(D.default_epc) // 2), std.ack_reply_duration, std.ReplyType.ACK_REPLY
        fx = gx = dict(epc_bytelen=n)
    else:
        nb, fn, code = 33 + 16 * (n if given else D.read_default_word_count), std.read_reply_duration, std.ReplyType.READ_REPLY
        fx = gx = dict(words_count=n)
    exp = (pre + nb + 1) * per_bit
    b.ensure(f'{kind}: reply helper', b.eq(b.ensure_ok(b.call(fn, **kw, **fx)), exp))
    b.ensure(f'{kind}: reply_duration', b.eq(b.ensure_ok(b.call(std.reply_duration, code, **kw, **gx)), exp))


@case('C07', 'BLF, bit rate, preamble length and preamble duration helpers', samples=150)
@in_force
def rates(b):
    D = std.stdParams
    drn = b.choice('dr', [None, 'DR_8', 'DR_643']); enc = b.choice('encoding', [None] + ENC); tx = b.choice('trext', [None, True, False])
    c = opt(b, 'trcal', b.num(D.trcal), 2, 540)
    e, txe = enc or D.tag_encoding.name, D.trext if tx is None else tx
    blf = blf_of(b, drn or D.divide_ratio.name, c[1])
    d = drn and std.DivideRatio[drn]; en = enc and std.TagEncoding[enc]
    b.ensure('BLF = DR / TRcal', b.eq(b.ensure_ok(b.call(std.get_blf, d, c[0])), blf))
    b.ensure('bit rate = BLF / symbols per bit', b.eq(b.ensure_ok(b.call(std.tag_bitrate, d, c[0], en)), blf / SPB[e]))
    b.ensure('preamble bit length', b.eq(b.ensure_ok(b.call(std.tag_preamble_bitlen, en, tx)), pre_bits(e, txe)))
    f = b.real('blf', 40e3, 640e3) if b.choice('blf given', [True, False]) else None
    fe = f if f is not None else blf_of(b, D.divide_ratio.name, b.num(D.trcal))
    b.ensure('preamble duration', b.eq(b.ensure_ok(b.call(std.tag_preamble_duration, f, en, tx)), pre_bits(e, txe) * SPB[e] / fe))


@case('C07', 'unknown command codes and reply types are refused', samples=5)
def unknown(b):
    b.ensure('command_duration', b.call(std.command_duration, 'nonsense').raised(ValueError))
    b.ensure('reply_duration', b.call(std.reply_duration, 'nonsense').raised(ValueError))


@case('C07', 'reply payloads: hex strings and byte sequences, anything else refused', samples=200)
def to_bytes(b):
    kind = b.choice('kind', ['hex', 'bytes', 'list', 'number', 'none'])
    n = b.choice('length', [0, 1, 3, 12])
    vals = [b.int(f'v{i}', -5, 300) if kind == 'list' else (i * 37) % 256 for i in range(n)]
    if kind == 'hex': out = b.call(std.to_bytes, ''.join(f'{v:02X}' for v in vals))
    elif kind == 'bytes': out = b.call(std.to_bytes, bytes(vals))
    elif kind == 'list': out = b.call(std.to_bytes, list(vals))
    elif kind == 'number': out = b.call(std.to_bytes, 5)
    else: out = b.call(std.to_bytes, None)
    if kind in ('number', 'none'):
        b.ensure('refused', out.raised(ValueError)); return
    legal = b.And(*[b.And(v >= 0, v < 256) for v in vals])
    b.ensure('accepted exactly when every element is a byte', b.Or(b.And(legal, out.ok), b.And(b.Not(legal), out.raised(ValueError))))
    if out.ok: b.ensure('same bytes', b.eq(list(out.value), vals))


@case('C07', 'timing table agrees with the frame durations', mode='native', samples=60, bound='60 sampled settings')
def timing_table(b):
    t, r, c, d = val(b, 'tari'), val(b, 'rtcal', 2, 180), val(b, 'trcal', 2, 540), val(b, 'delim')
    enc = b.choice('encoding', ENC); tx = b.choice('trext', [True, False]); drn = b.choice('dr', list(DR)); q = b.int('q', 0, 15)
    D, E = std.DivideRatio[drn], std.TagEncoding[enc]
    g = b.ensure_ok(b.call(std.get_elementary_timings, tari=t, rtcal=r, trcal=c, delim=d, dr=D, m=E, trext=tx, q=q))
    L = (t, r, c, d)
    ses = std.stdParams.session
    b.ensure('Query', b.eq(g['Query'], std.query_duration(*L, dr=D, m=E, trext=tx, q=q)))
    b.ensure('QueryRep', b.eq(g['QueryRep'], std.query_rep_duration(*L)))
    b.ensure('ACK', b.eq(g['ACK'], std.ack_duration(*L, 0)))
    b.ensure('ReqRN', b.eq(g['ReqRN'], std.reqrn_duration(*L, 0)))
    b.ensure('Read', b.eq(g['Read'], std.read_duration(*L)))
    b.ensure('RN16', b.eq(g['RN16'], std.query_reply_duration(D, c, E, tx)))
    b.ensure('Response', b.eq(g['Response'], std.ack_reply_duration(D, c, E, tx, 12)))
    b.ensure('Handle', b.eq(g['Handle'], std.reqrn_reply_duration(D, c, E, tx)))
    b.ensure('Data', b.eq(g['Data'], std.read_reply_duration(D, c, E, tx, 3)))
