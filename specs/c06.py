"""C06 Reader commands encode to the exact Gen2 bit layout."""
from pyvc.runner import case
from pyvc.sym import SStr
import pysim.models.rfid.epcstd as std

DR = {'DR_8': '0', 'DR_643': '1'}
M = {'FM0': '00', 'M2': '01', 'M4': '10', 'M8': '11'}
SEL = {'ALL': '00', 'NOT_SEL': '10', 'SEL': '11'}
SES = {'S0': '00', 'S1': '01', 'S2': '10', 'S3': '11'}
TGT = {'A': '0', 'B': '1'}
BANK = {'RESERVED': '00', 'EPC': '01', 'TID': '10', 'USER': '11'}


def spec_bits(b, v, n):
    """n most significant bit first binary digits of v modulo 2**n."""
    if b.symbolic:
        from pyvc.sym import bits, Sym
        return bits(v % 2 ** n, n)
    return format(v % 2 ** n, f'0{n}b')


def cat(*parts):
    r = SStr(())
    for p in parts: r = r + p
    return r.norm()


def member(enum, name):
    return enum[name] if not hasattr(enum[name], '__sel__') else enum[name]


def opt(b, name, values):
    """a value or None (left out), jointly with the effective member name"""
    return b.choice(name, [None] + list(values))


def flagname(x): return x


def length_and_code(b, cmd, expected, n):
    out = b.ensure_ok(b.call(cmd.encode))
    b.ensure('encoded bit string is the Gen2 layout', b.eq(out, expected))
    b.ensure('bit count of the encoding', len(out) == n)
    bl = b.ensure_ok(b.call(lambda: cmd.bitlen) if not b.symbolic else b.call(type(cmd).bitlen.fget, cmd))
    b.ensure('reported bit length is the length of the string', b.eq(bl, n))


@case('C06', 'Query: all fields given or left out, q and crc symbolic', samples=300, shards=8)
def query(b):
    D = std.stdParams
    dr = b.choice('dr', [None, 'DR_8', 'DR_643']); m = b.choice('m', [None] + list(M))
    sel = b.choice('sel', [None] + list(SEL)); ses = b.choice('session', [None] + list(SES))
    tgt = b.choice('target', [None] + list(TGT)); tx = b.choice('trext', [None, True, False])
    q = b.int('q', 0, 200) if b.choice('q given', [True, False]) else None
    crc = b.int('crc', 0, 200) if b.choice('crc given', [True, False]) else None
    cmd = b.ensure_ok(b.call(std.Query, dr and std.DivideRatio[dr], m and std.TagEncoding[m], tx, sel and std.SelFlag[sel],
                             ses and std.Session[ses], tgt and std.InventoryFlag[tgt], q, crc))
    txe = D.trext if tx is None else tx
    exp = cat('1000', DR[dr or 'DR_8'], M[m or 'FM0'], '1' if txe else '0', SEL[sel or 'ALL'], SES[ses or 'S0'],
              TGT[tgt or 'A'], spec_bits(b, 4 if q is None else q, 4), spec_bits(b, 0 if crc is None else crc, 5))
    length_and_code(b, cmd, exp, 22)


@case('C06', 'QueryRep', samples=20)
def query_rep(b):
    ses = b.choice('session', [None] + list(SES))
    cmd = b.ensure_ok(b.call(std.QueryRep, ses and std.Session[ses]))
    length_and_code(b, cmd, '00' + SES[ses or 'S0'], 4)


@case('C06', 'QueryAdjust with a legal up/down value', samples=40)
def query_adjust(b):
    ses = b.choice('session', [None] + list(SES))
    u = b.choice('updn', ['left out', 1, 0, -1])
    args = [] if u == 'left out' else [u]
    cmd = b.ensure_ok(b.call(std.QueryAdjust, ses and std.Session[ses], *args))
    code = {1: '110', 0: '000', -1: '011', 'left out': '000'}[u]
    length_and_code(b, cmd, '1001' + SES[ses or 'S0'] + code, 9)


@case('C06', 'QueryAdjust refuses any other up/down value', samples=40)
def query_adjust_refuses(b):
    u = b.int('updn', -50, 50)
    cmd = b.ensure_ok(b.call(std.QueryAdjust, std.Session.S1, u))
    out = b.call(cmd.encode)
    legal = b.Or(b.eq(u, 0), b.eq(u, 1), b.eq(u, -1))
    b.ensure('encoding succeeds exactly for -1, 0 and 1', b.Or(b.And(legal, out.ok), b.And(b.Not(legal), out.raised(ValueError))))


@case('C06', 'Ack: any register value, given or left out', samples=100)
def ack(b):
    rn = b.int('rn', 0, 300000) if b.choice('rn given', [True, False]) else None
    cmd = b.ensure_ok(b.call(std.Ack, rn))
    length_and_code(b, cmd, cat('01', spec_bits(b, 0 if rn is None else rn, 16)), 18)


@case('C06', 'ReqRN: any register and checksum, given or left out', samples=100)
def req_rn(b):
    rn = b.int('rn', 0, 300000) if b.choice('rn given', [True, False]) else None
    crc = b.int('crc', 0, 300000) if b.choice('crc given', [True, False]) else None
    cmd = b.ensure_ok(b.call(std.ReqRN, rn, crc))
    length_and_code(b, cmd, cat('11000001', spec_bits(b, 0 if rn is None else rn, 16), spec_bits(b, 0 if crc is None else crc, 16)), 40)


def ebv_groups(b, v):
    """number of 7-bit groups of v < 2**28"""
    for n in (1, 2, 3):
        c = v < 128 ** n
        if c: return n
    return 4


def ebv(b, v, n):
    r = SStr(())
    for k in range(n - 1, -1, -1):
        r = r + ('1' if k else '0')
        r = r + spec_bits(b, (v // 128 ** k) % 128, 7)
    return r.norm()


@case('C06', 'Read: all fields, word pointer below 2**28', samples=400)
def read(b):
    bank = b.choice('bank', [None] + list(BANK))
    wp = b.int('word_ptr', 0, 2 ** 28 - 1) if b.choice('word_ptr given', [True, False]) else None
    wc = b.int('word_count', 0, 1000) if b.choice('word_count given', [True, False]) else None
    rn = b.int('rn', 0, 300000) if b.choice('rn given', [True, False]) else None
    crc = b.int('crc', 0, 300000) if b.choice('crc given', [True, False]) else None
    D = std.stdParams
    cmd = b.ensure_ok(b.call(std.Read, bank and std.MemoryBank[bank], wp, wc, rn, crc))
    v = 0 if wp is None else wp
    n = ebv_groups(b, v)
    exp = cat('11000010', BANK[bank or 'TID'], ebv(b, v, n), spec_bits(b, D.read_default_word_count if wc is None else wc, 8),
              spec_bits(b, 0 if rn is None else rn, 16), spec_bits(b, 0 if crc is None else crc, 16))
    length_and_code(b, cmd, exp, 50 + 8 * n)


@case('C06', 'encode_int/word/byte: most significant bit first, modulo the width', samples=200)
def integers(b):
    n = b.choice('width', [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32])
    v = b.int('value', -2 ** 33, 2 ** 33)
    b.ensure('encode_int', b.eq(b.ensure_ok(b.call(std.encode_int, v, n)), spec_bits(b, v, n)))
    b.ensure('encode_word', b.eq(b.ensure_ok(b.call(std.encode_word, v)), spec_bits(b, v, 16)))
    b.ensure('encode_byte', b.eq(b.ensure_ok(b.call(std.encode_byte, v)), spec_bits(b, v, 8)))


@case('C06', 'encode_ebv below 2**28', samples=400)
def ebv_value(b):
    v = b.int('value', 0, 2 ** 28 - 1)
    n = ebv_groups(b, v)
    b.ensure('encode_ebv', b.eq(b.ensure_ok(b.call(std.encode_ebv, v)), ebv(b, v, n)))


@case('C06', 'system-wide defaults of left-out fields are those in force, falsy values are not defaults', samples=150)
def defaults_in_force(b):
    """A default changed at run time is the one used; a given falsy value is never replaced by it."""
    D = std.stdParams
    saved = dict(D.__dict__)
    try:
        D.Q = b.int('default q', 1, 15); D.default_rn = b.int('default rn', 1, 65535); D.trext = True
        D.session = std.Session.S3; D.sel = std.SelFlag.SEL; D.target = std.InventoryFlag.B
        D.tag_encoding = std.TagEncoding.M8; D.divide_ratio = std.DivideRatio.DR_643
        D.read_default_word_count = b.int('default words', 1, 255); D.read_default_word_ptr = 5
        D.default_crc5 = b.int('default crc5', 1, 31); D.default_crc16 = b.int('default crc16', 1, 65535)
        D.read_default_bank = std.MemoryBank.USER
        given = b.choice('given', [True, False])
        g = (lambda v: v) if given else (lambda v: None)
        q = b.ensure_ok(b.call(std.Query, g(std.DivideRatio.DR_8), g(std.TagEncoding.FM0), g(False), g(std.SelFlag.ALL), g(std.Session.S0), g(std.InventoryFlag.A), g(0), g(0)))
        length_and_code(b, q, '1000' + '0' * 18 if given else cat('1000' + '1' + '11' + '1' + '11' + '11' + '1', spec_bits(b, D.Q, 4), spec_bits(b, D.default_crc5, 5)), 22)
        length_and_code(b, b.ensure_ok(b.call(std.QueryRep, g(std.Session.S0))), '0000' if given else '0011', 4)
        length_and_code(b, b.ensure_ok(b.call(std.QueryAdjust, g(std.Session.S0), 0)), '1001' + ('00' if given else '11') + '000', 9)
        length_and_code(b, b.ensure_ok(b.call(std.Ack, g(0))), cat('01', spec_bits(b, 0 if given else D.default_rn, 16)), 18)
        length_and_code(b, b.ensure_ok(b.call(std.ReqRN, g(0), g(0))), cat('11000001', spec_bits(b, 0 if given else D.default_rn, 16), spec_bits(b, 0 if given else D.default_crc16, 16)), 40)
        length_and_code(b, b.ensure_ok(b.call(std.Read, g(std.MemoryBank.RESERVED), g(0), g(0), g(0), g(0))),
                        cat('11000010', '00' if given else '11', '0' + format(0 if given else 5, '07b'), spec_bits(b, 0 if given else D.read_default_word_count, 8),
                            spec_bits(b, 0 if given else D.default_rn, 16), spec_bits(b, 0 if given else D.default_crc16, 16)), 58)
    finally:
        D.__dict__.clear(); D.__dict__.update(saved)
