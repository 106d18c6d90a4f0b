"""C08 Link timing windows match the Gen2 table."""
from fractions import Fraction as F
from pyvc.runner import case
import pysim.models.rfid.epcstd as std
from specs.c07 import val, opt, dr_value, in_force

ASSUME = ['thresholds of the tolerance table are exact multiples of 1 us in the proof',
          'indices are integers or None']

# Gen2 frequency tolerance: (TRcal below, in us; nominal; extended) per divide ratio
TABLE = {
    'DR_643': {'NOMINAL': [(33.633, F(15, 100)), (66.033, F(22, 100)), (67.367, F(10, 100)), (82.467, F(12, 100)), (131.967, F(10, 100)), (198.0, F(7, 100)), (227.25, F(5, 100))],
               'EXTENDED': [(33.633, F(15, 100)), (66.033, F(22, 100)), (82.467, F(15, 100)), (84.133, F(10, 100)), (131.967, F(12, 100)), (198.0, F(7, 100)), (227.25, F(5, 100))]},
    'DR_8': {'NOMINAL': [(24.75, F(19, 100)), (25.25, F(10, 100)), (30.9375, F(12, 100)), (49.5, F(10, 100)), (75.0, F(7, 100)), (202.0, F(4, 100))],
             'EXTENDED': [(24.75, F(19, 100)), (30.9375, F(15, 100)), (49.5, F(10, 100)), (75.0, F(7, 100)), (202.0, F(4, 100))]},
}


def NEAR(r):
    """sampled TRcal: about the rows of the table"""
    return (r.uniform(20, 90) if r.random() < .5 else r.choice([t for rows in TABLE.values() for row in rows.values() for t, _ in row]) * r.choice([.99, .999, 1.001, 1.01])) * 1e-6


def frt_of(b, dr, temp, trcal):
    rows = TABLE[dr][temp]
    r = rows[-1][1] if b.symbolic else float(rows[-1][1])
    for top, v in reversed(rows):
        r = b.ite(trcal < (b.num(top) * F(1, 10**6) if b.symbolic else top * 1e-6), v if b.symbolic else float(v), r)
    return r


def settings(b, which=('rtcal', 'trcal', 'dr', 'temp')):
    D = std.stdParams
    r = opt(b, 'rtcal', b.num(D.rtcal), 0.001, 400) if 'rtcal' in which else (None, b.num(D.rtcal))
    c = opt(b, 'trcal', b.num(D.trcal), 0.001, 1000, NEAR) if 'trcal' in which else (None, b.num(D.trcal))
    dr = b.choice('dr', [None, 'DR_8', 'DR_643']) if 'dr' in which else None
    t = b.choice('temp', [None, 'NOMINAL', 'EXTENDED']) if 'temp' in which else None
    kw = dict(rtcal=r[0], trcal=c[0], dr=dr and std.DivideRatio[dr], temp=t and std.TempRange[t])
    return kw, (r[1], c[1], dr or D.divide_ratio.name, t or D.temp_range.name)


def window(b, i, eff):
    r, c, dr, temp = eff
    pri = c / dr_value(b, dr)
    us2 = F(2, 10**6) if b.symbolic else 2e-6
    big = b.max(r, 10 * pri); inf = float('inf')
    if i in (1, 5, 6):
        frt = frt_of(b, dr, temp, c)
        lo = big * (1 - frt) - us2
        return lo, (big * (1 + frt) + us2 if i == 1 else b.num(0.02))
    if i == 2: return 3 * pri, 20 * pri
    if i == 3: return 0, inf
    if i == 4: return 2 * r, inf
    return b.max(20 * pri, b.num(250e-6)), b.num(0.02)


@case('C08', 'frequency tolerance is the row of the table', samples=300)
@in_force
def frt(b):
    kw, eff = settings(b, ('trcal', 'dr', 'temp'))
    out = b.ensure_ok(b.call(std.get_frt, kw['trcal'], kw['dr'], kw['temp']))
    b.ensure('FrT', b.eq(out, frt_of(b, eff[2], eff[3], eff[1])))
    b.ensure('period of the link frequency', b.eq(b.ensure_ok(b.call(std.get_pri, kw['trcal'], kw['dr'])), eff[1] / dr_value(b, eff[2])))


@case('C08', 'T1..T7 minimum and maximum, by index', samples=400, shards=4)
@in_force
def by_index(b):
    kw, eff = settings(b)
    i = b.choice('index', list(range(1, 8)))
    lo, hi = window(b, i, eff)
    b.ensure(f'T{i} min', b.eq(b.ensure_ok(b.call(std.min_link_t, i, **kw)), lo))
    b.ensure(f'T{i} max', b.eq(b.ensure_ok(b.call(std.max_link_t, i, **kw)), hi))
    b.ensure(f'T{i} pair', b.eq(tuple(b.ensure_ok(b.call(std.link_t, i, **kw))), (lo, hi)))


@case('C08', 'an index outside 1..7 is refused', samples=80)
@in_force
def bad_index(b):
    kw, eff = settings(b)
    i = b.int('index', -100, 100)
    b.assume(b.Or(i < 1, i > 7))
    b.ensure('min', b.call(std.min_link_t, i, **kw).raised(ValueError))
    b.ensure('max', b.call(std.max_link_t, i, **kw).raised(ValueError))
    b.ensure('pair', b.call(std.link_t, i, **kw).raised(ValueError))


@case('C08', 'without an index: all seven in order', samples=200, shards=4)
@in_force
def listed(b):
    kw, eff = settings(b)
    w = [window(b, i, eff) for i in range(1, 8)]
    b.ensure('min', b.eq(list(b.ensure_ok(b.call(std.min_link_t, None, **kw))), [x[0] for x in w]))
    b.ensure('max', b.eq(list(b.ensure_ok(b.call(std.max_link_t, None, **kw))), [x[1] for x in w]))
    pairs = b.ensure_ok(b.call(std.link_t, **kw))
    b.ensure('pairs', b.eq([tuple(p) for p in pairs], w))


SHORT = [('link_t1_min', 1, 0, 'rtdp'), ('link_t1_max', 1, 1, 'rtdp'), ('link_t2_min', 2, 0, 'td'), ('link_t2_max', 2, 1, 'td'),
         ('link_t3', 3, 0, ''), ('link_t4', 4, 0, 'r'), ('link_t5_min', 5, 0, 'rtdp'), ('link_t5_max', 5, 1, ''),
         ('link_t6_min', 6, 0, 'rtdp'), ('link_t6_max', 6, 1, ''), ('link_t7_min', 7, 0, 'td'), ('link_t7_max', 7, 1, '')]
NAMES = dict(r='rtcal', t='trcal', d='dr', p='temp')


@case('C08', 'the named helpers', samples=300, shards=4)
@in_force
def named(b):
    name, i, side, args = b.choice('helper', SHORT)
    kw, eff = settings(b, [NAMES[a] for a in args])
    out = b.ensure_ok(b.call(b.find(std, name), **{NAMES[a]: kw[NAMES[a]] for a in args}))
    b.ensure(name, b.eq(out, window(b, i, eff)[side]))
    out = b.ensure_ok(b.call(b.find(std, name), *[kw[NAMES[a]] for a in args]))
    b.ensure(name + ' (positional)', b.eq(out, window(b, i, eff)[side]))


@case('C08', 'timing table lists the windows', mode='native', samples=60, bound='60 sampled settings')
@in_force
def table(b):
    kw, eff = settings(b)
    g = b.ensure_ok(b.call(std.get_elementary_timings, **kw))
    for i in range(1, 8):
        lo, hi = window(b, i, eff)
        b.ensure(f'T{i}', b.eq((g[f'T{i}(min)'], g[f'T{i}(max)']), (lo, hi)))
