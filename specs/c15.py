"""C15 A transaction lasts as Gen2 requires and delivers at most one clean reply."""
from pyvc.runner import case
from pyvc.sym import Sym
from specs.readerkit import *
import numpy as np

ASSUME = ['real reply frames with up to three replies in the proof (any number of replies with any durations in a case of its own; up to 12 real ones in the bounded runs); frame durations are C07, T1, T2, T4 are C08, SNR and BER are C20',
          'a uniform draw over [0, 1) succeeds with probability p exactly when it is at most p']


class TagStub:
    def __init__(self, i, blf, enc): self.tag_id = i; self.blf = blf; self.encoding = enc; self.power = -10; self.tx_power = -20


class MediumStub:
    """the medium under its contract: some power, some SNR, some BER in [0, 1]"""
    pyvc_model = True
    def __init__(self, b): self.b, self.seen = b, []; self.snr, self.ber = b.real('SNR', 0, 1e6), b.real('BER', 0, 1, gen=lambda r: r.random() ** r.choice([1, 4, 8]))
    def estimate_reader_rx_power(self, reader, tag, time): return -60
    def estimate_reader_rx_snr(self, reader, tag, tags, time): self.seen.append(('snr', reader, tag, time)); return self.snr
    def estimate_reader_rx_ber(self, reader, tag, tags, snr): self.seen.append(('ber', reader, tag, snr)); return self.ber
    for f in (estimate_reader_rx_power, estimate_reader_rx_snr, estimate_reader_rx_ber): f.pyvc_model = True


def reader(b, fixed=True):
    r = new_reader(b, q=4, all_settings=False)
    dr, tmp, trcal = b.choice('link', [('DR_8', 'NOMINAL', 25e-6), ('DR_643', 'EXTENDED', 83.3e-6), ('DR_8', 'EXTENDED', 25e-6), ('DR_643', 'NOMINAL', 67e-6)][:1 if fixed else 2 if b.symbolic else 4])
    if b.symbolic or fixed or b.choice('as usual', [True, False]): r.trcal = b.num(trcal)
    b.set(r, dr=std.DivideRatio[dr], temp=std.TempRange[tmp])
    f = b.ensure_ok(b.call(r.turn_on))
    if b.choice('acknowledging', [True, False]): f = b.ensure_ok(b.call(r.receive, tag_frame('rn16', b.int('RN16', 0, 65535))))
    return r, f


WORDS = {'epc': [1, 6, 31], 'data': [1, 6, 32, 255]}
KINDS = ['rn16', 'epc', 'handle', 'data']


def reply(b, i, kind=None):
    kind = kind or b.choice(f'reply {i}', KINDS)
    enc = std.TagEncoding[b.choice(f'encoding {i}', ['FM0', 'M8'])] if i < 2 else std.TagEncoding.M2
    words = {'rn16': 0, 'handle': 0}.get(kind) if kind in ('rn16', 'handle') else b.choice(f'words {i}', WORDS[kind] if i == 0 else [1, 6])
    rep = {'rn16': lambda: std.QueryReply(7), 'handle': lambda: std.ReqRNReply(7), 'epc': lambda: std.AckReply('ABCD' * words), 'data': lambda: std.ReadReply('ABCD' * words, 7)}[kind]()
    bits = {'rn16': 16, 'handle': 32, 'epc': 32 + 16 * words, 'data': 33 + 16 * words}[kind] if words is not None else {'rn16': 16, 'handle': 32}[kind]
    return TagStub(i, b.real(f'BLF {i}', 40e3, 640e3), enc), std.TagFrame(std.create_tag_preamble(enc, i == 0), rep), bits


def largest(b, xs):
    m = xs[0]
    for x in xs[1:]: m = b.max(m, x)
    return m


def check_times(b, r, f, t, reps):
    tx = b.ensure_ok(b.call(ob.Transaction, MediumStub(b), r, f, [(t_, f_) for t_, f_, _ in reps], t))
    g = lambda n: get(b, tx, n)
    cmd = get(b, f, 'duration')
    b.ensure('command duration', b.eq(g('command_duration'), cmd))
    b.ensure('the command ends one command duration after the start', b.eq(g('command_end_time'), t + cmd))
    b.ensure('starts now', b.eq(g('start_time'), t))
    b.ensure('command and reader', g('command') is f and g('reader') is r)
    b.ensure('all replies are kept, in order', len(g('replies')) == len(reps) and all(x[0] is y[0] and x[1] is y[1] for x, y in zip(g('replies'), reps)))
    if reps:
        c = lambda fn, *a: b.ensure_ok(b.call(fn, *a))
        t1, t2, t4 = c(std.link_t1_min, r.rtcal, r.trcal, r.dr, r.temp), c(std.link_t2_max, r.trcal, r.dr), c(std.link_t4, r.rtcal)
        rep = largest(b, [c(fr.get_duration, tag.blf) for tag, fr, _ in reps])
        b.ensure('lasts as long as the longest reply', b.eq(g('reply_duration'), rep))
        b.ensure('replies begin T1 min after the command', b.eq(g('reply_start_time'), t + cmd + t1))
        b.ensure('replies end after the longest one', b.eq(g('reply_end_time'), t + cmd + t1 + rep))
        dur = b.max(cmd + t1 + rep + t2, cmd + t4)
    else:
        b.ensure('no replies: no reply times', g('reply_start_time') is None and g('reply_end_time') is None and g('reply_duration') is None)
        dur = b.ensure_ok(b.call(r.state.get_timeout, r))
    b.ensure('duration', b.eq(g('duration'), dur))
    b.ensure('finishes one duration after the start', b.eq(g('finish_time'), t + dur))


@case('C15', 'times of a transaction with no, one, two or three replies', samples=300, shards=8)
def times(b):
    r, f = reader(b, False)
    n = b.choice('replies', [0, 1, 2, 3])
    check_times(b, r, f, b.real('start', 0, 1000), [reply(b, i, None if n == 1 else ('rn16', 'epc', 'data')[i]) for i in range(n)])


class AnyFrame:
    """the frame of the reply at the generic position: it lasts some time that depends on the position and the BLF"""
    pyvc_model = True
    def __init__(self, base): self.base = base
    def get_duration(self, blf):
        from pyvc.sym import uf, z
        return Sym(uf('duration of reply', 'i', 'r', 'r')(self.base.j, z(blf, 'real')))
    get_duration.pyvc_model = True


@case('C15', 'times of a transaction with any number of replies; several deliver nothing', mode='sym')
def times_any(b):
    from pyvc.seq import Base, Seq
    from pyvc.sym import uf
    r, f = reader(b, False); t = b.real('start', 0, 1000)
    base = Base(b, 'replies'); b.assume(b.le(1, base.n))
    tag = TagStub(0, Sym(uf('BLF of reply', 'i', 'r')(base.j)), std.TagEncoding.FM0); fr = AnyFrame(base)
    if hasattr(ob, '_TagPowerMinMap'): b.stub(ob._TagPowerMinMap, '__init__', lambda o, values: None)
    reps = Seq(base, (tag, fr))
    tx = b.ensure_ok(b.call(ob.Transaction, MediumStub(b), r, f, reps, t))
    g = lambda n: get(b, tx, n); c = lambda fn, *a: b.ensure_ok(b.call(fn, *a))
    cmd = get(b, f, 'duration'); d = fr.get_duration(tag.blf)
    t1, t2, t4 = c(std.link_t1_min, r.rtcal, r.trcal, r.dr, r.temp), c(std.link_t2_max, r.trcal, r.dr), c(std.link_t4, r.rtcal)
    rep = base.extreme(True, d, False)
    b.assume(Sym(base.inside()))
    b.ensure('command duration', b.eq(g('command_duration'), cmd), replayable=False); b.ensure('starts now', b.eq(g('start_time'), t), replayable=False)
    b.ensure('the command ends one command duration after the start', b.eq(g('command_end_time'), t + cmd), replayable=False)
    b.ensure('no reply lasts longer than the reply duration', b.le(d, g('reply_duration')), replayable=False)
    b.ensure('some reply lasts that long', b.eq(g('reply_duration'), rep), replayable=False)
    b.ensure('replies begin T1 min after the command', b.eq(g('reply_start_time'), t + cmd + t1), replayable=False)
    b.ensure('replies end after the longest one', b.eq(g('reply_end_time'), t + cmd + t1 + rep), replayable=False)
    dur = b.max(cmd + t1 + rep + t2, cmd + t4)
    b.ensure('duration', b.eq(g('duration'), dur), replayable=False); b.ensure('finishes one duration after the start', b.eq(g('finish_time'), t + dur), replayable=False)
    if b.p.decide(b.lt(1, base.n).z):
        b.ensure('nothing is delivered', tuple(b.ensure_ok(b.call(tx.received_tag_frame, MediumStub(b), b.real('now', 0, 1000)))) == (None,) * 4, replayable=False)


@case('C15', 'times with many replies', mode='native', samples=200, thorough=4000, bound='up to 12 (sometimes 300) replies, 200 random transactions (4000 in the thorough tier)')
def times_many(b):
    r, f = reader(b, False)
    n = b.choice('many', [False] * 19 + [True]) and b.int('crowd', 13, 300) or b.int('replies', 0, 12)
    check_times(b, r, f, b.real('start', 0, 1000), [reply(b, i) for i in range(n)])


@case('C15', 'one reply is delivered with probability (1 - BER)^bits', samples=400)
def one_reply(b):
    r, f = reader(b); m = MediumStub(b)
    tag, fr, bits = reply(b, 0)
    tx = b.ensure_ok(b.call(ob.Transaction, m, r, f, [(tag, fr)], b.real('start', 0, 1000)))
    now = b.real('now', 0, 1000); n = len(b.draws); m.seen.clear()
    if not b.symbolic: b.draw_hint = lambda rng: (1 - m.ber) ** bits * (1 + rng.choice([-1, 1, 1]) * 10 ** rng.uniform(-3, 0))
    out = b.ensure_ok(b.call(tx.received_tag_frame, m, now))
    ds = [d for d in list(b.draws)[n:]]
    b.ensure('one uniform draw over [0, 1)', len(ds) == 1 and ds[0][0] == 'uniform')
    b.ensure('from 0 to 1', b.And(b.eq(ds[0][1][0], 0), b.eq(ds[0][1][1], 1)))
    b.ensure('SNR and BER are those of this tag now', len(m.seen) == 2 and b.And(m.seen[0][1] is r, m.seen[0][2] is tag, b.eq(m.seen[0][3], now), m.seen[1][2] is tag, b.eq(m.seen[1][3], m.snr)))
    p = b.pow(1 - m.ber, bits)
    got = out is not None and out[1] is not None
    if got:
        b.ensure('delivered only with that probability', b.le(ds[0][2], p))
        b.ensure('the tag, its frame, SNR and BER', b.And(out[0] is tag, out[1] is fr, b.eq(out[2], m.snr), b.eq(out[3], m.ber)))
    else:
        b.ensure('lost only with the remaining probability', b.le(p, ds[0][2]))
        b.ensure('nothing is delivered', all(x is None for x in out))


@case('C15', 'no reply and collisions deliver nothing', samples=100)
def none_delivered(b):
    r, f = reader(b); m = MediumStub(b)
    n = b.choice('replies', [0, 2, 3] if b.symbolic else [0, 2, 3, 9, 9, 70, 300])
    tx = b.ensure_ok(b.call(ob.Transaction, m, r, f, [reply(b, i, KINDS[i % 4])[:2] for i in range(n)], b.real('start', 0, 1000)))
    b.ensure('nothing is delivered', tuple(b.ensure_ok(b.call(tx.received_tag_frame, m, b.real('now', 0, 1000)))) == (None,) * 4)


@case('C15', 'share of delivered replies', mode='native', samples=6, thorough=40, bound='4000 replies per BER point, tolerance 6 standard deviations', randomize=False)
def share(b):
    ber = b.choice('ber', [0.0, 0.001, 0.01, 0.05, 0.5, 1.0]); kind = b.choice('kind', KINDS)
    r, f = reader(b); m = MediumStub(b); m.ber = ber
    tag, fr, bits = reply(b, 0, kind)
    tx = ob.Transaction(m, r, f, [(tag, fr)], 0.0)
    n = 4000; k = sum(tx.received_tag_frame(m, 0.0)[1] is not None for _ in range(n))
    p = (1 - ber) ** bits
    b.ensure('share of delivered replies', abs(k - n * p) <= 6 * (n * p * (1 - p)) ** .5 + 1)
