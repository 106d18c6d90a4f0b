"""Readers in arbitrary settings, for C12-C14 and the handler properties."""
import itertools, random
from pyvc.models import Log
import pysim.models.rfid.objects as ob
import pysim.models.rfid.epcstd as std
from specs.c07 import val

A, B = std.InventoryFlag.A, std.InventoryFlag.B
RS = ob.Reader.State


class Kernel:
    def __init__(self): self.logger = Log(); self.context = None; self.time = 0.0


class Events:
    """what the reader announces, in order"""
    def __init__(self, reader):
        self.log = []
        def rec(kind):
            def fn(*a): self.log.append((kind,) + a)
            fn.pyvc_model = True
            return fn
        reader.round_start_listeners.add(rec('round+')); reader.round_finish_listeners.add(rec('round-'))
        reader.slot_start_listeners.add(rec('slot+')); reader.slot_finish_listeners.add(rec('slot-'))


def get(b, o, n):
    """o.n, computed by the code under test"""
    return b.ensure_ok(b.call(getattr, o, n)) if b.symbolic else getattr(o, n)


SETTINGS = [('DR_8', 'FM0', False, 'ALL', 'S0', A, 'NOMINAL'), ('DR_643', 'M2', True, 'SEL', 'S1', B, 'EXTENDED'),
            ('DR_8', 'M4', True, 'NOT_SEL', 'S2', A, 'EXTENDED'), ('DR_643', 'M8', False, 'ALL', 'S3', B, 'NOMINAL')]
_rest = [x for x in itertools.product(['DR_8', 'DR_643'], ['FM0', 'M2', 'M4', 'M8'], [False, True], ['ALL', 'SEL', 'NOT_SEL'], ['S0', 'S1', 'S2', 'S3'], [A, B], ['NOMINAL', 'EXTENDED']) if x not in SETTINGS]
random.Random(1).shuffle(_rest)
SETTINGS += _rest       # the first four for all values of the rest, all of them sampled


def new_reader(b, link='any', q=None, all_settings=True):
    r = b.ensure_ok(b.call(ob.Reader, Kernel()))
    b.need(r, 'tari', 'rtcal', 'trcal', 'delim', 'dr', 'q', 'session', 'target', 'sel', 'tag_encoding', 'trext', 'temp', 'read_tid_bank', 'read_tid_words_num')
    if link == 'any':
        tari = val(b, 'tari', 6, 26)
        b.set(r, tari=tari, rtcal=val(b, 'rtcal', 15, 80), trcal=val(b, 'trcal', 17, 225), delim=val(b, 'delim', 10, 14))
    if link == 'fixed': b.set(r, tari=b.num(6.25e-6), rtcal=b.num(18.75e-6), trcal=b.num(37.5e-6), delim=b.num(12.5e-6))
    dr, enc, tx, sel, ses, tgt, tmp = b.choice('settings', SETTINGS if not b.symbolic else SETTINGS[:4 if all_settings else 1])
    b.set(r, dr=std.DivideRatio[dr], tag_encoding=std.TagEncoding[enc], trext=tx, sel=std.SelFlag[sel], session=std.Session[ses], target=tgt, temp=std.TempRange[tmp],
          q=b.choice('Q', [0, 1, 2, 15]) if q is None else q)
    b.set(r, q_fp=r.q + b.real('floating part of Q', -0.5, 0.5), use_query_adjust=False, adjust_delta=b.real('step of Q', 0, 1))
    b.set(r, max_power=b.real('max power', 0, 40), read_tid_bank=b.choice('read TID', [True, False][:2 if all_settings or not b.symbolic else 1]), read_tid_words_num=b.int('TID words', 1, 255))
    return r


def stir(b, m):
    """what the case at hand does not depend on is arbitrary"""
    m.max_tags_num = b.int('tags to simulate', 1, 50); m.num_tags_simulated = b.int('tags simulated', 0, 50); m.update_interval = b.real('update interval', 0.001, 1)
    m.statistics.num_tags_created = b.int('tags created', 0, 100); m.statistics.slot_end_listener_id = None


def tag_frame(kind, rn=0):
    reply = {'rn16': lambda: std.QueryReply(rn), 'epc': lambda: std.AckReply('AA0102'), 'handle': lambda: std.ReqRNReply(rn), 'data': lambda: std.ReadReply('01020304', rn)}[kind]()
    return std.TagFrame(std.create_tag_preamble(std.TagEncoding.FM0, False), reply)


def frame_ok(b, r, f, kind, name=''):
    """the frame carries a command of that kind, with the right preamble and the settings of the reader"""
    n = name + ': ' if name else ''
    b.ensure(f'{n}sends {kind.__name__}', isinstance(f, std.ReaderFrame) and isinstance(f.command, kind))
    c = f.command
    pre = r.delim + r.tari + r.rtcal + (r.trcal if kind is std.Query else 0)
    b.ensure(f'{n}{kind.__name__} has ' + ('the full preamble' if kind is std.Query else 'frame-sync only'), b.eq(get(b, f, 'preamble_duration'), pre))
    b.ensure(f'{n}Tari and RTcal of the reader', b.And(b.eq(f.preamble.tari, r.tari), b.eq(f.preamble.rtcal, r.rtcal), b.eq(f.preamble.delim, r.delim)))
    if kind is std.Query:
        b.ensure(f'{n}Query carries the settings of the reader', b.And(c.dr is r.dr, c.m is r.tag_encoding, bool(c.trext) == r.trext, c.sel is r.sel, c.session is r.session, c.target is r.target, b.eq(c.q, r.q)))
    if kind in (std.QueryRep, std.QueryAdjust): b.ensure(f'{n}session of the reader', c.session is r.session)
    return c


def timeout_ok(b, r, f, name=''):
    """the waiting time is that of the command sent plus T1 max plus T3"""
    t1 = b.ensure_ok(b.call(std.link_t1_max, r.rtcal, r.trcal, r.dr, r.temp)); t3 = b.ensure_ok(b.call(std.link_t3))
    got = b.ensure_ok(b.call(r.state.get_timeout, r), name + ': the waiting time can be computed')
    b.ensure(f'{name}: waits for the command sent + T1 max + T3', b.eq(got, get(b, f, 'duration') + t1 + t3))
