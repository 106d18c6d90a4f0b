"""Tags in arbitrary states, for C09-C11 and C18."""
import types
from pyvc.models import Log
import pysim.models.rfid.objects as ob
import pysim.models.rfid.epcstd as std

A, B = std.InventoryFlag.A, std.InventoryFlag.B
SES = [std.Session.S0, std.Session.S1, std.Session.S2, std.Session.S3]
ST = ob.Tag.State
INROUND = ['ARBITRATE', 'REPLY', 'ACKNOWLEDGED', 'SECURED']


class Record:
    def __init__(self): self.num_qadjust_attained = 0; self.num_rounds_attained = 0


class Stats:
    pyvc_model = True
    def __init__(self): self.records = {}
    def get_tag_record(self, tag): return self.records.setdefault(id(tag), Record())
    get_tag_record.pyvc_model = True


class Kernel:
    def __init__(self):
        self.logger = Log(); self.context = types.SimpleNamespace(statistics=Stats(), tags=[]); self.time = 0.0


def flags_of(tag): return {s: tag.sessions[s] for s in SES}


def snapshot(tag):
    return dict(state=tag.state, flags=flags_of(tag), slot=tag.slot_counter, rn=tag.rn, sl=tag.sl, q=tag.q, power=tag.power,
                active=tag._active_session, pre=tag._preamble, blf=tag.blf, enc=tag.encoding, trext=tag.trext, epc=tag.epc)


def same(b, x, y, *but):
    cs = []
    for k in x:
        if k in but: continue
        if k in ('slot', 'rn', 'q', 'power', 'blf'): cs.append(b.eq(x[k], y[k]))
        elif k == 'flags': cs.append(all(x[k][s] is y[k][s] for s in SES))
        elif k == 'epc': cs.append(x[k] == y[k])
        else: cs.append(x[k] is y[k])
    return b.And(*cs)


def new_tag(b):
    k = Kernel()
    t = b.ensure_ok(b.call(ob.Tag, 7, k))
    t.epc = 'AABBCCDDEEFF001122334455'; t.tid = '0011223344556677'; t.user_mem = '0123456789ABCDEF' 
    t.antenna.pos = [0., 0., 0.]
    return t, k


def any_tag(b, states=('OFF', 'READY') + tuple(INROUND), actives=None, flags='some', enc=None):
    """a tag in any reachable state: in a round <=> it has an active session, REPLY and beyond <=> slot 0"""
    t, k = new_tag(b)
    st = b.choice('state', list(states))
    if flags == 'all':
        fl = {s: b.choice(f'flag{i}', [A, B]) for i, s in enumerate(SES)}
    else:
        pat = b.choice('flags', [(A, A, A, A), (B, B, B, B), (A, B, A, B), (B, A, B, A)]); fl = dict(zip(SES, pat))
    b.need(t, 'sessions', '_state', '_slot_counter', '_rn', '_active_session', '_preamble', '_sl', '_power', '_blf', '_encoding', '_trext')
    if st == 'OFF':
        b.set(t, _state=ST.OFF, _powered_on_time=None, _powered_off_time=b.real('off since', 0, 1000), _active_session=None, _preamble=None)
        t.sessions = {s: b.choice(f'stored{i}', [None, A, B]) for i, s in enumerate(SES)} if flags == 'stored' else dict(fl)
        b.set(t, _sl=b.choice('sl', [True, False]))
        return t, k, st
    t.sessions = dict(fl)
    acts = list(actives if actives is not None else SES)
    act = b.choice('active session', acts + ([None] if st == 'READY' and actives is None else []))
    enc = enc or b.choice('encoding', [std.TagEncoding.FM0, std.TagEncoding.M4])
    b.set(t, _state=ST[st], _powered_on_time=b.real('on since', 0, 1000), _powered_off_time=None, _power=b.real('power', -30, 0),
          _active_session=act, _sl=b.choice('sl', [True, False]), _rn=b.int('rn', 0, 65535),
          _slot_counter=b.int('slot', -5, 32767) if st in ('READY', 'ARBITRATE') else 0,
          _preamble=std.create_tag_preamble(enc, True) if act is not None else None, _encoding=enc, _trext=True,
          _blf=b.real('blf', 40e3, 640e3))
    t.q = b.int('tag q', 0, 15) if act is not None else None
    return t, k, st


def frame(cmd, trcal=None):
    pre = std.ReaderPreamble(6.25e-6, 18e-6, trcal if trcal is not None else 36e-6, 12.5e-6) if isinstance(cmd, std.Query) else std.ReaderSync(6.25e-6, 18e-6, 12.5e-6)
    return std.ReaderFrame(pre, cmd)


def reply_is(b, out, kind, tag, pre=None):
    """clauses for a tag frame of the given kind with the tag's round preamble"""
    if out is None: return False
    return isinstance(out, std.TagFrame) and isinstance(out.reply, kind)


def pre_ok(b, out, enc, trext):
    return out.preamble.encoding is enc and bool(out.preamble.extended) == trext


def drew(b, lo, hi, v, since=0):
    """v is (one of) the value(s) drawn uniformly from lo..hi"""
    return b.Or(*[b.And(b.eq(d[1][0], lo), b.eq(d[1][1], hi), b.eq(d[2], v)) for d in list(b.draws)[since:] if d[0] == 'randint'])
