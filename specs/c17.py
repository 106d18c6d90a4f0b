"""C17 Tags enter, live and leave as configured, each with its own identity."""
import ast, itertools
import numpy as np
from pyvc.runner import case
from pyvc.sym import Unsupported
from specs.readerkit import *
from specs.handlerkit import *
from specs.c16 import world, nxt, fire, switch_on, TagStub, MediumStub, transaction_pending

ASSUME = ['kernel under its contract (C01-C04)', 'speed is positive', 'configured EPC and TID lengths are multiples of 4 bits and longer than the prefix',
          'identities are claimed to be distinct as long as the digits after the prefix have not run out']


# ------------------------------------------------------------- numbering
class Digits:
    """contract domain for hexadecimal strings: a value and a number of digits"""
    pyvc_model = True; pyvc_str = True; __hash__ = None
    def __init__(self, b, val, n, cut=None): self.b, self.val, self.n, self.cut = b, val, n, cut
    def pyvc_len(self): return self.n

    # only a digit string under a loop contract can be taken apart, at the position the invariant speaks about
    def split(self, k):
        if self.cut is None or not self.b.p.decide(_z(self.b.eq(k, self.cut['pos']))): raise Unsupported('digit of a string at an unknown position')
        c = self.cut
        if 'rest' not in c:
            b = self.b; c['rest'] = b.int('leading digits', 0); c['digit'] = b.int('digit', 0, 15)
            b.assume(b.eq(c['head'], c['rest'] * 16 + c['digit'])); b.assume(b.Implies(b.eq(c['pos'], 0), b.eq(c['rest'], 0)))
        return c
    def pyvc_getitem(self, k): return Digits(self.b, self.split(k)['digit'], 1)
    def pyvc_slice(self, lo, hi, step):
        if lo is not None or step is not None: raise Unsupported('slice of a digit string')
        return Digits(self.b, self.split(hi)['rest'], hi)
    def pyvc_int(self, base):
        if base != 16: raise Unsupported('other base')
        return self.val
    def __add__(self, o):
        b = self.b
        if isinstance(o, str): o = Digits(b, int(o, 16) if o else 0, len(o))
        if not isinstance(o, Digits): raise Unsupported('concatenation')
        return Digits(b, self.val * pow16(b, o.n) + o.val, self.n + o.n)
    def __radd__(self, o): return Digits(self.b, int(o, 16) if o else 0, len(o)) + self


def _b(x):
    import z3
    return z3.BoolVal(x)


def pow16(b, n):
    from pyvc import sym as S
    if not isinstance(n, S.Sym): return 16 ** n
    return S.Sym(S.uf('pow16', 'i', 'i')(n.z))


class Domain:
    def __init__(self, b): self.b = b
    def fmt(self, x, spec):
        from pyvc.sym import Sym
        if spec in ('X', '1X', '01X') and isinstance(x, Sym):
            if not self.b.p.decide(self.b.And(self.b.le(0, x), self.b.le(x, 15)).z): raise Unsupported('more than one digit')
            return Digits(self.b, x, 1)
    def repeat(self, s, n):
        if s != '0': raise Unsupported('repetition')
        return Digits(self.b, 0, n)


class CarryLoop:
    """every digit after the position is F; the position is a variable of a while loop or runs through a descending range"""
    def __init__(self, b, s): self.b, self.s = b, s
    def fits(self, I, s, env): return isinstance(s, ast.While) or isinstance(s.target, ast.Name)
    def enter(self, st):
        from pyvc.models import SymDown
        b, s = self.b, self.s; self.var = None
        if hasattr(st, 'iter'):
            if not isinstance(st.iter, SymDown): raise Unsupported('loop over something else than descending positions')
            p = st.iter.hi; b.ensure('the positions end with the first digit', b.eq(st.iter.lo, -1), False)
        else:
            for v in st.assigned:
                x = st.locals.get(v)
                if not isinstance(x, str) and hasattr(x, 'z') and b.p.decide(_z(b.eq(x, s.n - 1))): self.var = v
            if self.var is None: raise Unsupported('no variable holds the position of the last digit')
            p = st.locals[self.var]
        st.g['pos'] = p
        b.ensure('the carry starts at the last digit', b.eq(p, s.n - 1), False)
        s.cut = dict(pos=p, head=s.val)
    def pos(self, st): return st.g['pos'] if self.var is None else st.locals[self.var]
    def invariant(self, st):
        b, s = self.b, self.s; p = self.pos(st); c = s.cut
        # when the body has moved one digit to the left the head is what stood before that digit
        head = c['head'] if 'rest' not in c else c['rest']
        if 'rest' in c: b.assume(b.eq(pow16(b, s.n - 1 - p), pow16(b, s.n - 2 - p) * 16))
        P = pow16(b, s.n - 1 - p)
        return [('position within the string', b.And(b.le(-1, p), b.lt(p, s.n))), ('the digits after it are all F', b.eq(s.val, head * P + P - 1)), ('head is not negative', b.le(0, head)),
                ('no digits before the first', b.Implies(b.eq(p, -1), b.eq(head, 0)))]
    def havoc(self, st):
        b, s = self.b, self.s; p = b.int('pos', -1); st.g['pos'] = p
        if self.var is not None: st.locals[self.var] = p
        s.cut = dict(pos=p, head=b.int('head', 0)); b.assume(b.le(1, pow16(b, s.n - 1 - p)))
    def step(self, st):
        i = st.g['pos']
        if not st.interp.truth(i >= 0): return None
        st.g['pos'] = i - 1
        return (i,)


def _z(x): return x.z if hasattr(x, 'z') else _b(x)


@case('C17', 'inc_hex_string: the next number with the same number of digits, for digit strings of any length', mode='sym')
def increment(b):
    n = b.int('digits', 0); v = b.int('value', 0)
    s = Digits(b, v, n); b.interp.str_domain = Domain(b)
    b.assume(b.eq(pow16(b, n - n), 1)); b.assume(b.eq(pow16(b, b.num(0) + (n - n)), 1))
    from pyvc import sym as S
    import z3
    b.assume(S.Sym(S.uf('pow16', 'i', 'i')(z3.IntVal(0)) == 1))
    b.assume(b.lt(v, pow16(b, n))); b.assume(b.Implies(b.eq(n, 0), b.eq(v, 0)))
    b.loop('*', None, CarryLoop(b, s))
    out = b.ensure_ok(b.call(ob.inc_hex_string, s))
    if not isinstance(out, Digits): raise Unsupported('result outside the digit domain')
    b.ensure('same number of digits', b.eq(out.n, n))
    b.ensure('the next number, or 0 after the last', b.Or(b.eq(out.val, v + 1), b.And(b.eq(v + 1, pow16(b, n)), b.eq(out.val, 0))))


@case('C17', 'inc_hex_string on digit strings', mode='native', samples=3000, bound='3000 strings of up to 12 digits')
def increment_n(b):
    n = b.int('digits', 1, 12); v = b.int('value', 0, 16 ** n - 1)
    if b.choice('carries', [False, True]): v |= 16 ** b.int('carry', 0, n) - 1
    b.ensure('the next number with the same number of digits', b.ensure_ok(b.call(ob.inc_hex_string, f'{v:0{n}X}')) == f'{(v + 1) % 16 ** n:0{n}X}')


# ------------------------------------------------------------- tags of a generator
def counts(r): return r.choice([r.randrange(1, 6), r.randrange(1, 50), r.randrange(1, 50), r.randrange(90, 2000), r.choice([100, 101, 255, 256, 1000, 1001, 65535, 65536, 10 ** 6, 10 ** 9])])


def model(b, tags=0):
    k = HKernel(b); m = ob.Model(); k.context = m; m.medium = MediumStub(b); m.medium.ber = 0; m.statistics.use_power_statistics = False
    r = new_reader(b, q=2, all_settings=False); r.kernel = k; m.reader = r; stir(b, m)
    b.set(r, power_on_duration=b.real('on time', 0.001, 10), power_off_duration=b.real('off time', 0.001, 10))
    a = ob.Antenna(); a.pos = [0., 0., 5.]; r.attach_antenna(a)
    return k, m, r


def generator(b, m):
    g = ob.Generator(); m.generators = [g]
    b.need(g, 'pos0', 'velocity', 'direction', 'tag_antenna_direction', 'travel_distance', 'epc_bitlen', 'tid_bitlen', 'epc_prefix', 'tid_prefix', 'max_tags_generated', 'num_tags_generated', 'antenna_gain', 'cable_loss', 'modulation_loss', 'sensitivity')
    vec = (lambda n: np.array([b.real(f'{n}{i}', -20, 20) for i in range(3)], dtype=object)) if b.symbolic else (lambda n: np.array([b.real(f'{n}{i}', -20, 20) for i in range(3)]))
    pre = b.choice('prefixes', [('AAAA', 'AAAA', 96, 64), ('', 'E2', 16, 1024), ('BC', '', 12, 96)])
    b.set(g, pos0=vec('pos0'), velocity=b.real('speed', 0.1, 100), direction=b.choice('direction', [np.array([0, 1, 0]), np.array([3.0, 0.0, 4.0])]), tag_antenna_direction=np.array([0., 0., 1.]),
          travel_distance=b.real('travel distance', 0.1, 100), epc_prefix=pre[0], tid_prefix=pre[1], epc_bitlen=pre[2], tid_bitlen=pre[3], antenna_gain=b.real('tag gain', -5, 10),
          cable_loss=b.real('tag cable loss', -5, 0), modulation_loss=b.real('modulation loss', -30, 0), sensitivity=b.real('sensitivity', -40, 0))
    iv = b.real('generation interval', 0.001, 10)
    def interval(x): return x
    interval.pyvc_model = True
    g.set_interval(interval, iv)
    return g, iv


def check_tag(b, g, t):
    b.ensure('starts at the position of the generator', b.eq(list(t.antenna.pos), list(g.pos0)))
    b.ensure('its own copy of the position', t.antenna.pos is not g.pos0)
    b.ensure('motion of the generator', b.And(b.eq(t.velocity, g.velocity), b.eq(list(t.direction), list(g.direction))))
    b.ensure('antenna of the generator', b.And(b.eq(t.antenna.gain, g.antenna_gain), b.eq(t.antenna.cable_loss, g.cable_loss), b.eq(list(t.antenna.direction_theta), list(g.tag_antenna_direction))))
    b.ensure('radio settings of the generator', b.And(b.eq(t.sensitivity, g.sensitivity), b.eq(t.modulation_loss, g.modulation_loss)))
    for kind, v, prefix, bits in (('EPC', t.epc, g.epc_prefix, g.epc_bitlen), ('TID', t.tid, g.tid_prefix, g.tid_bitlen)):
        b.ensure(f'{kind} of the configured length', len(v) * 4 == bits)
        b.ensure(f'{kind} with the configured prefix', v.startswith(prefix) and all(c in '0123456789ABCDEF' for c in v))


@case('C17', 'generating a tag', samples=400)
def generate(b):
    k, m, r = model(b)
    r._power = r.max_power if b.choice('reader is on', [True, False]) else None
    g, iv = generator(b, m)
    made = b.int('generated so far', 0, gen=counts); limit = b.int('limit', -3, gen=counts)
    b.set(g, num_tags_generated=made, max_tags_generated=limit); m.statistics.num_tags_created = made
    b.ensure_ok(b.call(hd.generate_tag, k, g))
    if not m.tags:
        b.ensure('none only when the limit is reached', b.And(b.le(0, limit), b.le(limit, made)))
        b.ensure('then nothing changes', b.And(b.eq(g.num_tags_generated, made), not k.scheduled)); return
    b.ensure('none beyond the limit', b.Or(b.lt(limit, 0), b.lt(made, limit)))
    b.ensure('one tag', len(m.tags) == 1)
    t = m.tags[0]
    check_tag(b, g, t)
    b.ensure('counted', b.And(b.eq(g.num_tags_generated, made + 1), b.eq(m.statistics.num_tags_created, made + 1)))
    b.ensure('it has a record', m.statistics.get_tag_record(t) is not None and m.statistics.get_tag_record(t).tag is t)
    gone = k.pending(hd.remove_tag); more = k.pending(hd.generate_tag)
    b.ensure('its departure is pending', len(gone) == 1 and gone[0][3] == (t,))
    b.ensure('after its lifetime: distance / speed', b.eq(gone[0][1] * g.velocity, g.travel_distance))
    b.ensure('the next tag is pending', len(more) == 1 and more[0][3] == (g,))
    b.ensure('after the generation interval', b.eq(more[0][1], iv))
    b.ensure('nothing else is pending', len(k.scheduled) == 2)


@case('C17', 'tags generated one after another have their own identities', samples=120)
def identities(b):
    k, m, r = model(b)
    g, iv = generator(b, m)
    g2 = None
    n = b.choice('tags', [4] if b.symbolic else [4, 16, 40, 200]); room = lambda bits, prefix: 16 ** (bits // 4 - len(prefix))
    b.set(g, max_tags_generated=-1)
    for i in range(n): b.ensure_ok(b.call(hd.generate_tag, k, g))
    b.ensure('as many as were generated', len(m.tags) == n)
    for t in m.tags: check_tag(b, g, t)
    b.ensure('identifiers are distinct', len({t.tag_id for t in m.tags}) == n)
    b.ensure('EPCs are distinct', len({t.epc for t in m.tags}) == min(n, room(g.epc_bitlen, g.epc_prefix)))
    b.ensure('TIDs are distinct', len({t.tid for t in m.tags}) == min(n, room(g.tid_bitlen, g.tid_prefix)))
    b.ensure('nothing is shared', len({id(t.antenna) for t in m.tags}) == n and len({id(t.antenna.pos) for t in m.tags}) == n)


@case('C17', 'the next identity follows the last one, after any number of tags', mode='sym')
def identity_step(b):
    k, m, r = model(b); g, iv = generator(b, m)
    made = b.int('generated so far', 1)
    e, t = Digits(b, b.int('EPC suffix', 0), b.int('EPC digits', 1)), Digits(b, b.int('TID suffix', 0), b.int('TID digits', 1))
    b.need(g, '_epc_suffix', '_tid_suffix'); b.set(g, _epc_suffix=e, _tid_suffix=t, num_tags_generated=made)
    b.interp.str_domain = Domain(b)
    nxt_of = {}
    def inc(s):
        nxt_of[id(s)] = Digits(b, b.int('next', 0), s.n)
        return nxt_of[id(s)]
    b.stub(ob, 'inc_hex_string', inc)
    tag = b.ensure_ok(b.call(g.create_tag, m))
    b.ensure('the tag gets the suffix that was next', b.And(*[isinstance(x, Digits) and b.And(b.eq(x.n, len(p) + y.n), b.eq(x.val, (int(p, 16) if p else 0) * pow16(b, y.n) + y.val)) for x, p, y in ((tag.epc, g.epc_prefix, e), (tag.tid, g.tid_prefix, t))]), False)
    b.ensure('the next one follows it', g._epc_suffix is nxt_of.get(id(e)) and g._tid_suffix is nxt_of.get(id(t)) and len(nxt_of) == 2, False)


# ------------------------------------------------------------- departure
@case('C17', 'a tag leaves: removed, counted, its record moves to the history, the run stops at the configured number', samples=300)
def leave(b):
    k, m, r = model(b)
    m.tags = [TagStub(b, i, False) for i in range(b.choice('tags', [1, 2, 3]))]
    for t in m.tags: b.ensure_ok(b.call(m.statistics.create_tag_record, t))
    before = list(m.tags); recs = [m.statistics.get_tag_record(t) for t in before]
    gone = b.int('left so far', 0, gen=counts); limit = b.int('number of tags', 1, gen=counts) if b.choice('limited', [True, False]) else None
    b.need(m, 'num_tags_simulated', 'max_tags_num'); b.set(m, num_tags_simulated=gone, max_tags_num=limit)
    i = b.choice('who', list(range(len(before))))
    b.ensure_ok(b.call(hd.remove_tag, k, before[i]))
    b.ensure('it is gone, the others stay', m.tags == before[:i] + before[i + 1:])
    b.ensure('counted', b.eq(m.num_tags_simulated, gone + 1))
    b.ensure('its record is in the history', len(m.statistics.tags_history) == 1 and m.statistics.tags_history[0] is recs[i])
    b.ensure('the others keep theirs', [m.statistics.get_tag_record(t) for t in m.tags] == recs[:i] + recs[i + 1:])
    if k.stopped: b.ensure('stops only at the configured number', limit is not None and b.le(limit, gone + 1))
    else: b.ensure('goes on only below the configured number', limit is None or b.lt(gone + 1, limit))


@case('C17', 'a tag leaves in the middle of a transaction or slot: the run goes on, and what was read is kept', samples=600, shards=4)
def leave_midway(b):
    k, m, r, mode = world(b, answering=1, silent=0)
    m.medium.ber = 0; r.use_query_adjust = False
    b.set(r, read_tid_bank=b.choice('reads TIDs', [True, False]), tari=b.num(6.25e-6), rtcal=b.num(18.75e-6), trcal=b.num(37.5e-6), delim=b.num(12.5e-6), read_tid_words_num=4)
    switch_on(b, k, m, r)
    t = m.tags[0]; read = tids = 0
    def step():
        nonlocal read, tids
        cmd = get(b, m.transaction, 'command').command; hears = len(get(b, m.transaction, 'replies')) == 1
        nxt(b, k, m, r, 'next')
        read += isinstance(cmd, std.Ack) and hears; tids += isinstance(cmd, std.Read) and hears
    for i in range(b.choice('transactions before', [0, 1, 2, 3, 4, 5])): step()
    b.ensure_ok(b.call(hd.remove_tag, k, t))
    rec = m.statistics.tags_history[-1]
    b.ensure('its record is in the history', rec.tag is t)
    b.ensure('with what was read so far', len(rec.inventory_history) == read)
    if mode != 'ALWAYS_ON' and b.choice('the reader is switched off', [True, False]):
        o = k.pending(hd.turn_reader_off)[0]; fire(k, o)
        b.ensure_ok(b.call(hd.turn_reader_off, k, r))
        onev = k.pending(hd.turn_reader_on)[0]; fire(k, onev)
        b.ensure_ok(b.call(hd.turn_reader_on, k, r))
    for i in range(2): step()
    b.ensure('what was read is kept, and every reply that arrived afterwards too', len(rec.inventory_history) == read)
    b.ensure('a TID that arrived is kept', any(x.read_tid for x in rec.inventory_history) == (tids > 0))
    b.ensure('it is in the history once', [x.tag for x in m.statistics.tags_history] == [t])


@case('C17', 'the start of a simulation', samples=60)
def start(b):
    k, m, r = model(b)
    m.update_interval = b.real('update interval', 0.001, 1)
    n = b.choice('generators', [0, 1, 2, 3]); ivs = [b.real('interval', 0.001, 10) for _ in range(n)]
    m.generators = []
    def interval(x): return x
    interval.pyvc_model = True
    for i in range(n):
        g = ob.Generator(); g.set_interval(interval, ivs[i]); m.generators.append(g)
    b.ensure_ok(b.call(hd.start_simulation, k))
    gs = k.pending(hd.generate_tag)
    b.ensure('the first tag of every generator after its interval', b.And([s[3] for s in gs] == [(g,) for g in m.generators], *[b.eq(s[1], iv) for s, iv in zip(gs, ivs)]))


@case('C17', 'whole runs: tags enter and leave on time', mode='native', samples=12, thorough=400, budget=40, shards=4, bound='12 runs of up to 0.6 s model time with random settings (400 in the thorough tier)', randomize=False)
def runs(b):
    from specs import e2e
    st, gap = e2e.settings(b, speed=40.0, travel_distance=b.choice('travel', [0.4, 1.3, 4.0]))
    m = e2e.cf.create_model(st); bad = []; born = {}; left = []; s = dict(next=gap)
    life = st.travel_distance / st.speed

    def before(k, name, a):
        s['tags'] = list(m.tags)
        if name == 'remove_tag':
            if not e2e.near(k.time, born[a[0]] + life): bad.append(f'tag left at {k.time}, entered at {born[a[0]]}')
        if name == 'generate_tag' and not e2e.near(k.time, s['next']): bad.append(f'generation at {k.time}, expected {s["next"]}')

    def after(k, name, a):
        new = [t for t in m.tags if t not in s['tags']]; gone = [t for t in s['tags'] if t not in m.tags]
        if name == 'generate_tag':
            if len(born) < st.num_tags:
                if len(new) != 1: bad.append(f'{len(new)} tags generated')
                else:
                    born[new[0]] = k.time; s['next'] = k.time + gap
            elif new: bad.append('more tags than configured')
        elif new: bad.append(f'{name} added a tag')
        if name == 'remove_tag':
            left.append(a[0])
            if gone != [a[0]]: bad.append('another tag removed')
        elif gone: bad.append(f'{name} removed a tag')
    run = e2e.Run(m, before, after).go(0.6)
    b.trace += bad[:3] + ([run.error] if run.error else [])
    b.ensure('tags enter and leave on time', not bad)
    b.ensure('the run does not break', run.error is None)
    if run.error: return
    b.ensure('EPCs and TIDs are distinct', len({t.epc for t in born}) == len(born))
    b.ensure('no more than the configured number left', len(left) <= st.num_tags)
    b.ensure('the run goes on until the configured number has left', len(left) == st.num_tags or run.trace[-1][0] > 0.6 - st.update_interval - 1e-6)
