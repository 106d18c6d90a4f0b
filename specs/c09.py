"""C09 A tag powers up and down at its sensitivity and keeps session flags as specified."""
from pyvc.runner import case
import pysim.models.rfid.objects as ob
import pysim.models.rfid.epcstd as std
from specs.tagkit import *

ASSUME = ['field names of Tag (_state, _active_session, _powered_off_time, ...) as in the code for the one-step cases; the history cases use only setup, set_power, receive and public properties',
          'times given to set_power never decrease']


def commands(ses=std.Session.S1):
    return [std.Query(std.DivideRatio.DR_8, std.TagEncoding.FM0, False, std.SelFlag.ALL, ses, A, 0, 0), std.QueryRep(ses), std.QueryAdjust(ses, 0),
            std.Ack(0), std.ReqRN(0, 0), std.Read(std.MemoryBank.TID, 0, 4, 0, 0)]


def is_off(b, t, name):
    b.ensure(f'{name}: off', t.state is ST.OFF)
    b.ensure(f'{name}: no power', t.power is None and b.ensure_ok(b.call(getattr, t, 'tx_power')) is None)


@case('C09', 'a tag in any powered state', samples=300, shards=4)
def powered(b):
    t, k, st = any_tag(b, ['READY'] + INROUND)
    t.sensitivity = b.real('sensitivity', -30, 0)
    before = snapshot(t)
    now = b.real('now', 1000, 2000)
    p = b.real('new power', -40, 10) if b.choice('powered', [True, False]) else None
    b.ensure_ok(b.call(t.set_power, now, p))
    after = snapshot(t)
    low = True if p is None else p < t.sensitivity
    b.ensure('off exactly when power is absent or below the sensitivity', b.Or(b.And(low, t.state is ST.OFF), b.And(b.Not(low), t.state is before['state'])))
    b.ensure('flags kept', all(before['flags'][s] is after['flags'][s] for s in SES))
    if t.state is ST.OFF:
        is_off(b, t, 'off'); b.ensure('no active session', after['active'] is None)
    else:
        b.ensure('power recorded', b.eq(t.power, p))
        b.ensure('nothing else changes', same(b, before, after, 'power'))
        b.ensure('transmit power', b.eq(b.ensure_ok(b.call(getattr, t, 'tx_power')), p + b.num(t.modulation_loss)))


@case('C09', 'an unpowered tag with any stored flags', samples=400, shards=4)
def unpowered(b):
    weak = b.choice('weak updates before', [0, 1] if b.symbolic else [0, 1, 2])
    t, k, st = any_tag(b, ['OFF'], flags='some' if weak else 'stored')
    t.sensitivity = b.real('sensitivity', -30, 0)
    t.s1_persistence, t.s2_persistence, t.s3_persistence = (b.real(f'persistence{i}', 0, 1000) for i in (1, 2, 3))
    stored = flags_of(t); off = t._powered_off_time; sl = t.sl
    now = off
    for i in range(weak):
        now = now + b.real(f'weak{i}', 0, 500)
        b.ensure_ok(b.call(t.set_power, now, None if i else b.choice('weak', [None, t.sensitivity])))
        is_off(b, t, 'after a weak update'); b.ensure('weak update keeps the flags', all(t.sessions[s] is stored[s] for s in SES))
    now = now + b.real('unpowered for', 0, 1000)
    p = b.real('new power', -40, 10) if b.choice('powered', [True, False]) else None
    b.ensure_ok(b.call(t.set_power, now, p))
    high = False if p is None else p > t.sensitivity
    b.ensure('on exactly when the power exceeds the sensitivity', b.Or(b.And(high, t.state is ST.READY), b.And(b.Not(high), t.state is ST.OFF)))
    if t.state is ST.OFF:
        is_off(b, t, 'still off'); b.ensure('flags kept while off', all(t.sessions[s] is stored[s] for s in SES)); return
    b.ensure('power recorded', b.eq(t.power, p)); b.ensure('SL kept', t.sl is sl)
    b.ensure('S0 becomes A', t.sessions[SES[0]] is A)
    for i in (1, 2, 3):
        per = (t.s1_persistence, t.s2_persistence, t.s3_persistence)[i - 1]
        want = stored[SES[i]] if stored[SES[i]] is not None else A
        got = t.sessions[SES[i]]
        gap = now - off
        b.ensure(f'S{i} kept within its persistence, else A', b.Or(b.And(gap <= per, got is want), b.And(gap > per, got is A)))
    b.ensure('named flags', t.s0 is t.sessions[SES[0]] and t.s1 is t.sessions[SES[1]] and t.s2 is t.sessions[SES[2]] and t.s3 is t.sessions[SES[3]])


@case('C09', 'a tag that is off ignores every command', samples=100)
def silent(b):
    t, k, st = any_tag(b, ['OFF'])
    before = snapshot(t)
    cmd = b.choice('command', commands(b.choice('session', SES)))
    out = b.ensure_ok(b.call(t.receive, frame(cmd)))
    b.ensure('no answer', out is None)
    b.ensure('nothing changes', same(b, before, snapshot(t)))


@case('C09', 'power history through the public interface: setup, on, off, on', samples=400, shards=4)
def history(b):
    t, k = new_tag(b)
    t.sensitivity = b.real('sensitivity', -30, 0)
    t.s1_persistence, t.s2_persistence, t.s3_persistence = (b.real(f'persistence{i}', 0, 5) for i in (1, 2, 3))
    now = b.real('t0', 0, 100)
    b.ensure_ok(b.call(t.setup, now, False)); is_off(b, t, 'after setup')
    b.ensure('all flags A', all(f is A for f in flags_of(t).values()))
    off_since = now; on = False; model = {s: A for s in SES}
    for i in range(4 if b.symbolic else 7):
        now = now + b.real(f'dt{i}', 0, 10)
        p = b.real(f'p{i}', -40, 10) if i == 0 or b.choice(f'power{i}', [True, False]) else None
        b.ensure_ok(b.call(t.set_power, now, p))
        if not on:
            up = False if p is None else p > t.sensitivity
            if t.state is not ST.OFF:
                b.ensure('turned on only above the sensitivity', up)
                on = True; gap = now - off_since
                for s, per in zip(SES, (None, t.s1_persistence, t.s2_persistence, t.s3_persistence)):
                    got = t.sessions[s]
                    if per is None: b.ensure('S0 becomes A', got is A)
                    elif model[s] is A: b.ensure('A stays A', got is A)
                    else: b.ensure('flag kept exactly within its persistence', b.Or(b.And(gap <= per, got is B), b.And(gap > per, got is A)))
                for j, s in enumerate(SES):
                    model[s] = b.choice(f'set{i}', [A, B]) if j == 2 else B
                    t.sessions[s] = model[s]
            else: b.ensure('stays off at or below the sensitivity', b.Not(up))
        else:
            down = True if p is None else p < t.sensitivity
            if t.state is ST.OFF:
                b.ensure('turned off only below the sensitivity', down); on = False; off_since = now
                is_off(b, t, 'history')
                b.ensure('silent', all(b.ensure_ok(b.call(t.receive, frame(c))) is None for c in commands()))
            else: b.ensure('stays on at or above the sensitivity', b.Not(down)); b.ensure('power', b.eq(t.power, p))


@case('C09', 'setup puts a fresh tag into READY or OFF with all flags A', samples=40)
def setup(b):
    t, k = new_tag(b); on = b.choice('on', [True, False, None])
    now = b.real('t', 0, 100)
    b.ensure_ok(b.call(t.setup, now) if on is None else b.call(t.setup, now, on))
    b.ensure('state', t.state is (ST.READY if on else ST.OFF))
    b.ensure('flags', all(f is A for f in flags_of(t).values()) and t.sl is False)
    b.ensure('counters', b.And(b.eq(t.rn, 0), b.eq(t.slot_counter, 0)))


@case('C09', 'flag at power-on per session', samples=100)
def power_on_value(b):
    s = b.choice('session', SES); st = b.choice('stored', [None, A, B])
    gap, per = b.real('gap', 0, 100), b.real('per', 0, 100)
    r = b.ensure_ok(b.call(s.power_on_value, gap, None if s is SES[0] else per, st))
    if s is SES[0]: b.ensure('S0', r is A)
    else: b.ensure('kept or A', b.Or(b.And(gap <= per, r is (st or A)), b.And(gap > per, r is A)))


@case('C09', 'the power of one tag is nothing to another', samples=300)
def bystander(b):
    (t, k), (o, ko) = new_tag(b), new_tag(b)
    for x in (t, o): b.ensure_ok(b.call(x.setup, 0.0, True)); b.ensure_ok(b.call(x.set_power, 0.0, -5.0))
    for x in SES: o.sessions[x] = b.choice('flags of the other one', [A, B])
    for s in ('s1_persistence', 's2_persistence', 's3_persistence'): setattr(t, s, b.real(s, 0.1, 5)); setattr(o, s, b.real(s, 0.1, 5))
    if b.choice('the other one is off', [False, True]): b.ensure_ok(b.call(o.set_power, 1.0, None))
    before, stored = snapshot(o), dict(o.sessions)
    now = 1.0
    for i in range(b.choice('outages', [1] if b.symbolic else [1, 2, 4])):
        for p in (None, -4.0):
            now = now + b.real('later', 0, 6); b.ensure_ok(b.call(t.set_power, now, p))
            b.ensure('the other tag is as it was', b.And(same(b, before, snapshot(o)), all(o.sessions[x] is stored[x] for x in stored)))
