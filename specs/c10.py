"""C10 Tags take part in inventory rounds as Gen2 prescribes."""
from pyvc.runner import case
import pysim.models.rfid.objects as ob
import pysim.models.rfid.epcstd as std
from specs.tagkit import *
from specs.c07 import val, dr_value

ASSUME = ['invariant of tag states: a tag in a round has an active session and a reply preamble, and its slot is 0 in REPLY, ACKNOWLEDGED and SECURED (kept by every command, C10/C11)',
          'numpy/random uniform integer draws are uniform over the bounds they are given']
ENC = [std.TagEncoding.FM0, std.TagEncoding.M2, std.TagEncoding.M4, std.TagEncoding.M8]


def inv(f): return B if f is A else A


def draw_or_zero(b, q, v, since):
    if q == 0: return b.eq(v, 0)
    return drew(b, 0, 2 ** q - 1, v, since)


def answer(b, t, out, since, slot, enc, trext, name):
    """the reply clauses of a participating tag whose slot is `slot` after the command"""
    zero = b.eq(slot, 0)
    if out is None:
        b.ensure(f'{name}: silent only when the slot is not 0', b.Not(zero))
        b.ensure(f'{name}: waits in ARBITRATE', t.state is ST.ARBITRATE)
    else:
        b.ensure(f'{name}: replies only when the slot is 0', zero)
        b.ensure(f'{name}: in REPLY', t.state is ST.REPLY)
        b.ensure(f'{name}: an RN16 reply', isinstance(out, std.TagFrame) and isinstance(out.reply, std.QueryReply))
        b.ensure(f'{name}: fresh 16-bit random number', drew(b, 0, 65535, out.reply.rn, since))
        b.ensure(f'{name}: remembers the number it sent', b.eq(t.rn, out.reply.rn))
        b.ensure(f'{name}: preamble of the round', pre_ok(b, out, enc, trext))


@case('C10', 'Query on a powered tag in any state', samples=900, shards=8, budget=100)
def query(b):
    t, k, st = any_tag(b, ['READY'] + INROUND, enc=std.TagEncoding.FM0)
    before = snapshot(t)
    ses, tgt, sel = b.choice('session', SES), b.choice('target', [A, B]), b.choice('sel', list(std.SelFlag))
    q, enc, tx, dr = b.choice('link', [(0, ENC[0], False, 'DR_8'), (1, ENC[1], True, 'DR_643'), (4, ENC[3], True, 'DR_8'), (15, ENC[2], False, 'DR_643')])
    trcal = val(b, 'trcal', 17, 225)
    n = len(b.draws)
    out = b.ensure_ok(b.call(t.receive, frame(std.Query(std.DivideRatio[dr], enc, tx, sel, ses, tgt, q, 0), trcal)))
    want = dict(before['flags'])
    if st in ('ACKNOWLEDGED', 'SECURED'): want[before['active']] = inv(want[before['active']])
    b.ensure('inverts only the flag of its active session, only when acknowledged', all(t.sessions[s] is want[s] for s in SES))
    sl_ok = {'ALL': True, 'SEL': before['sl'], 'NOT_SEL': not before['sl']}[sel.name]
    if want[ses] is not tgt or not sl_ok:
        b.ensure('does not join: READY', t.state is ST.READY); b.ensure('does not join: silent', out is None)
        return
    b.ensure('joins', t.state in (ST.ARBITRATE, ST.REPLY))
    b.ensure('takes Q of the round', b.eq(t.q, q))
    b.ensure('slot drawn uniformly from 0..2^Q-1', draw_or_zero(b, q, t.slot_counter, n))
    answer(b, t, out, n, t.slot_counter, enc, tx, 'Query')
    b.ensure('link settings of the Query', t.encoding is enc and t.trext is tx)
    b.ensure('BLF of the Query', b.eq(t.blf, dr_value(b, dr) / trcal))
    # the session it joined is the one it listens to from now on
    other = SES[(ses.index + 1) % 4]
    mid = snapshot(t)
    b.ensure('ignores QueryRep of another session', b.ensure_ok(b.call(t.receive, frame(std.QueryRep(other)))) is None)
    b.ensure('another session changes nothing', same(b, mid, snapshot(t)))


@case('C10', 'QueryRep of the own session', samples=500, shards=2)
def query_rep(b):
    t, k, st = any_tag(b, ['READY'] + INROUND, actives=SES)
    before = snapshot(t); n = len(b.draws)
    out = b.ensure_ok(b.call(t.receive, frame(std.QueryRep(before['active']))))
    want = dict(before['flags'])
    if st in ('ACKNOWLEDGED', 'SECURED'): want[before['active']] = inv(want[before['active']])
    b.ensure('flags', all(t.sessions[s] is want[s] for s in SES))
    b.ensure('round settings kept', same(b, before, snapshot(t), 'state', 'flags', 'slot', 'rn'))
    if st in ('READY', 'ACKNOWLEDGED', 'SECURED'):
        b.ensure('goes to (stays in) READY', t.state is ST.READY); b.ensure('silent', out is None)
        return
    b.ensure('slot decremented', b.eq(t.slot_counter, before['slot'] - 1))
    answer(b, t, out, n, t.slot_counter, before['enc'], before['trext'], 'QueryRep')
    if st == 'REPLY': b.ensure('a tag that just replied waits', out is None)


@case('C10', 'QueryAdjust of the own session', samples=700, shards=8)
def query_adjust(b):
    t, k, st = any_tag(b, ['READY'] + INROUND, actives=[SES[0], SES[2]], enc=std.TagEncoding.M4)
    t.q = b.choice('Q', list(range(16)))
    updn = b.choice('updn', [-1, 0, 1])
    before = snapshot(t); n = len(b.draws)
    out = b.ensure_ok(b.call(t.receive, frame(std.QueryAdjust(before['active'], updn))))
    want = dict(before['flags'])
    if st in ('ACKNOWLEDGED', 'SECURED'): want[before['active']] = inv(want[before['active']])
    b.ensure('flags', all(t.sessions[s] is want[s] for s in SES))
    if st in ('READY', 'ACKNOWLEDGED', 'SECURED'):
        b.ensure('goes to (stays in) READY', t.state is ST.READY); b.ensure('silent', out is None)
        b.ensure('round settings kept', same(b, before, snapshot(t), 'state', 'flags', 'slot', 'rn'))
        return
    q = min(15, max(0, before['q'] + updn))
    b.ensure('Q moved by the command, within 0..15', b.eq(t.q, q))
    b.ensure('slot drawn again from 0..2^Q-1', draw_or_zero(b, q, t.slot_counter, n))
    answer(b, t, out, n, t.slot_counter, before['enc'], before['trext'], 'QueryAdjust')
    b.ensure('round settings kept', same(b, before, snapshot(t), 'state', 'slot', 'rn', 'q'))


@case('C10', 'QueryRep and QueryAdjust of another session change nothing', samples=300, shards=2)
def other_session(b):
    t, k, st = any_tag(b)
    ses = b.choice('session', SES)
    if ses is t._active_session and st != 'OFF': b.assume(False)
    before = snapshot(t)
    cmd = std.QueryRep(ses) if b.choice('rep', [True, False]) else std.QueryAdjust(ses, b.choice('updn', [-1, 0, 1]))
    out = b.ensure_ok(b.call(t.receive, frame(cmd)))
    b.ensure('silent', out is None); b.ensure('nothing changes', same(b, before, snapshot(t)))


@case('C10', 'the flag match of Select', samples=12)
def sel_match(b):
    f = b.choice('sel', list(std.SelFlag)); v = b.choice('sl', [True, False])
    r = b.ensure_ok(b.call(f.match, v))
    b.ensure('match', bool(r) == {'ALL': True, 'SEL': v, 'NOT_SEL': not v}[f.name])


@case('C10', 'command histories against a reference tag, public interface only', mode='native', samples=300, thorough=20000, bound='300 random command histories of up to 25 commands (20000 in the thorough tier)', randomize=True)
def histories(b):
    run_history(b, b.int('length', 3, 25))


class RefTag:
    """reference state machine of a Gen2 tag, fed with the draws the real tag made"""
    def __init__(self): self.state = 'READY'; self.flags = {s: A for s in SES}; self.ses = None; self.slot = 0; self.rn = 0; self.q = None

    def step(self, cmd, draw):
        name = type(cmd).__name__
        acked = self.state in ('ACKNOWLEDGED', 'SECURED')
        if name == 'Query':
            if acked: self.flags[self.ses] = inv(self.flags[self.ses])
            if self.flags[cmd.session] is not cmd.target or cmd.sel is std.SelFlag.SEL: self.state = 'READY'; return None
            self.ses = cmd.session; self.q = cmd.q; self.slot = draw(0, 2 ** self.q - 1)
            return self.reply(draw)
        if name in ('QueryRep', 'QueryAdjust'):
            if cmd.session is not self.ses: return None
            if acked: self.flags[self.ses] = inv(self.flags[self.ses]); self.state = 'READY'; return None
            if self.state == 'READY': return None
            if name == 'QueryRep':
                self.slot -= 1
                if self.state == 'REPLY': self.state = 'ARBITRATE'; return None
            else: self.q = min(15, max(0, self.q + cmd.updn)); self.slot = draw(0, 2 ** self.q - 1)
            return self.reply(draw)
        if name == 'Ack':
            if self.state != 'REPLY': return None
            if cmd.rn == self.rn: self.state = 'ACKNOWLEDGED'; return 'epc'
            self.state = 'ARBITRATE'; return None
        if name == 'ReqRN':
            if not acked or cmd.rn != self.rn: return None
            self.state = 'SECURED'; self.rn = draw(0, 65535); return 'handle'
        if name == 'Read':
            return 'data' if self.state == 'SECURED' and cmd.rn == self.rn else None

    def reply(self, draw):
        if self.slot == 0: self.state = 'REPLY'; self.rn = draw(0, 65535); return 'rn16'
        self.state = 'ARBITRATE'; return None


KIND = {std.QueryReply: 'rn16', std.AckReply: 'epc', std.ReqRNReply: 'handle', std.ReadReply: 'data'}


def run_history(b, n, judged=('Query', 'QueryRep', 'QueryAdjust')):
    """each command of a random history is judged against one step of the reference from the tag's own state"""
    t, k = new_tag(b)
    b.ensure_ok(b.call(t.setup, 0.0, True)); t.set_power(0.0, -5.0)
    ref = RefTag()
    for i in range(n):
        ses = b.choice('session', b.choice('sessions in use', [SES[:2], SES[:2], SES])); rn = b.choice('right rn', [True, True, True, False])
        r = t.rn if rn else t.rn ^ (1 << b.int('wrong bit', 0, 15))
        kind = b.choice('command', ['Query', 'QueryRep', 'QueryRep', 'QueryAdjust', 'Ack', 'Ack', 'ReqRN', 'Read'])
        cmd = {'Query': lambda: std.Query(std.DivideRatio.DR_8, ENC[0], False, b.choice('sel', [std.SelFlag.ALL, std.SelFlag.NOT_SEL, std.SelFlag.SEL]), ses, b.choice('target', [A, A, B]), b.choice('Q', [0, 1, 2, 15]), 0),
               'QueryRep': lambda: std.QueryRep(ses), 'QueryAdjust': lambda: std.QueryAdjust(ses, b.choice('updn', [-1, 0, 1])),
               'Ack': lambda: std.Ack(r), 'ReqRN': lambda: std.ReqRN(r, 0), 'Read': lambda: std.Read(std.MemoryBank.TID, 0, 4, r, 0)}[kind]()
        mark = len(b.draws)
        ref.state, ref.flags, ref.slot, ref.rn, ref.q = t.state.name, flags_of(t), t.slot_counter, t.rn, t.q
        out = b.call(t.receive, frame(cmd))
        if kind not in judged:
            if out.exc is not None: b.assume(False)
            if kind == 'Query' and t.state.name in ('ARBITRATE', 'REPLY'): ref.ses = ses
            continue
        out = b.ensure_ok(out)
        fresh = list(b.draws[mark:])

        def draw(lo, hi):
            for j, d in enumerate(fresh):
                if d[0] == 'randint' and d[1] == (lo, hi): fresh.pop(j); return d[2]
            if hi == lo: return lo
            raise KeyError
        try: want = ref.step(cmd, draw)
        except KeyError: b.ensure(f'{kind}: a uniform draw over the right range', False); return
        b.ensure(f'{kind}: answer', (None if out is None else KIND.get(type(out.reply))) == want)
        b.ensure(f'{kind}: state', t.state.name == ref.state)
        b.ensure(f'{kind}: flags', all(t.sessions[s] is ref.flags[s] for s in SES))
        if want in ('rn16', 'handle', 'data'): b.ensure(f'{kind}: number', out.reply.rn == ref.rn and t.rn == ref.rn)


@case('C10', 'a tag does not notice what another one hears', samples=400, shards=2)
def bystander(b):
    (t, k), (o, ko) = new_tag(b), new_tag(b)
    for x in (t, o): b.ensure_ok(b.call(x.setup, 0.0, True)); b.ensure_ok(b.call(x.set_power, 0.0, -5.0))
    ses = SES[1]; query = lambda x, q: b.ensure_ok(b.call(x.receive, frame(std.Query(std.DivideRatio.DR_8, std.TagEncoding.M4, False, std.SelFlag.ALL, ses, x.sessions[ses], q, 0))))
    if b.choice('the other one is in the round', [False, True]): query(o, 2)
    before, stored = snapshot(o), dict(o.sessions)
    for i in range(b.choice('exchanges', [1] if b.symbolic else [1, 2, 3])):
        query(t, b.choice('Q', [0, 1]))
        b.ensure_ok(b.call(t.receive, frame(std.Ack(t.rn)))); b.ensure_ok(b.call(t.receive, frame(std.ReqRN(t.rn, 0))))
        cmd = b.choice('then', ['QueryRep', 'QueryAdjust', 'Query', 'power'])
        if cmd == 'power': b.ensure_ok(b.call(t.set_power, 1.0 + i, None)); b.ensure_ok(b.call(t.set_power, 1.5 + i, -5.0))
        elif cmd == 'Query': query(t, 1)
        else: b.ensure_ok(b.call(t.receive, frame(std.QueryRep(ses) if cmd == 'QueryRep' else std.QueryAdjust(ses, 0))))
        b.ensure('the other tag is as it was', b.And(same(b, before, snapshot(o)), all(o.sessions[x] is stored[x] for x in stored)))


@case('C10', 'every Q: slot range of Query', samples=60)
def query_q(b):
    t, k, st = any_tag(b, ['READY'], actives=[SES[1]], enc=std.TagEncoding.FM0)
    q = b.choice('Q', list(range(16))); n = len(b.draws)
    out = b.ensure_ok(b.call(t.receive, frame(std.Query(std.DivideRatio.DR_8, ENC[0], True, std.SelFlag.ALL, SES[0], t.sessions[SES[0]], q, 0))))
    b.ensure('slot drawn uniformly from 0..2^Q-1', draw_or_zero(b, q, t.slot_counter, n))
    answer(b, t, out, n, t.slot_counter, ENC[0], True, 'Query')


@case('C10', 'a crowd of tags hears what the reader sends', mode='native', samples=16, thorough=160, bound='up to 250 real tags and 6 commands, 16 runs')
def crowd(b):
    import pysim.models.rfid.handlers as hd
    from specs.handlerkit import HKernel
    from specs.c16 import MediumStub
    from specs.readerkit import new_reader
    k = HKernel(b); m = ob.Model(); k.context = m; m.medium = MediumStub(b); m.statistics.use_power_statistics = False
    r = new_reader(b, link='fixed', q=2, all_settings=False); r.kernel = k; m.reader = r; b.ensure_ok(b.call(r.turn_on))
    for i in range(b.choice('tags', [30, 100, 250])):
        t = b.ensure_ok(b.call(ob.Tag, i, k)); t.epc = 'AABB'; t.tid = 'CCDD'; t.antenna.pos = [0., 0., 0.]; b.ensure_ok(b.call(t.set_power, 0.0, -5.0)); m.tags.append(t)
        b.ensure_ok(b.call(m.statistics.create_tag_record, t))
    ses = r.session; off = b.choice('without power', [0, 3])
    for t in m.tags[len(m.tags) // 2:][:off]: b.ensure_ok(b.call(t.set_power, 0.0, None))
    for i in range(6):
        kind = 'Query' if i == 0 else b.choice('command', ['QueryRep', 'QueryRep', 'QueryAdjust', 'Query'])
        cmd = {'Query': lambda: std.Query(std.DivideRatio.DR_8, ENC[0], False, std.SelFlag.ALL, ses, b.choice('target', [A, A, B]) if i else A, b.choice('Q', [0, 1, 4]), 0), 'QueryRep': lambda: std.QueryRep(ses),
               'QueryAdjust': lambda: std.QueryAdjust(ses, 0)}[kind]()
        was = {t: (t.state.name, t.slot_counter, t.sessions[ses]) for t in m.tags}
        tx = b.ensure_ok(b.call(hd._build_transaction, k, r, frame(cmd)))
        replied = [t for t, _ in tx.replies]
        for t in m.tags:
            st, slot, flag = was[t]; now = t.state.name
            if st == 'OFF': b.ensure('a tag without power is silent', now == 'OFF' and t not in replied); continue
            b.ensure('replies come exactly from tags whose slot is 0', (t in replied) == (now == 'REPLY') and (now != 'REPLY' or t.slot_counter == 0))
            if kind == 'Query': b.ensure('every tag with the target flag joins, the others do not', now in ('ARBITRATE', 'REPLY') if flag is cmd.target else now == 'READY')
            elif st == 'READY': b.ensure('who is not in the round stays out', now == 'READY')
            elif kind == 'QueryRep': b.ensure('QueryRep decrements the slot of everyone in the round', t.slot_counter == slot - 1 and now == ('REPLY' if slot == 1 else 'ARBITRATE'))
            else: b.ensure('QueryAdjust keeps everyone in the round', now in ('ARBITRATE', 'REPLY'))
