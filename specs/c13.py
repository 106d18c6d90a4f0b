"""C13 A round is 2^Q slots, begun by Query, and targets alternate on schedule."""
import ast
from pyvc.runner import case
import pysim.models.rfid.objects as ob
import pysim.models.rfid.epcstd as std
from pyvc.sym import Unsupported
from specs.readerkit import *

ASSUME = ['rounds_per_target at least 1', 'Q is not changed while a round is on (adjusted rounds are C14)']


def plain_reader(b, q, strategy='const', per=1):
    r = b.ensure_ok(b.call(ob.Reader, Kernel()))
    b.need(r, 'q', 'session', 'target_strategy', 'rounds_per_target', 'target')
    b.set(r, q=q, tag_encoding=std.TagEncoding.FM0, target_strategy=strategy, rounds_per_target=per)
    b.set(r, q_fp=q + b.real('floating part', -0.5, 0.5), use_query_adjust=False, adjust_delta=b.real('step', 0, 1))
    return r


class Reference:
    """the announcements and commands of a reader with constant Q"""
    def __init__(self): self.round = -1; self.slot = None; self.log = []

    def step(self, n):
        """the next slot of a reader with n slots per round"""
        if self.slot is not None: self.log.append(('slot-', self.round, self.slot))
        if self.slot is None or self.slot + 1 == n:
            if self.slot is not None: self.log.append(('round-', self.round))
            self.round += 1; self.slot = 0; self.log.append(('round+', self.round))
        else: self.slot += 1
        self.log.append(('slot+', self.round, self.slot))
        return std.Query if self.slot == 0 else std.QueryRep

    def off(self):
        if self.slot is not None: self.log += [('slot-', self.round, self.slot), ('round-', self.round)]
        self.slot = None


def kind_of(f): return type(f.command) if f is not None else None


class SlotLoop:
    """contract of the loop that hands out the slots after the first: before iteration i exactly i slots were started"""
    def __init__(self, b, ghost): self.b, self.ghost = b, ghost
    def fits(self, I, s, env):
        return isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' \
            and isinstance(s.target, ast.Name) and any(isinstance(n, ast.Yield) for n in ast.walk(s))

    def peel(self, st):
        """the first slot of all is handed out by the code itself, wherever it does so"""
        from pyvc.models import SymRange
        from pyvc.interp import Cnt
        I = st.interp
        if not isinstance(st.iter, SymRange): raise Unsupported('range with a symbolic bound expected')
        while self.ghost.fresh:
            if not I.truth(st.iter.lo < st.iter.hi): return False
            I.assign(st.node.target, st.iter.lo, st.env); st.iter = SymRange(st.iter.lo + 1, st.iter.hi)
            try: yield from I.block(st.node.body, st.env)
            except Cnt: pass
        return False

    def enter(self, st): st.g['i'] = st.iter.lo

    def invariant(self, st): return [('exactly i slots were started before slot i', self.b.eq(self.ghost.issued, st.g['i']))]

    def havoc(self, st):
        b = self.b; st.g['i'] = b.int('slots so far', 1); self.ghost.issued = st.g['i']
        b.assume(b.le(st.iter.lo, st.g['i'])); b.assume(b.le(st.g['i'], b.max(st.iter.lo, st.iter.hi)))

    def step(self, st):
        i = st.g['i']
        if not st.interp.truth(i < st.iter.hi): return None
        st.g['i'] = i + 1
        return (i,)


class Ghost:
    pyvc_model = True
    def __init__(self, b): self.b, self.issued, self.rounds, self.fresh = b, 0, [], True
    def slot(self, rnd, idx):
        if len(self.rounds) == 1: self.b.ensure('slots are numbered in order', self.b.eq(idx, self.issued), False)
        self.issued = self.issued + 1; self.fresh = False
    def round(self, i): self.rounds.append((i, self.issued)); self.issued = 0; self.fresh = True
    slot.pyvc_model = round.pyvc_model = True


@case('C13', 'every Q, any number of slots already played: next slot or, after exactly 2^Q, a new round', mode='sym')
def any_slot(b):
    q = b.int('Q', 0, 15)
    r = plain_reader(b, q)
    g = Ghost(b)
    r.round_start_listeners.add(g.round); r.slot_start_listeners.add(g.slot)
    b.loop('*', None, SlotLoop(b, g))
    f = b.ensure_ok(b.call(r.turn_on))
    b.ensure('slot 0 starts with Query', kind_of(f) is std.Query and r.state is RS.QUERY, False)
    b.ensure('round 0, one slot', len(g.rounds) == 1 and g.issued == 1, False)
    f = b.ensure_ok(b.call(r.timeout))
    n = b.ite(q >= 0, b.pow(2, q), 0)
    if len(g.rounds) == 2:
        b.ensure('a new round begins only after exactly 2^Q slots', b.eq(g.rounds[1][1], n), False)
        b.ensure('rounds are numbered in sequence', g.rounds[1][0] == 1, False)
        b.ensure('the new round starts with Query', kind_of(f) is std.Query, False)
        return
    b.ensure('a further slot starts with QueryRep', kind_of(f) is std.QueryRep, False)
    b.ensure('never more than 2^Q slots', b.le(g.issued, n), False)
    b.call(r.timeout)       # closes the loop body


@case('C13', 'announcements and commands of whole rounds, small Q', samples=60)
def rounds(b):
    q = b.choice('Q', [0, 1, 2, 3])
    r = plain_reader(b, q); ev = Events(r); ref = Reference()
    off = b.choice('switched off after', [None, 1, 2, 3, 5])
    other = plain_reader(b, 1); evo, refo = Events(other), Reference()      # at work at the same time
    for i in range(1, 2 * 2 ** q + 3):
        refo.step(2); b.ensure_ok(b.call(other.turn_on if i == 1 else other.timeout))
        b.ensure('another reader announces its own rounds', evo.log == refo.log)
        want = ref.step(2 ** q)
        f = b.ensure_ok(b.call(r.turn_on if i == 1 else r.timeout))
        b.ensure('Query in slot 0, QueryRep otherwise', kind_of(f) is want)
        b.ensure('rounds and slots announced in order, nested, once', ev.log == ref.log)
        if i == off:
            b.ensure_ok(b.call(r.turn_off)); ref.off()
            b.ensure('switching off finishes slot and round', ev.log == ref.log)
            if b.choice('again', [True, False]):
                b.ensure_ok(b.call(r.turn_off)); b.ensure('only once', ev.log == ref.log)
            want = ref.step(2 ** q)
            f = b.ensure_ok(b.call(r.turn_on))
            b.ensure('switched on again: a new round', kind_of(f) is want); b.ensure('announced', ev.log == ref.log)


@case('C13', 'a slot that is used for an exchange is one slot', samples=60)
def exchange(b):
    r = plain_reader(b, 1); ev = Events(r); ref = Reference()
    b.set(r, read_tid_bank=b.choice('read TID', [True, False]), read_tid_words_num=4)
    for i in range(3):
        ref.step(2); f = b.ensure_ok(b.call(r.turn_on)) if i == 0 else f
        b.ensure('announced', ev.log == ref.log)
        upto = b.choice('replies', [0, 1, 2, 3, 4])
        for j, k in enumerate(['rn16', 'epc', 'handle', 'data'][:upto]):
            if j == 2 and not r.read_tid_bank: break
            b.ensure('still the same slot', ev.log == ref.log)
            f = b.ensure_ok(b.call(r.receive, tag_frame(k, 77)))
        else:
            if upto < (4 if r.read_tid_bank else 2): f = b.ensure_ok(b.call(r.timeout))


@case('C13', 'every Q from 0 to 15: whole rounds, slot by slot', mode='native', samples=1, thorough=1, bound='two rounds (the second up to 40 slots) and a switch-off for each of the 16 values of Q', randomize=False)
def all_q(b):
    for q in range(16):
        r = plain_reader(b, q); ev = Events(r); ref = Reference()
        want = ref.step(2 ** q); f = r.turn_on(); ok = kind_of(f) is want
        for i in range(2 ** q + min(2 ** q, 40)):
            want = ref.step(2 ** q); f = r.timeout(); ok = ok and kind_of(f) is want
        r.turn_off(); ref.off()
        b.ensure(f'Q={q}: commands', ok); b.ensure(f'Q={q}: announcements', ev.log == ref.log)


@case('C13', 'thousands of rounds', mode='native', samples=4, thorough=40, bound='4 runs of 3000 rounds with Q 0 or 1')
def long_run(b):
    q = b.choice('Q', [0, 1]); r = plain_reader(b, q); ev = Events(r); ref = Reference(); off = b.choice('off after', [None, 40, 1500])
    for i in range(3000 * 2 ** q):
        want = ref.step(2 ** q); f = b.ensure_ok(b.call(r.turn_on if i == 0 or i - 1 == off else r.timeout))
        if kind_of(f) is not want: b.ensure('Query in slot 0, QueryRep otherwise', False)
        if i == off: b.ensure_ok(b.call(r.turn_off)); ref.off()
    b.ensure('rounds and slots announced in order, nested, once', ev.log == ref.log)


@case('C13', 'alternating target: any count of Queries since the last change', mode='sym')
def alternate(b):
    n = b.int('rounds per target', 1, 1000)
    r = plain_reader(b, b.choice('Q', [0, 1]), 'switch', n)
    b.need(r, 'num_rounds_before_target_switch')
    # the field counts the Queries still to come with the current target: a fact about this code, so a misfit is undecided and `targets` decides
    # first Query after switching on: target A, and n-1 more to come, whatever the target was
    r.target = b.choice('target before', [A, B])
    f = b.ensure_ok(b.call(r.turn_on))
    b.ensure('starts with A', f.command.target is A, False)
    b.ensure('n - 1 Queries with A to come', b.eq(r.num_rounds_before_target_switch, n - 1), False)
    # any later moment: `left` Queries with this target to come
    left = b.int('left', 0, 999); b.assume(left < n)
    t = b.choice('target now', [A, B])
    b.set(r, target=t, num_rounds_before_target_switch=left)
    f = b.ensure_ok(b.call(r.set_state, RS.QUERY))
    if f.command.target is t:
        b.ensure('same target only while some are left', left > 0, False)
        b.ensure('one less is left', b.eq(r.num_rounds_before_target_switch, left - 1), False)
    else:
        b.ensure('changes only when none is left', b.eq(left, 0), False)
        b.ensure('the other target', f.command.target is (B if t is A else A), False)
        b.ensure('n - 1 more with the other target', b.eq(r.num_rounds_before_target_switch, n - 1), False)


@case('C13', 'targets of a whole run', samples=120, shards=4)
def targets(b):
    q = b.choice('Q', [0, 1]); n = b.choice('rounds per target', [1, 2, 3, 7, 20] if not b.symbolic else [1, 2])
    strategy = b.choice('strategy', ['switch', 'const']); start = b.choice('configured target', [A, B])
    r = plain_reader(b, q, strategy, n); r.target = start
    f = b.ensure_ok(b.call(r.turn_on))
    off = b.choice('off after', [None, 1, 3] if b.symbolic else [None, 1, 3, 8, 21]); k = 0
    for i in range(1, 9 if b.symbolic else b.choice('length', [100] * 20 + [2500])):
        if kind_of(f) is std.Query:
            want = start if strategy == 'const' else (A, B)[(k // n) % 2]
            b.ensure(f'{strategy}: target of each Query', f.command.target is want); k += 1
        if i == off:
            b.ensure_ok(b.call(r.turn_off)); f = b.ensure_ok(b.call(r.turn_on)); k = 0
        else: f = b.ensure_ok(b.call(r.timeout))
