"""C11 Tags answer access commands only with the right handle and data."""
from pyvc.runner import case
from pyvc.sym import Sym
import pysim.models.rfid.objects as ob
import pysim.models.rfid.epcstd as std
from specs.tagkit import *
from specs.c10 import ENC, RefTag, KIND, pre_ok, run_history

ASSUME = ['invariant of tag states as in C10', 'memory banks hold whole words; Read commands with word pointer 0 (the model has no other reads)',
          'in the proof memory contents are opaque hex strings of any length, turned into bytes by an identity stand-in']
BANKS = {'EPC': std.MemoryBank.EPC, 'TID': std.MemoryBank.TID, 'USER': std.MemoryBank.USER, 'RESERVED': std.MemoryBank.RESERVED}


class Hex:
    """an opaque hex string: the first n digits of memory `name`"""
    pyvc_model = True
    def __init__(self, name, n): self.name, self.n = name, n
    def pyvc_len(self): return self.n
    def pyvc_slice(self, lo, hi, step):
        from pyvc import sym as S
        if lo not in (None, 0) or step is not None: raise S.Unsupported('slice of a memory not from its start')
        return self if hi is None else Hex(self.name, S.ite(hi < self.n, hi, self.n))
    def __getitem__(self, s): return self.pyvc_slice(s.start, s.stop, s.step)
    __hash__ = None


def memory(b, name):
    """a memory of any number of words, or none at all"""
    words = b.int(f'{name} words', 0, gen=lambda r: r.choice([0, 1, r.randint(0, 12), r.randint(0, 40), r.randint(30, 80), r.randint(100, 300)]))
    if b.symbolic: return Hex(name, words * 4), words
    return ''.join(b.rng.choice('0123456789ABCDEF') for _ in range(4 * words)), words


def number(b, t, name):
    """a number in a command: any, the right one, or (in runs) one that is wrong in a single bit"""
    rn = b.int(name, 0, 65535)
    kind = b.choice('same', [True, False] if b.symbolic else [True, False, 'but one bit', 'but one bit'])
    return rn if kind is False else t.rn if kind is True else t.rn ^ (1 << rn % 16)


def same_bytes(b, got, mem, words):
    """got is the first `words` words of mem"""
    if b.symbolic: return b.And(isinstance(got, Hex) and got.name == mem.name, b.eq(got.n, words * 4)) if isinstance(got, Hex) else False
    return list(got) == list(bytes.fromhex(mem[:4 * words]))


def setup(b):
    if b.symbolic:
        def ident(v): return v
        b.stub(std, 'to_bytes', ident)


@case('C11', 'ACK', samples=500, shards=2)
def ack(b):
    setup(b)
    t, k, st = any_tag(b)
    t.epc, words = memory(b, 'epc')
    rn = number(b, t, 'number in the command')
    before = snapshot(t)
    out = b.ensure_ok(b.call(t.receive, frame(std.Ack(rn))))
    b.ensure('flags, slot, number and settings kept', same(b, before, snapshot(t), 'state'))
    if st != 'REPLY':
        b.ensure('silent outside REPLY', out is None); b.ensure('state kept', t.state is before['state']); return
    match = b.eq(rn, before['rn'])
    if out is None:
        b.ensure('silent only for a wrong number', b.Not(match)); b.ensure('wrong number: ARBITRATE', t.state is ST.ARBITRATE); return
    b.ensure('answers only for its number', match)
    b.ensure('ACKNOWLEDGED', t.state is ST.ACKNOWLEDGED)
    b.ensure('EPC reply', isinstance(out.reply, std.AckReply))
    b.ensure('its EPC', same_bytes(b, out.reply.epc, t.epc, words))
    b.ensure('preamble of the round', out.preamble is before['pre'] or pre_ok(b, out, before['enc'], before['trext']))


@case('C11', 'ReqRN', samples=500, shards=2)
def reqrn(b):
    t, k, st = any_tag(b)
    rn = number(b, t, 'number in the command')
    before = snapshot(t); n = len(b.draws)
    out = b.ensure_ok(b.call(t.receive, frame(std.ReqRN(rn, 0))))
    b.ensure('flags, slot and settings kept', same(b, before, snapshot(t), 'state', 'rn'))
    match = b.eq(rn, before['rn']) if st in ('ACKNOWLEDGED', 'SECURED') else False
    if out is None:
        b.ensure('silent only if not acknowledged or for a wrong number', b.Not(match))
        b.ensure('nothing changes', same(b, before, snapshot(t))); return
    b.ensure('answers only when acknowledged and for its number', match)
    b.ensure('SECURED', t.state is ST.SECURED)
    b.ensure('handle reply', isinstance(out.reply, std.ReqRNReply))
    b.ensure('fresh handle', drew(b, 0, 65535, out.reply.rn, n)); b.ensure('handle is its number from now on', b.eq(t.rn, out.reply.rn))
    b.ensure('preamble of the round', pre_ok(b, out, before['enc'], before['trext']))


@case('C11', 'Read', samples=600, shards=4)
def read(b):
    setup(b)
    t, k, st = any_tag(b, enc=std.TagEncoding.M4)
    which = b.choice('bank', list(BANKS))
    mem, words = memory(b, which)
    present = which != 'RESERVED' and (which == 'EPC' or b.choice('bank present', [True, False]))
    t.epc = mem if which == 'EPC' else 'AA11'; t.tid = mem if which == 'TID' and present else (None if which == 'TID' else 'BB22')
    t.user_mem = mem if which == 'USER' and present else (None if which == 'USER' else 'CC33')
    wc = b.int('word_count', 0, 255); rn = number(b, t, 'handle in the command')
    before = snapshot(t)
    out = b.ensure_ok(b.call(t.receive, frame(std.Read(BANKS[which], 0, wc, rn, 0))))
    b.ensure('nothing changes', same(b, before, snapshot(t)))
    match = b.eq(rn, before['rn']) if st == 'SECURED' and present else False
    if out is None:
        b.ensure('silent only if not secured, for a wrong handle or without such a bank', b.Not(match)); return
    b.ensure('answers only when secured and for its handle', match)
    b.ensure('data reply', isinstance(out.reply, std.ReadReply))
    b.ensure('the handle', b.eq(out.reply.rn, before['rn']))
    b.ensure('the first word_count words, all if shorter', same_bytes(b, out.reply.memory, mem, b.min(wc, words)))
    b.ensure('preamble of the round', pre_ok(b, out, before['enc'], before['trext']))


@case('C11', 'several Reads in a row: every one answered for itself', samples=400, shards=2)
def again(b):
    setup(b)
    t, k, st = any_tag(b, enc=std.TagEncoding.M4, states=['SECURED'], actives=[std.Session.S1])
    mem = {n: memory(b, n) for n in ('EPC', 'TID', 'USER')}
    t.epc, t.tid, t.user_mem = (mem[n][0] for n in ('EPC', 'TID', 'USER'))
    at = b.choice('changed in between', ['nothing', 'memory', 'handle'])
    last = None
    for i in range(2 if b.symbolic else 3):
        which = b.choice('bank', [last] if i == 1 and b.symbolic else ['EPC', 'TID', 'USER']); last = which
        wc, rn = b.int('word_count', 0, 255), t.rn
        out = b.ensure_ok(b.call(t.receive, frame(std.Read(BANKS[which], 0, wc, rn, 0))))
        b.ensure(f'Read {i + 1} is answered', out is not None and isinstance(out.reply, std.ReadReply))
        b.ensure(f'Read {i + 1}: the handle', b.eq(out.reply.rn, rn))
        b.ensure(f'Read {i + 1}: the first word_count words of that bank as it is now', same_bytes(b, out.reply.memory, mem[which][0], b.min(wc, mem[which][1])))
        if at == 'memory' and i == 0:
            mem[which] = memory(b, 'new ' + which)
            setattr(t, {'EPC': 'epc', 'TID': 'tid', 'USER': 'user_mem'}[which], mem[which][0])
        if at == 'handle' and i == 0:
            out = b.ensure_ok(b.call(t.receive, frame(std.ReqRN(t.rn, 0))))
            b.ensure('a new handle is given', out is not None and isinstance(out.reply, std.ReqRNReply) and b.eq(out.reply.rn, t.rn))


@case('C11', 'a frame with no known command is refused', samples=5)
def unknown(b):
    t, k, st = any_tag(b, ['READY', 'SECURED'])
    b.ensure('refused', b.call(t.receive, std.ReaderFrame(std.ReaderSync(6e-6, 18e-6, 12e-6), object())).raised(TypeError))


@case('C11', 'access histories against a reference tag, public interface only', mode='native', samples=300, thorough=20000, bound='300 random command histories of up to 25 commands (20000 in the thorough tier)')
def histories(b):
    run_history(b, b.int('length', 3, 25), ('Ack', 'ReqRN', 'Read'))
