"""C22 Input preparation splits messages and computes times and success rates exactly."""
from fractions import Fraction
import numpy as np
from pyvc import pw
from pyvc.runner import case
from pyvc.sym import Unsupported
import pysim.models.rfid.epcstd as std
import pysim.models.tag_time.calculate_params as cp
import pysim.models.tag_time.analitical_model as am
from specs.c06 import DR, M
from specs.c08 import window
from specs.c07 import SymBytes, body, pre_bits, dr_value, SPB, ENC

ASSUME = ['the commands and replies of one reading are those the model is about: Query with Q = 4, S0, A, ALL; QueryRep; Ack, ReqRN; Read of 4 TID words; RN16, a 96-bit EPC, handle and the data',
          'durations are compared as exact reals (native runs: relative tolerance 1e-9)', 'the bits of commands and replies are C06 and C07']
CHUNKS = 'chunk counts up to 4 and series of up to 3 BER points in the proof (word counts, Tari and BER symbolic); up to 64 chunks and 130 points in the native runs; the any_* cases prove the same clauses for every count'


class HexRun:
    """the hex string of n words"""
    pyvc_str = True; pyvc_model = True; __hash__ = None
    def __init__(self, b, unit, n): self.b, self.unit, self.n = b, unit, n
    def pyvc_len(self): return len(self.unit) * self.b.max(self.n, 0)
    def pyvc_fromhex(self):
        if len(self.unit) % 2: raise Unsupported('half bytes')
        return HexBytes(len(self.unit) // 2 * self.b.max(self.n, 0))


class HexBytes(SymBytes):
    pyvc_model = True
    def pyvc_list(self): return self


class Domain:
    pyvc_model = True
    def __init__(self, b): self.b = b
    def repeat(self, s, n): return HexRun(self.b, s, n)
    def fmt(self, x, sp): return None


def hexes(b):
    if b.symbolic: b.interp.str_domain = Domain(b)


@case('C22', 'splitting a message into chunks', samples=400)
def split(b):
    w, n = b.int('words', 0, 4096), b.int('chunks', 1, 64 if not b.symbolic else None)
    one, last = b.ensure_ok(b.call(cp.calculate_chunks, w, n))
    if b.symbolic: several = b.p.decide((n > 1).z)
    else: several = n > 1
    if not several:
        b.ensure('one chunk holds all words', b.eq(one, w)); return
    b.ensure('all but the last chunk hold the words divided by the chunks', b.And(b.le(one * n, w), b.lt(w, one * n + n)))
    b.ensure('all chunks together hold all words', b.eq((n - 1) * one + last, w))
    b.ensure('no chunk is negative', b.And(b.le(0, one), b.le(0, last)))


class Link:
    """what the table must hold for these settings, from the frame formulas of C07"""
    def __init__(self, b, tari, enc, dr, tx):
        self.b, self.t, self.enc, self.tx, self.dr = b, tari, enc, tx, dr
        us = Fraction(1, 10 ** 6) if b.symbolic else 1e-6
        self.tari = tari * us; self.rtcal = self.tari * b.num(2.75); self.trcal = self.rtcal * b.num(1.95)
        self.blf = dr_value(b, dr) / self.trcal
        self.d = b.num(12.5e-6)
        D, E = std.DivideRatio[dr], std.TagEncoding[enc]
        S, A = std.Session.S0, std.InventoryFlag.A
        self.cmd = {'Query': std.Query(D, E, tx, std.SelFlag.ALL, S, A, 4, 0x15), 'QueryRep': std.QueryRep(S), 'Ack': std.Ack(0x5555), 'Req_RN': std.ReqRN(0x5555, 0x5555),
                    'Read': std.Read(std.MemoryBank.TID, 0, 4, 0x5555, 0x5555)}
    def command(self, n):
        b = self.b; bits = b.ensure_ok(b.call(self.cmd[n].encode))
        return self.d + self.tari + self.rtcal + (self.trcal if n == 'Query' else 0) + body(b, bits, self.tari, self.rtcal)
    def bits(self, n, words=None): return pre_bits(self.enc, self.tx) + {'RN16': 16, 'EPC+PC+CRC': 32 + 96, 'Handle': 32}.get(n, 33 + 16 * words if words is not None else 0) + 1
    def reply(self, n, words=None): return self.bits(n, words) * SPB[self.enc] / self.blf
    def turn(self): return window(self.b, 1, (self.rtcal, self.trcal, self.dr, 'NOMINAL'))[1] + window(self.b, 2, (self.rtcal, self.trcal, self.dr, 'NOMINAL'))[1]


def table(b):
    hexes(b)
    enc, dr, tx = b.choice('encoding', ENC), b.choice('DR', ['DR_8', 'DR_643']), b.choice('TRext', [True, False])
    tari = b.real('Tari', 6, 26)
    n = b.choice('chunks', [1, 2, 4] if b.symbolic else [1, 2, 4, 3, 7, 16, 64]); w = b.int('words', 0, 1024)
    lens = [w] if n == 1 else [w // n] * (n - 1) + [w - (n - 1) * (w // n)]
    one, last = b.ensure_ok(b.call(cp.calculate_chunks, w, n))
    p = b.ensure_ok(b.call(cp.build_messages_df, tari, std.TagEncoding[enc], std.DivideRatio[dr], tx, n, one, last))
    return Link(b, tari, enc, dr, tx), p, n, lens


@case('C22', 'the message table: durations and bit lengths of every command and reply', samples=250, shards=4, bound=CHUNKS)
def messages(b):
    L, p, n, lens = table(b)
    b.ensure('RTcal', b.eq(p['rtcal'], L.rtcal)); b.ensure('TRcal', b.eq(p['trcal'], L.trcal)); b.ensure('BLF', b.eq(p['BLF'], L.blf))
    b.ensure('RTcal as a column', b.eq(p['RTcal'], L.rtcal)); b.ensure('TRcal as a column', b.eq(p['TRcal'], L.trcal))
    b.ensure('settings', p['DR'] is std.DivideRatio[L.dr] and p['M'] is std.TagEncoding[L.enc] and p['TRext'] == L.tx and b.eq(p['Tari'], L.t))
    for c in L.cmd: b.ensure(f'duration of {c}', b.eq(p[c], L.command(c)))
    b.ensure('bits of Query', b.eq(p['Query_len'], 22))
    for r in ('RN16', 'EPC+PC+CRC', 'Handle'):
        b.ensure(f'duration of {r}', b.eq(p[r], L.reply(r))); b.ensure(f'bits of {r}', b.eq(p[r + '_len'], L.bits(r)))
    b.ensure('one data reply per chunk', len(p['Data']) == n and len(p['Data_len']) == n)
    for i, x in enumerate(lens):
        b.ensure('duration of a chunk', b.eq(p['Data'][i], L.reply('data', x))); b.ensure('bits of a chunk', b.eq(p['Data_len'][i], L.bits('data', x)))


@case('C22', 'success probability per stage and BER point', samples=250, shards=4, bound=CHUNKS)
def probs(b):
    L, p, n, lens = table(b)
    k = b.choice('points', [1, 2, 3] if b.symbolic else [1, 2, 3, 10, 40, 130])
    ber = [b.real(f'BER {i}', 0, 1 if b.symbolic else 0.02) for i in range(k)]
    if not b.symbolic: ber = [float(b.choice('edge', [0.0, 1.0])) if b.choice('at an edge', [False] * 9 + [True]) else x for x in ber]
    out = b.ensure_ok(b.call(cp.prepare_probs, p, n, np.array(ber, dtype=object) if b.symbolic else np.array(ber), k))
    b.ensure('one row per BER point', len(out) == k); b.ensure('one column per stage', all(len(r) == 3 + n for r in out))
    bits = [L.bits('RN16'), L.bits('EPC+PC+CRC'), L.bits('Handle')] + [L.bits('data', x) for x in lens]
    for i in range(k):
        for j, m in enumerate(bits): b.ensure('a stage succeeds when every bit of its reply arrives', b.eq(out[i][j], b.pow(1 - ber[i], m)))


@case('C22', 'time of every stage', samples=250, shards=4, bound=CHUNKS)
def times(b):
    L, p, n, lens = table(b)
    k = b.choice('points', [2] if b.symbolic else [2, 1, 3, 9]); rows = [[b.num(0.5)] * (3 + n) for _ in range(k)]
    out = b.ensure_ok(b.call(cp.prepare_times, p, rows, n))
    b.ensure('one row per BER point', len(out) == k); b.ensure('one column per stage', all(len(r) == 3 + n for r in out))
    wait = L.turn() + 2 * b.num(1e-5)
    exp = [wait + L.command('Query') + L.reply('RN16'), wait + L.command('Ack') + L.reply('EPC+PC+CRC'), wait + L.command('Req_RN') + L.reply('Handle')] + [wait + L.command('Read') + L.reply('data', x) for x in lens]
    for r in out:
        for j, e in enumerate(exp): b.ensure('T1 + T2 + command + reply + 2 delta', b.eq(r[j], e))


# ------------------------------------------------ any number of chunks and BER points
def any_table(b):
    pw.use(b); hexes(b)
    enc, dr, tx = b.choice('encoding', ENC), b.choice('DR', ['DR_8', 'DR_643']), b.choice('TRext', [True, False])
    tari = b.real('Tari', 6, 26); n = b.int('chunks', 1); one, last = b.int('words of a chunk', 0), b.int('words of the last chunk', 0)
    p = b.ensure_ok(b.call(cp.build_messages_df, tari, std.TagEncoding[enc], std.DivideRatio[dr], tx, n, one, last))
    words = lambda i: b.ite(b.And(n > 1, b.eq(i, n - 1)), last, one)
    return Link(b, tari, enc, dr, tx), p, n, words


@case('C22', 'any number of chunks: durations and bit lengths of every data reply', mode='sym', shards=2)
def any_messages(b):
    L, p, n, words = any_table(b)
    b.ensure('one data reply per chunk', b.And(b.eq(pw.length(p['Data']), n), b.eq(pw.length(p['Data_len']), n)))
    i = b.int('chunk', 0); b.assume(i < n)
    b.ensure('duration of a chunk', b.eq(p['Data'][i], L.reply('data', words(i)))); b.ensure('bits of a chunk', b.eq(p['Data_len'][i], L.bits('data', words(i))))


@case('C22', 'any number of chunks and points: success probability per stage and BER point', mode='sym', shards=2)
def any_probs(b):
    L, p, n, words = any_table(b)
    k = b.int('points', 0); ber = pw.array(b, 'BER', k)
    out = b.ensure_ok(b.call(cp.prepare_probs, p, n, ber, k))
    b.ensure('one row per BER point', b.eq(pw.length(out), k))
    r = b.int('point', 0); b.assume(r < k); s = b.int('stage', 0); b.assume(s < n + 3)
    row = out[r]
    b.ensure('one column per stage', b.eq(pw.length(row), n + 3))
    bits = b.ite(b.eq(s, 0), L.bits('RN16'), b.ite(b.eq(s, 1), L.bits('EPC+PC+CRC'), b.ite(b.eq(s, 2), L.bits('Handle'), L.bits('data', words(s - 3)))))
    b.ensure('a stage succeeds when every bit of its reply arrives', b.eq(row[s], b.pow(1 - ber[r], bits)))


@case('C22', 'any number of chunks and points: time of every stage', mode='sym', shards=2)
def any_times(b):
    L, p, n, words = any_table(b)
    k = b.int('points', 0)
    _, f = b.p.fresh('at', 'int'); rows = pw.VList(b.interp, [pw.Many(k, f, pw.VList(b.interp))])
    out = b.ensure_ok(b.call(cp.prepare_times, p, rows, n))
    b.ensure('one row per BER point', b.eq(pw.length(out), k))
    r = b.int('point', 0); b.assume(r < k); s = b.int('stage', 0); b.assume(s < n + 3)
    row = out[r]
    b.ensure('one column per stage', b.eq(pw.length(row), n + 3))
    wait = L.turn() + 2 * b.num(1e-5)
    exp = b.ite(b.eq(s, 0), wait + L.command('Query') + L.reply('RN16'), b.ite(b.eq(s, 1), wait + L.command('Ack') + L.reply('EPC+PC+CRC'),
          b.ite(b.eq(s, 2), wait + L.command('Req_RN') + L.reply('Handle'), wait + L.command('Read') + L.reply('data', words(s - 3)))))
    b.ensure('T1 + T2 + command + reply + 2 delta', b.eq(row[s], exp))
