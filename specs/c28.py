"""C28 Power statistics record what every tag and the reader saw at each update."""
import math
import numpy as np
from pyvc.runner import case
from specs.readerkit import *
from specs.handlerkit import *
from specs.c19 import model, tag_at, trigger, Tx, HOW, vec, generator

ASSUME = ['kernel under its contract (C01-C04)', 'powers, SNR, BER and path losses at a moment are C20; what a tag does with its power is C09; where a tag is is C19']
LOW = -120
FIELDS = ['tag_rx_power', 'tag_tx_power', 'reader_rx_power', 'reader_tx_power', 'snr', 'ber', 'reader_tag_pl', 'tag_reader_pl']


class Air(ob.Medium):
    """the medium under its contract: some value for every question, remembered with what was asked"""
    pyvc_model = True
    def __init__(self, b): super().__init__(); self.b = b; self.asked = []
    def say(self, what, tag, time, lo, hi, *rest):
        v = self.b.real(what, lo, hi); self.asked.append((what, tag, time, v, list(tag.pos), *rest)); return v
    def estimate_tag_rx_power(self, reader, tag, time): return None if reader.power is None else self.say('at tag', tag, time, -60, 0)
    def estimate_reader_rx_power(self, reader, tag, time): return None if tag.power is None else self.say('at reader', tag, time, -90, 0)
    def estimate_reader_rx_snr(self, reader, tag, tags, time): return self.say('snr', tag, time, 0, 100)
    def estimate_reader_rx_ber(self, reader, tag, tags, snr): return self.say('ber', tag, None, 0, 0.5, snr)
    def get_forward_path_loss(self, reader, tag, time): return self.say('forward', tag, time, -100, 0)
    def get_backward_path_loss(self, reader, tag, time): return self.say('backward', tag, time, -100, 0)
    for f in (say, estimate_tag_rx_power, estimate_reader_rx_power, estimate_reader_rx_snr, estimate_reader_rx_ber, get_forward_path_loss, get_backward_path_loss): f.pyvc_model = True


def world(b):
    k, m, r = model(b); m.medium = Air(b); r.antenna.pos = vec(b, 'antenna')
    return k, m, r


def last(m, what, tag):
    """the last answer given about that tag"""
    xs = [a for a in m.medium.asked if a[0] == what and a[1] is tag]
    return xs[-1] if xs else None


def describes(b, rec, k, m, r, t, on_at):
    """the record tells the situation of that tag and the reader at this moment"""
    g = lambda n: get(b, rec, n)
    now = k.time; low = lambda v: LOW if v is None else v
    b.ensure('time', b.eq(g('time'), now))
    if r.power is None: b.ensure('no field while the reader is off', g('field_lifetime') == math.inf)
    else: b.ensure('time since the field was switched on', b.eq(g('field_lifetime'), now - on_at))
    b.ensure('position of the tag', b.eq(list(g('tag_pos')), list(t.pos)) and g('tag_pos') is not t.pos)
    b.ensure('antenna in use and its position', b.And(b.eq(g('reader_antenna_index'), r.antenna_index), b.eq(list(g('reader_antenna_pos')), list(r.antenna.pos))))
    b.ensure('power at the tag', b.eq(g('tag_rx_power'), low(t.power)))
    b.ensure('power sent by the tag', b.eq(g('tag_tx_power'), low(t.tx_power)))
    b.ensure('power sent by the reader', b.eq(g('reader_tx_power'), low(r.power)))
    heard = [a for a in m.medium.asked if a[0] == 'at reader' and a[1] is t]      # a reply being built asks as well
    b.ensure('power at the reader', b.eq(g('reader_rx_power'), LOW) if t.power is None else b.Or(*[b.And(b.eq(a[2], now), b.eq(g('reader_rx_power'), a[3])) for a in heard]))
    for n, what in (('snr', 'snr'), ('ber', 'ber'), ('reader_tag_pl', 'forward'), ('tag_reader_pl', 'backward')):
        a = last(m, what, t)
        b.ensure(n, a is not None and b.eq(g(n), a[3]))
        if n != 'ber': b.ensure(n + ' is that of this moment and place', b.And(b.eq(a[2], now), b.eq(a[4], list(t.pos))))
        else: b.ensure('for that SNR', b.eq(a[5], g('snr')))


@case('C28', 'each update adds one record per tag, telling what it saw', samples=500, shards=8)
def step(b):
    k, m, r = world(b)
    how = b.choice('event', HOW); on_at = k.time
    if how != 'turn_reader_on' and b.choice('reader is on', [True, False]):
        b.ensure_ok(b.call(r.turn_on)); k.time = k.time + b.real('on for', 0, 5)
    now = k.time; tags = []
    for i in range(b.choice('tags', [1] if b.symbolic else [1, 0, 2, 5] * 20 + [80, 200])):
        k.time = now - b.real('since the last update', 0, 9); tags.append(tag_at(b, k, i, k.time - 1, k.time)[0])
    k.time = now
    m.tags = list(tags); recs = [b.ensure_ok(b.call(m.statistics.create_tag_record, t)) for t in tags]
    m.statistics.use_power_statistics = b.choice('power statistics', [True, False])
    if how in ('update_positions', 'update_power_at_response_start') and tags and b.choice('in a transaction', [False, True]): m.transaction = Tx(b, None, [(tags[0], None)])
    n = b.choice('updates', [1] if b.symbolic else [1, 2, 4] * 30 + [300, 1200] if len(tags) == 1 else [1, 2, 4])
    for i in range(n):
        if i: k.time = k.time + b.real('later', 0, 3); how = 'update_positions'
        trigger(b, how, k, m, r)
        if how == 'turn_reader_on': on_at = k.time
        for t, rec in zip(tags, recs):
            h = get(b, rec, 'power_mapping')
            if not m.statistics.use_power_statistics: b.ensure('nothing is recorded when not asked for', len(h) == 0); continue
            b.ensure('one record for each update', len(h) == i + 1)
            describes(b, h[-1], k, m, r, t, on_at)
    b.ensure('no record of another kind', all(len(get(b, x, 'inventory_history')) == 0 for x in recs))


@case('C28', 'a tag that enters is recorded at once, and nobody else', samples=120)
def entry(b):
    k, m, r = world(b); on_at = k.time
    if b.choice('reader is on', [True, False]): b.ensure_ok(b.call(r.turn_on)); k.time = k.time + b.real('on for', 0, 5)
    g = generator(b, m)
    other, _ = tag_at(b, k, 77, k.time, k.time); m.tags.append(other); orec = b.ensure_ok(b.call(m.statistics.create_tag_record, other))
    m.statistics.use_power_statistics = b.choice('power statistics', [True, False])
    b.ensure_ok(b.call(hd.generate_tag, k, g))
    t = m.tags[-1]; h = get(b, b.ensure_ok(b.call(m.statistics.get_tag_record, t)), 'power_mapping')
    b.ensure('one record when asked for', len(h) == (1 if m.statistics.use_power_statistics else 0))
    b.ensure('the other tag is not updated', len(get(b, orec, 'power_mapping')) == 0)
    if h: describes(b, h[0], k, m, r, t, on_at)


@case('C28', 'records keep what was seen when everything changes later', samples=120)
def kept(b):
    k, m, r = world(b); b.ensure_ok(b.call(r.turn_on))
    t, _ = tag_at(b, k, 0, k.time, k.time); m.tags = [t]; rec = b.ensure_ok(b.call(m.statistics.create_tag_record, t)); m.statistics.use_power_statistics = True
    trigger(b, 'update_positions', k, m, r)
    h = get(b, rec, 'power_mapping'); first = h[0]
    old = {n: get(b, first, n) for n in FIELDS + ['time', 'field_lifetime', 'reader_antenna_index']}; pos, apos = list(first.tag_pos), list(first.reader_antenna_pos)
    k.time = k.time + b.real('later', 0.1, 5)
    trigger(b, b.choice('then', ['update_positions', 'turn_reader_off']), k, m, r)
    for c in range(3): r.antenna.pos[c] = r.antenna.pos[c] + 1
    if b.choice('the tag leaves', [False, True]):
        b.ensure_ok(b.call(hd.remove_tag, k, t))
        b.ensure('the record moves to the history', len(m.statistics.tags_history) == 1 and m.statistics.tags_history[0] is rec)
    b.ensure('the first record is still the first', len(get(b, rec, 'power_mapping')) == 2 and get(b, rec, 'power_mapping')[0] is first)
    for n, v in old.items(): b.ensure(n + ' kept', b.eq(get(b, first, n), v))
    b.ensure('positions kept', b.And(b.eq(list(first.tag_pos), pos), b.eq(list(first.reader_antenna_pos), apos)))


@case('C28', 'whole runs: one true record per tag and update', mode='native', samples=6, thorough=200, budget=40, shards=2, bound='6 runs of 0.3 s model time with random settings (200 in the thorough tier)', randomize=False)
def runs(b):
    from specs import e2e
    st, gap = e2e.settings(b, collect_power_statistics=True, num_tags=b.choice('few tags', [1, 3]))
    m = e2e.cf.create_model(st); bad = []; s = dict(on=None, n={})
    def close(x, y): return x == y or e2e.near(x, y)

    def after(k, name, a):
        r, md = m.reader, m.medium
        if name == 'turn_reader_on': s['on'] = k.time
        if name == 'turn_reader_off': s['on'] = None
        here = m.tags if name in HOW else [m.tags[-1]] if name == 'generate_tag' and m.tags and m.tags[-1] not in s['n'] else []
        for t in here: s['n'][t] = s['n'].get(t, 0) + 1
        for t in m.tags:
            h = m.statistics.get_tag_record(t).power_mapping
            if len(h) != s['n'].get(t, 0): bad.append(f'{name} at {k.time}: {len(h)} records instead of {s["n"].get(t, 0)}')
        for t in here:
            x = m.statistics.get_tag_record(t).power_mapping[-1]; low = lambda v: LOW if v is None else v
            want = dict(time=k.time, field_lifetime=math.inf if s['on'] is None else k.time - s['on'], reader_antenna_index=r.antenna_index, tag_rx_power=low(t.power), tag_tx_power=low(t.tx_power),
                        reader_rx_power=low(md.estimate_reader_rx_power(r, t, k.time)), reader_tx_power=low(r.power), reader_tag_pl=md.get_forward_path_loss(r, t, k.time),
                        tag_reader_pl=md.get_backward_path_loss(r, t, k.time), snr=md.estimate_reader_rx_snr(r, t, [t], k.time))
            want['ber'] = md.estimate_reader_rx_ber(r, t, [t], want['snr'])
            if name == 'turn_reader_on': want.pop('snr'); want.pop('ber')       # the first command may change how the tag answers
            for n, v in want.items():
                if not close(getattr(x, n), v): bad.append(f'{name} at {k.time}: {n} {getattr(x, n)}, expected {v}')
            if not np.allclose(x.tag_pos, t.pos) or not np.allclose(x.reader_antenna_pos, r.antenna.pos): bad.append('position')
    run = e2e.Run(m, None, after).go(0.3)
    b.trace += bad[:3] + ([run.error] if run.error else [])
    b.ensure('records are true', not bad)
    b.ensure('the run does not break', run.error is None)
