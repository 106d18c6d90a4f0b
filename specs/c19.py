"""C19 Tag motion does not depend on the update schedule."""
import numpy as np
from pyvc.runner import case
from specs.readerkit import *
from specs.handlerkit import *

ASSUME = ['kernel under its contract (C01-C04): events run in time order, so the time between two updates is never negative', 'the direction vector is not zero',
          'the power received at a position is C20, what a tag does with it is C09']


class Air(ob.Medium):
    """the medium under its contract: some power for the position the tag has when asked"""
    pyvc_model = True
    def __init__(self, b): super().__init__(); self.b = b; self.asked = []
    def estimate_tag_rx_power(self, reader, tag, time):
        if reader.power is None: self.asked.append((tag, None, list(tag.antenna.pos), time)); return None
        p = self.b.real('received', -60, 0); self.asked.append((tag, p, list(tag.antenna.pos), time)); return p
    def estimate_reader_rx_power(self, reader, tag, time): return None if tag.power is None else -60
    def estimate_reader_rx_snr(self, reader, tag, tags, time): return 10
    def estimate_reader_rx_ber(self, reader, tag, tags, snr): return 0
    def get_forward_path_loss(self, reader, tag, time): return -40
    def get_backward_path_loss(self, reader, tag, time): return -40
    for f in (estimate_tag_rx_power, estimate_reader_rx_power, estimate_reader_rx_snr, estimate_reader_rx_ber, get_forward_path_loss, get_backward_path_loss): f.pyvc_model = True


def model(b):
    k = HKernel(b); m = ob.Model(); k.context = m; m.medium = Air(b); m.statistics.use_power_statistics = False
    r = new_reader(b, link='fixed', q=2, all_settings=False); r.kernel = k; m.reader = r; stir(b, m)
    b.set(r, power_on_duration=b.num(2), power_off_duration=b.num(0.1))
    a = ob.Antenna(); a.pos = [0., 0., 5.]; r.attach_antenna(a)
    m.update_interval = b.real('update interval', 0.001, 1)
    return k, m, r


def generator(b, m):
    g = ob.Generator(); m.generators = [g]
    b.set(g, pos0=np.array([5, -10, 0]) if b.choice('whole metres', [False, True]) else vec(b, 'pos0'), velocity=b.real('speed', 0.1, 100), direction=b.choice('direction', [np.array([0, 1, 0]), np.array([3.0, 0.0, -4.0])]),
          tag_antenna_direction=np.array([0., 0., 1.]), max_tags_generated=-1)
    def interval(): return 1
    interval.pyvc_model = True
    g.set_interval(interval)
    return g


def vec(b, n, lo=-20, hi=20):
    xs = [b.real(f'{n}{c}', lo, hi) for c in 'xyz']
    return np.array(xs, dtype=object) if b.symbolic else np.array(xs)


def tag_at(b, k, i, entered, last):
    """a tag that entered then, and was updated last then: where the claim says it is"""
    t = b.ensure_ok(b.call(ob.Tag, i, k))
    p0, d, v = vec(b, f'p{i}'), vec(b, f'd{i}', -5, 5), b.real(f'v{i}', 0, 60)
    n = b.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); b.assume(b.lt(0.01 if not b.symbolic else b.num(0.01), d[0] * d[0] + d[1] * d[1] + d[2] * d[2]))
    b.need(t, 'velocity', 'direction', 'last_pos_update', 'sensitivity')
    pos = [p0[c] + v * (d[c] / n) * (last - entered) for c in range(3)]
    t.pos = np.array(pos, dtype=object) if b.symbolic else np.array(pos)
    b.set(t, velocity=v, direction=d, last_pos_update=last, sensitivity=b.real('sensitivity', -40, 0))
    if b.choice('powered', [False, True]): b.ensure_ok(b.call(t.set_power, last, b.real('power', 1, 9)))
    goal = lambda now: [p0[c] + v * (d[c] / n) * (now - entered) for c in range(3)]
    return t, goal


HOW = ['update_positions', 'update_power_at_response_start', 'turn_reader_on', 'turn_reader_off']


def trigger(b, how, k, m, r):
    """the event handlers that update positions"""
    if how == 'turn_reader_on':
        m.transaction = None; b.ensure_ok(b.call(hd.turn_reader_on, k, r)); return
    tx = FakeTx(b, None, []) if m.transaction is None else m.transaction
    if how == 'update_positions': b.ensure_ok(b.call(hd.update_positions, k))
    elif how == 'turn_reader_off': b.ensure_ok(b.call(hd.turn_reader_off, k, r))
    else: b.ensure_ok(b.call(hd.update_power_at_response_start, k, tx))


class PowerMap:
    def __init__(self): self.log = []
    def update(self, tag, power): self.log.append((tag, power))
    update.pyvc_model = True


class Tx(FakeTx):
    def __init__(self, b, command, replies): super().__init__(b, command, replies); self.m = PowerMap()
    @property
    def reader_rx_power_map(self): return self.m


@case('C19', 'one update from any state: every tag where it should be, moved once, seen before the move', samples=800, shards=8)
def step(b):
    k, m, r = model(b)
    how = b.choice('event', HOW)
    if how != 'turn_reader_on' and b.choice('reader is on', [True, False]): b.ensure_ok(b.call(r.turn_on))
    now = k.time; tags = []
    for i in range(b.choice('tags', [1] if b.symbolic else [1, 0, 2, 5] * 20 + [80, 200])):
        last = now - b.real('since the last update', 0, 9); entered = last - b.real('from entry to the last update', 0, 90)
        k.time = last; tags.append(tag_at(b, k, i, entered, last))
    k.time = now
    m.tags = [t for t, _ in tags]
    for t in m.tags: b.ensure_ok(b.call(m.statistics.create_tag_record, t))
    m.statistics.use_power_statistics = b.choice('power statistics', [False, True])
    if how in ('update_positions', 'update_power_at_response_start') and m.tags and b.choice('in a transaction', [False, True]): m.transaction = Tx(b, None, [(m.tags[0], None)])
    before = [list(t.pos) for t in m.tags]; held = [t.antenna.pos for t in m.tags]
    trigger(b, how, k, m, r)
    for (t, goal), old in zip(tags, before):
        b.ensure('initial position plus velocity times direction times the time since entry', b.eq(list(t.pos), goal(now)))
        seen = [a for a in m.medium.asked if a[0] is t]
        b.ensure('power estimated once', len(seen) == 1)
        b.ensure('at the position before the move', b.eq(seen[0][2], old))
        b.ensure('now', b.eq(seen[0][3], now))
        p = seen[0][1]
        b.ensure('that is the power of the tag', t.power is None if p is None else b.Or(b.eq(t.power, p) if t.power is not None else False, t.power is None and b.le(p, t.sensitivity)))
    b.ensure('no other tag', [t for t, _ in tags] == m.tags)
    ups = [s for s in k.scheduled if s[2] is hd.update_positions]
    if how == 'update_positions': b.ensure('the next update is one interval later', len(ups) == 1 and ups[0][0] not in k.cancelled and not ups[0][3] and b.eq(ups[0][1], m.update_interval))
    else: b.ensure('no other event touches the update schedule', not ups)
    # and again, as if nothing had happened: a second update at the same time moves nothing
    m.transaction = None; b.ensure_ok(b.call(hd.update_positions, k))
    for t, goal in tags: b.ensure('a second update at the same time moves nothing', b.eq(list(t.pos), goal(now)))
    later = now + b.real('later', 0, 10); k.time = later
    b.ensure_ok(b.call(hd.update_positions, k))
    for t, goal in tags: b.ensure('so does the next update, whenever it comes', b.eq(list(t.pos), goal(later)))


@case('C19', 'one update of any number of tags', mode='sym')
def step_any(b):
    from pyvc.seq import Base, Seq
    k, m, r = model(b)
    if b.choice('reader is on', [True, False]): b.ensure_ok(b.call(r.turn_on))
    now = k.time; entered = b.real('entered', 0); last = b.real('last update', 0); b.assume(b.And(b.le(entered, last), b.le(last, now)))
    t, goal = tag_at(b, k, 1, entered, last); old = list(t.pos)
    base = Base(b, 'tags'); m.tags = Seq(base, t, owned=[t.antenna, t.antenna.pos, t.sessions])
    m.transaction = b.choice('transaction', [None, Tx(b, None, [])])
    b.ensure_ok(b.call(hd.update_positions, k))
    b.ensure('every tag where it should be', b.eq(list(t.pos), goal(now)))
    b.ensure('seen once, before the move', len(m.medium.asked) == 1 and m.medium.asked[0][0] is t and b.And(b.eq(m.medium.asked[0][2], old), b.eq(m.medium.asked[0][3], now)))
    b.ensure('the next update is one interval later', len(k.scheduled) == 1 and k.scheduled[0][2] is hd.update_positions and b.eq(k.scheduled[0][1], m.update_interval))


@case('C19', 'a tag that enters starts at its initial position and moves from that moment on', samples=300, shards=2)
def entry(b):
    k, m, r = model(b)
    if b.choice('reader is on', [True, False]): r._power = r.max_power; r._time_last_turned_on = k.time
    g = generator(b, m)
    d = list(g.direction); n = b.sqrt(sum(x * x for x in d)); p0 = list(g.pos0); born = []
    other, goal = tag_at(b, k, 77, k.time, k.time); m.tags.append(other); b.ensure_ok(b.call(m.statistics.create_tag_record, other))
    b.ensure_ok(b.call(hd.generate_tag, k, g)); born.append((m.tags[-1], k.time))
    b.ensure('a tag enters at its initial position', b.eq(list(m.tags[-1].pos), p0))
    for i in range(b.choice('events', [1] if b.symbolic else [1, 2, 4, 8])):
        dt = b.real('time passes', 0, 3); k.time = k.time + dt
        if b.choice('next', ['tag enters', 'update']) == 'tag enters':
            b.ensure_ok(b.call(hd.generate_tag, k, g)); born.append((m.tags[-1], k.time))
            t = m.tags[-1]; b.ensure('a tag enters at its initial position', b.eq(list(t.pos), p0))
        else:
            b.ensure_ok(b.call(hd.update_positions, k))
            for t, e in born: b.ensure('every tag moved by velocity, direction and time since it entered', b.eq(list(t.pos), [p0[c] + g.velocity * (d[c] / n) * (k.time - e) for c in range(3)]))
            b.ensure('so did the tag that was there before', b.eq(list(other.pos), goal(k.time)))
    b.ensure('the generator keeps its initial position', b.eq(list(g.pos0), p0))


@case('C19', 'the first update comes one interval after the start', samples=40)
def start(b):
    k, m, r = model(b)
    b.ensure_ok(b.call(hd.start_simulation, k))
    ups = k.pending(hd.update_positions)
    b.ensure('one update is pending, one interval later', len(ups) == 1 and not ups[0][3] and b.eq(ups[0][1], m.update_interval))


@case('C19', 'whole runs: every tag where it should be after every update', mode='native', samples=12, thorough=400, budget=40, shards=4, bound='12 runs of up to 0.6 s model time with random settings (400 in the thorough tier)', randomize=False)
def runs(b):
    from specs import e2e
    st, gap = e2e.settings(b, initial_distance_to_reader=b.choice('distance', [1, 3.0]), reader_antenna_x=3, tag_antenna_x=b.choice('offset', [2, 2.5]), tag_antenna_z=b.choice('height', [0, 1.25]))
    m = e2e.cf.create_model(st); bad = []; born = {}; s = dict(n=0)
    m.generators[0].direction = b.choice('direction', [np.asarray([0, 1, 0]), np.asarray([0.0, 3.0, 4.0]), np.asarray([1, 2, -2])])
    u = m.generators[0].direction / np.linalg.norm(m.generators[0].direction); p0 = np.array(m.generators[0].pos0, dtype=float)

    def before(k, name, a): s['pos'] = {t: np.array(t.pos, dtype=float) for t in m.tags}

    def after(k, name, a):
        for t in m.tags:
            if t not in born: born[t] = k.time; s['pos'][t] = p0
        if name == 'update_positions':
            s['n'] += 1
            if not e2e.near(k.time, s['n'] * st.update_interval): bad.append(f'update {s["n"]} at {k.time}')
        if name in HOW:
            for t in m.tags:
                want = p0 + st.speed * u * (k.time - born[t])
                if not np.allclose(np.array(t.pos, dtype=float), want, rtol=1e-9, atol=1e-9): bad.append(f'{name} at {k.time}: tag at {t.pos}, expected {want}')
        else:
            for t in m.tags:
                if not np.allclose(np.array(t.pos, dtype=float), s['pos'][t], rtol=1e-12, atol=1e-12): bad.append(f'{name} moved a tag from {s["pos"][t]} to {t.pos}')
    run = e2e.Run(m, before, after).go(0.6)
    b.trace += bad[:3] + ([run.error] if run.error else [])
    b.ensure('tags are where they should be, updates come on time', not bad)
    b.ensure('the run does not break', run.error is None)
