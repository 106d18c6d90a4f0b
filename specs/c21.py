"""C21 Every setting reaches the model object it configures."""
import numpy as np
from pyvc.runner import case
from specs.readerkit import *
from specs.handlerkit import *
import pysim.models.rfid.configurator as cf

ASSUME = ['settings are values of the documented types; the ones that are only passed on are opaque to the proof, so it covers any value of them',
          'what the parameters do once they are in place is C05-C20']

# settings that are copied as they are: setting -> where they arrive
PLAIN = {
    'delim': 'reader.delim', 'temp': 'reader.temp', 'session': 'reader.session', 'target': 'reader.target', 'sel': 'reader.sel', 'dr': 'reader.dr', 'trext': 'reader.trext',
    'target_strategy': 'reader.target_strategy', 'rounds_per_target': 'reader.rounds_per_target', 'reader_power_on_duration': 'reader.power_on_duration',
    'reader_power_off_duration': 'reader.power_off_duration', 'reader_noise': 'reader.noise', 'q': 'reader.q', 'reader_always_start_with_first_antenna': 'reader.always_start_with_first_antenna',
    'reader_antenna_switching_interval': 'reader.antenna_switch_interval', 'reader_antenna_gain': 'antenna.gain', 'reader_cable_loss': 'antenna.cable_loss',
    'ber_distribution': 'medium.ber_distribution', 'ground_reflection_type': 'medium.ground_reflection_type', 'frequency': 'medium.frequency', 'permittivity': 'medium.permittivity',
    'conductivity': 'medium.conductivity', 'polarization_loss': 'medium.polarization_loss', 'use_doppler': 'medium.use_doppler', 'update_interval': 'model.update_interval',
    'collect_power_statistics': 'statistics.use_power_statistics', 'travel_distance': 'generator.travel_distance', 'epc_bitlen': 'generator.epc_bitlen',
    'tag_antenna_gain': 'generator.antenna_gain', 'tag_modulation_loss': 'generator.modulation_loss', 'tag_sensitivity': 'generator.sensitivity',
}
# settings an override replaces: override -> setting
OVER = {'tari': 'tari', 'encoding': 'encoding', 'power': 'reader_power', 'tid_word_size': 'tid_word_size', 'reader_offset': 'reader_antenna_x', 'altitude': 'reader_antenna_z',
        'tag_offset': 'tag_antenna_x', 'useadjust': 'use_query_adjust', 'delta': 'adjust_delta', 'speed': 'speed', 'num_tags': 'num_tags'}
LENGTHS = ['reader_antenna_x', 'reader_antenna_z', 'tag_antenna_x', 'tag_antenna_z', 'initial_distance_to_reader']
LIVES = ['s1_persistence', 's2_persistence', 's3_persistence']


FLAGS = ('trext', 'reader_always_start_with_first_antenna', 'use_doppler', 'collect_power_statistics', 'use_query_adjust', 'useadjust')


def draw(b, n, l=''):
    """a value of a setting or override"""
    if n in LENGTHS or n in ('reader_offset', 'altitude', 'tag_offset'): return b.real(n + l, -20, 20)
    if n == 'tari': return b.real(n + l, 0.000005, 0.00003)
    if n in ('tid_word_size',): return b.int(n + l, 0, 64)
    if n in ('num_tags',): return b.int(n + l, 0, 1000)
    if n in ('q', 'rounds_per_target'): return b.int(n + l, 0, 15)
    if n in ('epc_bitlen',): return b.int(n + l, 4, 32) * 4
    if n in ('speed', 'power', 'delta', 'reader_power', 'adjust_delta') or n in LIVES: return 0 if b.choice('zero ' + n + l, [False] if b.symbolic else [False, True]) else b.real(n + l, 0, 50)
    if n in FLAGS: return b.bool(n + l)
    if b.symbolic: return b.atom(n + l)
    if n in ('temp',): return b.choice(n + l, list(std.TempRange))
    if n in ('session',): return b.choice(n + l, list(std.Session))
    if n in ('target',): return b.choice(n + l, list(std.InventoryFlag))
    if n in ('sel',): return b.choice(n + l, list(std.SelFlag))
    if n in ('dr',): return b.choice(n + l, list(std.DivideRatio))
    if n in ('encoding',): return b.choice(n + l, list(std.TagEncoding))
    if n in ('target_strategy',): return b.choice(n + l, ['const', 'switch'])
    if n in ('ber_distribution',): return b.choice(n + l, ['rayleigh', 'awgn'])
    if n in ('ground_reflection_type',): return b.choice(n + l, ['reflection', 'const'])
    return b.real(n + l, -100, 100)


def given(b):
    """which overrides are passed"""
    s = b.choice('overrides', ['none', 'all'] + ['only ' + n for n in OVER] + ['all but ' + n for n in OVER] + ([] if b.symbolic else ['random'] * 20))
    if s == 'random': return [n for n in OVER if b.choice('given ' + n, [False, True])]
    if s in ('none', 'all'): return list(OVER) if s == 'all' else []
    return [n for n in OVER if s == 'only ' + n] if s.startswith('only') else [n for n in OVER if s != 'all but ' + n]


def world(b, over=None, brief=False, **fixed):
    over = given(b) if over is None else over
    v = {n: fixed[n] if n in fixed else draw(b, n) for n in list(PLAIN) + sorted(set(OVER.values())) + ['tag_antenna_z', 'initial_distance_to_reader'] + LIVES}
    v.update(rtcal_tari_mul=b.real('RTcal multiplier', 2.5, 3), trcal_rtcal_mul=b.real('TRcal multiplier', 1.1, 3))
    pick = lambda n, xs: b.choice(n, xs[:1] if b.symbolic and brief else xs)
    v['reader_switch_power'] = pick('switch power', [True, False])
    v['read_tid_bank'] = pick('read TID', [True, False])
    v['reader_antenna_direction'] = np.array([0., 0., -1.]); v['tag_antenna_direction'] = np.array([0., 0.6, 0.8])
    if pick('floating Q', ['default', 'given']) == 'given': v['q_fp'] = b.real('q_fp', 0, 15)

    def interval(*a): seen.append(a); return b.num(0.25)
    interval.pyvc_model = True
    seen = []
    v['generation_interval'] = (interval,) + ((b.real('interval argument', 0, 9),) if pick('interval with argument', [False, True]) else ())
    kw = {n: draw(b, n) for n in over}
    return v, kw, seen


def build(b, v, kw):
    how = b.choice('settings made', ['at once', 'field by field'])
    if how == 'at once': st = b.ensure_ok(b.call(cf.Settings, **v))
    else:
        st = b.ensure_ok(b.call(cf.Settings)); b.need(st, *v)
        for n, x in v.items(): setattr(st, n, x)
    return st, b.ensure_ok(b.call(cf.create_model, st, **kw))


def check(b, v, kw, m, seen, st=None):
    r, g, med = m.reader, m.generators, m.medium
    b.ensure('there is one generator', len(g) == 1); g = g[0]
    where = dict(model=m, reader=r, antenna=r.antenna, medium=med, generator=g, statistics=m.statistics)
    for n, dst in PLAIN.items():
        o, f = dst.split('.'); b.ensure(f'{dst} is the setting {n}', same(b, getattr(where[o], f), v[n]))
    val = {s: kw.get(o, v[s]) for o, s in OVER.items()}
    for dst, n in (('reader.tari', 'tari'), ('reader.tag_encoding', 'encoding'), ('reader.max_power', 'reader_power'), ('reader.read_tid_words_num', 'tid_word_size'), ('reader.use_query_adjust', 'use_query_adjust'),
                   ('reader.adjust_delta', 'adjust_delta'), ('generator.velocity', 'speed'), ('model.max_tags_num', 'num_tags'), ('generator.max_tags_generated', 'num_tags')):
        o, f = dst.split('.'); b.ensure(f'{dst} is the override or the setting {n}', same(b, getattr(where[o], f), val[n]))
    b.ensure('RTcal comes from the Tari in force', b.eq(r.rtcal, val['tari'] * v['rtcal_tari_mul']))
    b.ensure('TRcal comes from the Tari in force', b.eq(r.trcal, val['tari'] * v['rtcal_tari_mul'] * v['trcal_rtcal_mul']))
    if st is not None: b.ensure('the settings derive RTcal, TRcal and the TID length in the same way', b.eq([st.rtcal, st.trcal, st.tid_bitlen], [v['tari'] * v['rtcal_tari_mul'], v['tari'] * v['rtcal_tari_mul'] * v['trcal_rtcal_mul'], v['tid_word_size'] * 16]))
    b.ensure('the floating Q starts at Q unless set', b.eq(r.q_fp, v['q_fp'] if 'q_fp' in v else v['q']))
    b.ensure('the TID is read exactly when enabled and at least one word is requested', b.eq(r.read_tid_bank, b.And(v['read_tid_bank'], b.lt(0, val['tid_word_size']))))
    b.ensure('the TID holds the words in force', b.eq(g.tid_bitlen, val['tid_word_size'] * 16))
    b.ensure('the power mode is the setting', r.power_control_mode is (ob.Reader.PowerControlMode.PERIODIC if v['reader_switch_power'] else ob.Reader.PowerControlMode.ALWAYS_ON))
    b.ensure('the reader antenna stands where configured', b.eq(list(r.antenna.pos), [val['reader_antenna_x'], 0, val['reader_antenna_z']]))
    b.ensure('the reader antenna looks where configured', b.eq(list(r.antenna.direction_theta), list(v['reader_antenna_direction'])))
    b.ensure('tags start where configured', b.eq(list(g.pos0), [val['tag_antenna_x'], -v['initial_distance_to_reader'], v['tag_antenna_z']]))
    b.ensure('tags move along the road', list(g.direction) == [0, 1, 0])
    b.ensure('tag antennas look where configured', b.eq(list(g.tag_antenna_direction), list(v['tag_antenna_direction'])))
    n = len(seen)
    b.ensure('the interval between tags is the configured function', b.eq(g.interval, b.num(0.25)) and len(seen) == n + 1)
    b.ensure('with its configured arguments', b.eq(list(seen[-1]), list(v['generation_interval'][1:])))
    return val


def same(b, x, y):
    if x is y: return True
    return b.eq(x, y)


@case('C21', 'model, reader, medium, generator and statistics parameters', samples=300, shards=8)
def parameters(b):
    v, kw, seen = world(b)
    st, m = build(b, v, kw)
    check(b, v, kw, m, seen, st)


@case('C21', 'tags created by the model', samples=300, shards=4)
def tags(b):
    words, bits, over = b.choice('words', [1, 4, 16, 64]), b.choice('EPC bits', [16, 32, 96, 128]), b.choice('overrides', [[], ['tid_word_size', 'speed', 'tag_offset']])
    v, kw, seen = world(b, over, True, tid_word_size=words, epc_bitlen=bits)
    if 'tid_word_size' in kw: kw['tid_word_size'] = words = b.choice('words given', [2, 8])
    st, m = build(b, v, kw); g = m.generators[0]
    for i in range(b.choice('tags', [1, 3])):
        t = b.ensure_ok(b.call(g.create_tag, m))
        for k, s in ((1, std.Session.S1), (2, std.Session.S2), (3, std.Session.S3)):
            b.ensure(f'session S{k} persists as configured', b.eq(b.ensure_ok(b.call(t.persistence, s)), v[f's{k}_persistence']))
        b.ensure('antenna gain', same(b, t.antenna.gain, v['tag_antenna_gain']))
        b.ensure('modulation loss', same(b, t.modulation_loss, v['tag_modulation_loss']))
        b.ensure('sensitivity', same(b, t.sensitivity, v['tag_sensitivity']))
        b.ensure('the tag antenna has no cable', b.eq(t.antenna.cable_loss, 0))
        b.ensure('antenna direction', b.eq(list(t.antenna.direction_theta), list(v['tag_antenna_direction'])))
        b.ensure('the EPC has the configured length', len(t.epc) * 4 == bits)
        b.ensure('the TID holds the words in force', len(t.tid) == words * 4)
        b.ensure('speed', same(b, t.velocity, kw.get('speed', v['speed'])))
        b.ensure('start', b.eq(list(t.pos), [kw.get('tag_offset', v['tag_antenna_x']), -v['initial_distance_to_reader'], v['tag_antenna_z']]))


@case('C21', 'no settings at all: the documented defaults', samples=60)
def defaults(b):
    v = {n: getattr(cf.Settings(), n) for n in ('speed', 'tari', 'q', 'reader_power')}
    kw = {n: draw(b, n) for n in (given(b) if not b.symbolic else b.choice('given', [[], ['tari', 'speed'], list(OVER)]))}
    m = b.ensure_ok(b.call(cf.create_model, **kw))
    b.ensure('Tari', b.eq(m.reader.tari, kw.get('tari', v['tari'])))
    b.ensure('speed', b.eq(m.generators[0].velocity, kw.get('speed', v['speed'])))
    b.ensure('power', b.eq(m.reader.max_power, kw.get('power', v['reader_power'])))
    b.ensure('Q', b.eq(m.reader.q, v['q']) and b.eq(m.reader.q_fp, v['q']))


@case('C21', 'two models do not share what they were given', samples=60)
def separate(b):
    v1, k1, s1 = world(b, ['tari', 'power'])
    b1, m1 = build(b, v1, k1)
    v2 = {n: draw(b, n, ' of the second') if n in PLAIN or n in OVER.values() or n in LIVES + LENGTHS else x for n, x in v1.items()}
    build(b, v2, {})
    check(b, v1, k1, m1, s1)


@case('C21', 'whole runs carry the settings to every tag', mode='native', samples=10, thorough=200, budget=40, shards=2, bound='10 runs with random settings (200 in the thorough tier)', randomize=False)
def runs(b):
    from specs import e2e
    life = {f's{i}_persistence': b.choice(f'S{i}', [0.01, 0.5, 3.0]) for i in (1, 2, 3)}
    st, gap = e2e.settings(b, **life, tag_modulation_loss=b.choice('loss', [-12.0, -6.0]), tag_sensitivity=b.choice('sensitivity', [-18.0, -25.0]), tag_antenna_gain=b.choice('gain', [2.0, 4.5]), epc_bitlen=b.choice('EPC bits', [96, 128]))
    m = e2e.cf.create_model(st); bad = []; born = set()

    def after(k, name, a):
        for t in m.tags:
            if t not in born:
                born.add(t)
                got = [t.s1_persistence, t.s2_persistence, t.s3_persistence, t.modulation_loss, t.sensitivity, t.antenna.gain, len(t.epc) * 4]
                want = [life['s1_persistence'], life['s2_persistence'], life['s3_persistence'], st.tag_modulation_loss, st.tag_sensitivity, st.tag_antenna_gain, st.epc_bitlen]
                if got != want: bad.append((got, want))
                if st.tid_word_size and len(t.tid) != 4 * st.tid_word_size: bad.append(t.tid)
                if list(t.pos) != [st.tag_antenna_x, -st.initial_distance_to_reader, st.tag_antenna_z] and t.last_pos_update == k.time: bad.append(list(t.pos))
    r = e2e.Run(m, after=after).go(0.5)
    if r.error: b.assume(False)
    if bad: b.trace.append(bad[:3])
    b.ensure('every tag of the run is as configured', not bad)
    b.ensure('no more tags than configured', sum(1 for e in r.trace if e[1] == 'generate_tag') <= st.num_tags + 1 and m.generators[0].num_tags_generated <= st.num_tags)
