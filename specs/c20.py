"""C20 Link budget, path loss, SNR and BER follow the stated formulas."""
import cmath, math, types
import numpy as np
import scipy.integrate, scipy.special
import pysim.models.rfid.channel as ch
from pyvc.runner import case
from pyvc.cx import Cx
from pyvc.sym import Unsupported
from specs.readerkit import *

ASSUME = ['cos, sin, exp, log10, arctan, erf and complex square root are taken as mathematical functions (uninterpreted, with bounds); pi is its double',
          'transmitter and receiver are not at the same point and not mirror images of each other; antenna directions are not zero',
          'SNR below 1e-8 counts as negligible, power below 1e-15 of the transmitted power as no power']


def vec(b, n, lo=-20, hi=20):
    far = b.choice('far away', [1] if b.symbolic else [1] * 7 + [5])
    xs = [b.real(f'{n}{c}', lo, hi) * far for c in 'xyz']
    return np.array(xs, dtype=object) if b.symbolic else np.array(xs)


def arr(b, xs): return np.array(list(xs), dtype=object) if b.symbolic else np.array(xs)
def dot(u, v): return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
def norm(b, u):
    n = b.sqrt(dot(u, u))
    if b.symbolic:
        for x in u: b.assume(b.And(b.le(x, n), b.le(0 - x, n)))       # a vector is at least as long as each of its components
    return n


# ------------------------------------------------------------- reader, tag and medium in arbitrary settings
HALL = [((7, 0, 9.6), (2, 7.2, 0)), ((2, 1, 5), (7, 13, 5)), ((12.5, 0, 5), (3.5, 12, 5))]        # direct and reflected distances are rational
PLACES = [((5, 0, 5), (5, -10, 0)), ((3, 0, 5), (2, 1, 0)), ((1.5, -2, 7), (6, 4, 1.25))]


def link(b, place='some'):
    r = b.ensure_ok(b.call(ob.Reader, Kernel())); t = b.ensure_ok(b.call(ob.Tag, 3, Kernel())); m = ob.Medium()
    b.need(r, 'noise'); b.need(t, 'modulation_loss', 'velocity', 'direction'); b.need(m, 'bandwidth', 'ber_distribution', 'polarization_loss', 'use_doppler', 'frequency', 'permittivity', 'conductivity', 'ground_reflection_type')
    a = ob.Antenna(); p, q = (b.choice('place', HALL[:1] if b.symbolic else HALL[:1] + PLACES)) if place == 'some' else place
    a.pos = arr(b, [b.num(x) for x in p]); a.direction_theta = np.array([0, 0, -1])
    t.pos = arr(b, [b.num(x) for x in q]); t.antenna.direction_theta = np.array([0, 0, 1])
    b.set(a, gain=b.real('reader gain', -5, 12), cable_loss=b.real('reader cable loss', -9, 0)); b.set(t.antenna, gain=b.real('tag gain', -5, 12), cable_loss=b.real('tag cable loss', -9, 0))
    r.attach_antenna(a)
    b.set(r, max_power=b.real('max power', -10, 40), noise=b.real('noise', -120, -20))
    b.set(t, velocity=b.real('speed', 0, 60), direction=np.array([0, 3, 4]), modulation_loss=b.real('modulation loss', -30, 0))
    b.set(m, polarization_loss=b.real('polarization loss', -9, 0), bandwidth=b.real('bandwidth', 1e5, 1e7), ber_distribution=b.choice('distribution', ['rayleigh', 'awgn']), use_doppler=b.choice('doppler', [True, False]))
    return r, t, m


def power_up(b, r, t, on, powered):
    """the reader is on since then, the tag is powered or not"""
    now = b.real('now', 1, 100); age = b.real('on for', 0, 1); r.kernel.time = now - age; t.kernel.time = now
    if on: b.ensure_ok(b.call(r.turn_on))
    if powered:
        b.set(t, sensitivity=-40); b.ensure_ok(b.call(t.set_power, now, b.real('tag power', -30, 10)))
    return now, age


class PathLoss:
    """the path loss under its contract: any number of decibels, or none gets through"""
    def __init__(self, b): self.b = b; self.seen = []; self.l = float('-inf') if b.choice('nothing gets through', [False, True]) else b.real('path loss', -200, 0)
    def __call__(self, **k): self.seen.append(k); return self.l


@case('C20', 'link budget at the tag and at the reader', samples=600)
def budget(b):
    r, t, m = link(b); on = b.choice('reader is on', [True, False]); powered = b.choice('tag is powered', [True, False])
    now, age = power_up(b, r, t, on, powered)
    pl = PathLoss(b); b.stub(ch, 'two_ray_pathloss', pl)
    fixed = r.antenna.gain + t.antenna.gain + r.antenna.cable_loss + t.antenna.cable_loss + pl.l + m.polarization_loss
    p = b.ensure_ok(b.call(m.estimate_tag_rx_power, r, t, now))
    if not on: b.ensure('nothing arrives at the tag when the reader is off', p is None)
    else:
        b.ensure('power at the tag', p is not None and b.eq(p, r.max_power + fixed))
        b.ensure('the path from reader to tag', len(pl.seen) == 1 and ends(b, pl.seen[0], r.antenna, t.antenna)); radio(b, pl.seen[0], m, now, age)
        b.ensure('linear polarization of the reader against the tag', b.eq(pl.seen[0].get('polarization'), b.num(0.5)))
    pl.seen.clear()
    p = b.ensure_ok(b.call(m.estimate_reader_rx_power, r, t, now)) if on else None
    if on and not powered: b.ensure('nothing arrives at the reader when the tag is off', p is None)
    elif on:
        b.ensure('power at the reader', p is not None and b.eq(p, t.power + t.modulation_loss + fixed))
        b.ensure('the path from tag to reader', len(pl.seen) == 1 and ends(b, pl.seen[0], t.antenna, r.antenna)); radio(b, pl.seen[0], m, now, age)
        b.ensure('polarization on the way back', b.eq(pl.seen[0].get('polarization'), 1))


def ends(b, k, tx, rx):
    return b.And(b.eq(list(k['tx_pos']), list(tx.pos)), b.eq(list(k['rx_pos']), list(rx.pos)), b.eq(list(k['tx_dir_theta']), list(tx.direction_theta)), b.eq(list(k['rx_dir_theta']), list(rx.direction_theta)))


def radio(b, k, m, now, age):
    b.ensure('wavelength is speed of light over frequency', b.eq(k['wavelen'] * m.frequency, b.num(2.99792458e8)))
    b.ensure('material of the wall', b.And(b.eq(k['permittivity'], m.permittivity), b.eq(k['conductivity'], m.conductivity)))
    b.ensure('in decibels', k.get('log') is True and not k.get('crutch'))
    if m.use_doppler: b.ensure('Doppler: time since the reader was switched on', b.eq(k['time'], age))


@case('C20', 'relative velocity is the velocity of the tag, whoever transmits', samples=200)
def velocities(b):
    r, t, m = link(b); now, age = power_up(b, r, t, True, True); v = [0, t.velocity * b.num(0.6), t.velocity * b.num(0.8)]
    pl = PathLoss(b); b.stub(ch, 'two_ray_pathloss', pl); b.set(m, use_doppler=True)
    b.ensure_ok(b.call(m.estimate_tag_rx_power, r, t, now)); b.ensure_ok(b.call(m.estimate_reader_rx_power, r, t, now))
    f, g = pl.seen
    b.ensure('forward: the tag moves away from the transmitter', b.eq([x - y for x, y in zip(list(f['rx_velocity']), list(f['tx_velocity']))], v))
    b.ensure('backward: the reader moves the other way', b.eq([x - y for x, y in zip(list(g['rx_velocity']), list(g['tx_velocity']))], [0 - x for x in v]))


# ------------------------------------------------------------- SNR and BER
def snr_formula(b, power, noise, m, blf, pre, bw):
    raw = b.pow(10, (power - noise) / 10)
    return raw, m * raw * (1 / blf) * bw * b.pow(b.uf('cos', 1 / b.sqrt(raw * pre * bw)), 2)


@case('C20', 'SNR: power over noise, encoding, symbol, bandwidth and the preamble in use', samples=1000)
def snr(b):
    r, t, m = link(b); powered = b.choice('tag is powered', [True, False]); now, age = power_up(b, r, t, True, powered)
    pl = PathLoss(b); b.stub(ch, 'two_ray_pathloss', pl)
    enc = std.TagEncoding[b.choice('encoding', ['FM0', 'M2', 'M4', 'M8'])]; trext = b.choice('TRext', [False, True])
    b.need(t, '_encoding', '_blf', '_trext'); b.set(t, _encoding=enc, _blf=b.real('BLF', 40e3, 640e3), _trext=trext)
    s = b.ensure_ok(b.call(m.estimate_reader_rx_snr, r, t, [t], now))
    if not powered: b.ensure('no SNR without a reply', b.eq(s, 0)); return
    if pl.l == float('-inf'): b.ensure('no SNR when nothing gets through', b.eq(s, 0)); return
    power = b.ensure_ok(b.call(m.estimate_reader_rx_power, r, t, now))
    pre = b.ensure_ok(b.call(std.create_tag_preamble(enc, trext).get_duration, t.blf))
    raw, full = snr_formula(b, power, r.noise, {'FM0': 1, 'M2': 2, 'M4': 4, 'M8': 8}[enc.name], t.blf, pre, m.bandwidth)
    b.ensure('SNR of a signal that is not negligible', b.Implies(b.le(b.num(1e-8), raw), b.eq(s, full)))
    b.ensure('SNR of a negligible signal is negligible', b.Implies(b.lt(raw, b.num(1e-8)), b.And(b.le(0, s), b.lt(s, b.num(1e-3)))))


def rayleigh(b, s):
    t = b.sqrt(1 + 2 / s)
    return b.num(0.5) - 1 / t + (2 / b.num(math.pi)) * b.uf('arctan', t) / t


def awgn(b, s):
    q = b.num(0.5) - b.num(0.5) * b.uf('erf', b.sqrt(s) / b.sqrt(2))
    return 2 * q * (1 - q)


@case('C20', 'BER: 0.5 for negligible SNR, otherwise as the medium is configured, always a probability up to 0.5', samples=2000)
def ber(b):
    m = ob.Medium(); b.need(m, 'ber_distribution'); d = b.choice('distribution', ['rayleigh', 'awgn']); b.set(m, ber_distribution=d)
    small = b.choice('negligible', [False, True])
    if small: s = b.real('SNR', 0, 1e-8); b.assume(b.lt(s, b.num(1e-8)))
    else: s = b.real('SNR', 1e-8, 1e12) if b.symbolic else 10 ** b.real('SNR, decades', -7.99, 12)
    e = b.ensure_ok(b.call(m.estimate_reader_rx_ber, None, None, [], s))
    b.ensure('BER within 0 and 0.5', b.And(b.le(b.num(-1e-12), e), b.le(e, b.num(0.5) + b.num(1e-12))))
    if small: b.ensure('BER 0.5 for negligible SNR', b.eq(e, b.num(0.5))); return
    want = (rayleigh if d == 'rayleigh' else awgn)(b, s)
    b.ensure('BER as configured', b.eq(e, want) if b.symbolic else near(e, want, 1e-12))


def near(x, y, tol): return abs(x - y) <= tol + 1e-9 * max(abs(x), abs(y))


@case('C20', 'the Rayleigh formula is the AWGN formula averaged over exponentially distributed SNR', mode='native', samples=60, bound='60 values of the SNR, numerical integration')
def averaged(b):
    s = 10 ** b.real('SNR, decades', -3, 5); m = ob.Medium(); out = {}
    for d in ('rayleigh', 'awgn'): m.ber_distribution = d; out[d] = lambda x, d=d: (setattr(m, 'ber_distribution', d), m.estimate_reader_rx_ber(None, None, [], x))[1]
    avg = scipy.integrate.quad(lambda u: float(out['awgn'](s * u * u)) * math.exp(-u * u) * 2 * u, 0, 6, limit=200)[0]
    b.ensure('average over fading', near(float(out['rayleigh'](s)), avg, 2e-6))


@case('C20', 'SNR and BER as used: an unheard tag is unreadable, a louder tag is not worse', mode='native', samples=1500, bound='1500 random links')
def chain(b):
    r, t, m = link(b); now, age = power_up(b, r, t, True, True); pl = PathLoss(b); b.stub(ch, 'two_ray_pathloss', pl)
    t._blf = b.real('BLF', 40e3, 640e3); t._encoding = std.TagEncoding[b.choice('encoding', ['FM0', 'M2', 'M4', 'M8'])]
    pl.l = b.choice('loss', [float('-inf'), -300., -200., -150., -100., -60.])
    s = m.estimate_reader_rx_snr(r, t, [t], now); e = m.estimate_reader_rx_ber(r, t, [t], s)
    p = t.power + t.modulation_loss + pl.l + m.polarization_loss + r.antenna.gain + t.antenna.gain + r.antenna.cable_loss + t.antenna.cable_loss - r.noise
    if p < -100: b.ensure('BER 0.5 for a signal far below the noise', near(e, 0.5, 1e-3))
    b.ensure('BER within 0 and 0.5', -1e-12 <= e <= 0.5 + 1e-12)


# ------------------------------------------------------------- path loss
def absorb(b, kind):
    """antenna pattern and reflection under their contracts: any number for any angle"""
    def rp(name):
        if not b.symbolic: return lambda azimuth: abs(math.cos(3 * azimuth)) + 0.1
        def f(azimuth): return b.uf(name, azimuth)
        f.pyvc_model = True; return f
    def refl(cosine, wavelen, **k):
        if b.symbolic: return Cx(b.uf('reflection re', cosine, wavelen, k['polarization']), b.uf('reflection im', cosine, wavelen, k['polarization']))
        return complex(math.cos(5 * cosine) * k['polarization'], cosine * 0.3)
    refl.pyvc_model = True
    return rp('pattern of the transmitter'), rp('pattern of the receiver'), refl


def two_ray(b, k, lam, p, q, dp, dq, v, t, rp_t, rp_r, refl):
    """received over transmitted power: direct ray plus the ray by way of the mirror image of the receiver in the wall x = 0"""
    img = [0 - q[0], q[1], q[2]]
    d0v = [x - y for x, y in zip(q, p)]; d1v = [x - y for x, y in zip(img, p)]
    d0, d1 = norm(b, d0v), norm(b, d1v)
    u0 = [x / d0 for x in d0v]; u1 = [x / d1 for x in d1v]
    arrive = [0 - u1[0], u1[1], u1[2]]                      # direction of the reflected ray behind the wall
    g0 = rp_t(azimuth=dot(u0, dp)) * rp_r(azimuth=0 - dot(u0, dq))
    g1 = rp_t(azimuth=dot(u1, dp)) * rp_r(azimuth=0 - dot(arrive, dq))
    r1 = refl(cosine=u1[0], wavelen=lam, polarization=k)
    f = 2 * b.num(math.pi) / lam
    ph0, ph1 = f * (d0 - t * dot(u0, v)), f * (d1 - t * dot(u1, v))
    cos, sin = (lambda x: b.uf('cos', x)), (lambda x: b.uf('sin', x))
    A, B = g0 / d0, g1 / d1
    re = A * cos(ph0) + B * (r1.real * cos(ph1) + r1.imag * sin(ph1))
    im = B * (r1.imag * cos(ph1) - r1.real * sin(ph1)) - A * sin(ph0)
    return (re * re + im * im) * (lam / (4 * b.num(math.pi))) ** 2


def scene(b, p, q):
    """antennas apart from each other, both in front of the wall"""
    d = [x - y for x, y in zip(q, p)]
    if b.symbolic: b.assume(b.And(b.lt(0, norm(b, d)), b.lt(0, dot(d, d))))
    else: b.assume(dot(d, d) > 0.01)
    b.assume(b.And(b.lt(b.num(0.01), p[0]), b.lt(b.num(0.01), q[0])))


def call_args(b, lam, p, q, few=False):
    rp_t, rp_r, refl = absorb(b, None)
    dp, dq = [(arr(b, x), arr(b, y)) for x, y in [([0, 0, -1], [b.num(0.6), 0, b.num(0.8)]), ([b.num(-0.36), b.num(0.8), b.num(0.48)], [b.num(0.48), b.num(-0.36), b.num(0.8)]), ([0, 0, -1], [0, 0, 1])]][b.choice('directions of the antennas', [0, 1] if few or b.symbolic else [0, 1, 2])]
    v, t = vec(b, 'v', -50, 50), b.real('time', 0, 3); k = b.choice('polarization', [b.num(0.5), 1][:1 if few else 2])
    want = two_ray(b, k, lam, p, q, dp, dq, v, t, rp_t, rp_r, refl)
    zero = arr(b, [0, 0, 0]); one = arr(b, [1, -2, 3])
    vt, vr = {'receiver': (zero, v), 'transmitter': (zero - v, zero), 'both': (one, v + one)}[b.choice('who moves', ['both', 'receiver', 'transmitter'][:1 if few else 3])]
    return want, dict(time=t, ground_reflection=refl, wavelen=lam, tx_pos=p, tx_dir_theta=dp, tx_dir_phi=arr(b, [1, 0, 0]), tx_velocity=vt, tx_rp=rp_t, rx_pos=q, rx_dir_theta=dq, rx_dir_phi=arr(b, [1, 0, 0]), rx_velocity=vr, rx_rp=rp_r, polarization=k)


@case('C20', 'two-ray path loss of any geometry, for any antennas and any reflecting wall', samples=800, shards=4)
def tworay(b):
    p, q = vec(b, 'tx'), vec(b, 'rx'); p[0], q[0] = b.real('tx from the wall', 0.01, 20), b.real('rx from the wall', 0.01, 20); scene(b, p, q)
    want, args = call_args(b, b.num(0.3486) if b.symbolic else b.real('wavelength', 0.1, 0.5), p, q)
    out = b.ensure_ok(b.call(ch.two_ray_pathloss, **args))
    b.ensure('received over transmitted power', b.eq(out.real * out.real + out.imag * out.imag, want))


def decibels_of(b, seen):
    """10 log10 |z|^2 under its contract (proved in `to_db`)"""
    if not b.symbolic: return
    def f(value, log=True, dbm=False):
        if not log or dbm: raise Unsupported('other unit')
        value = Cx.of(value); seen.append(value)
        return b.uf('dB', value.re * value.re + value.im * value.im)
    b.stub(ch, 'to_power', f)


@case('C20', 'decibels of a complex amplitude', samples=800)
def to_db(b):
    x, y = b.real('re', -2, 2), b.real('im', -2, 2)
    if not b.symbolic: f = 10.0 ** b.choice('decade', [0, -3, -7, -9]); x, y = x * f, y * f
    p = x * x + y * y
    d = b.ensure_ok(b.call(ch.to_power, Cx(x, y) if b.symbolic else complex(x, y)))
    if isinstance(d, float) and math.isinf(d): b.ensure('no power below 1e-15', d < 0 and b.lt(p, b.num(1.0000001e-15)))
    else: b.ensure('ten times the decimal logarithm of the squared magnitude', b.And(b.le(b.num(0.9999999e-15), p), b.eq(d, 10 * b.uf('log10', p))))


@case('C20', 'two-ray path loss in decibels', samples=800, shards=4)
def decibels(b):
    p, q = vec(b, 'tx'), vec(b, 'rx'); p[0], q[0] = b.real('tx from the wall', 0.01, 20), b.real('rx from the wall', 0.01, 20); scene(b, p, q)
    want, args = call_args(b, b.num(0.3486), p, q, b.symbolic); seen = []; decibels_of(b, seen)
    db = b.ensure_ok(b.call(ch.two_ray_pathloss, log=True, **args))
    if b.symbolic:
        if not seen: raise Unsupported('decibels by other means')
        b.ensure('decibels of received over transmitted power', b.And(b.eq(db, b.uf('dB', seen[-1].re * seen[-1].re + seen[-1].im * seen[-1].im)), b.eq(seen[-1].re * seen[-1].re + seen[-1].im * seen[-1].im, want)))
    else: b.ensure('decibels of received over transmitted power', want < 1.0000001e-15 if math.isinf(db) else near(db, 10 * math.log10(want), 1e-9))


def dipole(c):
    s = math.sqrt(max(0.0, 1 - c * c))
    return abs(math.cos(math.pi / 2 * s) / c) if c > 1e-9 else 0.0


@case('C20', 'half-wave dipole pattern', samples=800)
def pattern(b):
    c = b.real('cosine', -1, 1); a = ob.Antenna()
    rp = b.ensure_ok(b.call(getattr, a, 'radiation_pattern')) if b.symbolic else a.radiation_pattern
    g = b.ensure_ok(b.call(rp, azimuth=c))
    if b.symbolic:
        s = b.sqrt(1 - c * c); x = b.uf('cos', b.num(math.pi) / 2 * s) / c if b.p.decide((c > b.num(1e-9)).z) else 0
        b.ensure('|cos(pi/2 sin) / cos| in front, nothing behind', b.Or(b.eq(g, x), b.eq(g, 0 - x)) if not isinstance(x, int) else b.eq(g, 0)); b.ensure('not negative', b.le(0, g))
    else: b.ensure('|cos(pi/2 sin) / cos| in front, nothing behind', near(g, dipole(c), 1e-12))


def fresnel(b, csq, c, pol, eps, sig, lam):
    eta = (Cx(eps, 0 - 60 * lam * sig) if b.symbolic else complex(eps, -60 * lam * sig))
    s = b.sqrt(1 - c * c); w = csq(eta - c * c)
    par = (s - w) / (s + w); per = (s - w / eta) / (s + w / eta)
    return pol * par + (1 - pol) * per if pol not in (0, 1) else (par if pol == 1 else per)


@case('C20', 'reflection: Fresnel coefficients of the wall, or total', samples=800)
def reflection(b):
    m = ob.Medium(); b.need(m, 'ground_reflection_type'); kind = b.choice('model', ['reflection', 'const']); b.set(m, ground_reflection_type=kind)
    f = get(b, m, 'ground_reflection'); c = b.real('cosine', -1, 1) if not b.symbolic else b.real('cosine', b.num(-0.99), b.num(0.99))
    eps, sig, lam, pol = b.real('permittivity', 1.5, 80), b.real('conductivity', 0, 5), b.real('wavelength', 0.1, 0.5), b.choice('polarization', [b.num(0.5), 1, 0])
    g = b.ensure_ok(b.call(f, cosine=c, polarization=pol, permittivity=eps, conductivity=sig, wavelen=lam))
    if kind == 'const': b.ensure('total reflection', b.And(b.eq(g.real, -1), b.eq(g.imag, 0))); return
    want = fresnel(b, (lambda x: x ** 0.5) if b.symbolic else cmath.sqrt, c, pol, eps, sig, lam)
    b.ensure('Fresnel coefficient', b.And(b.eq(g.real, want.real), b.eq(g.imag, want.imag)) if b.symbolic else abs(complex(g) - want) < 1e-9)


@case('C20', 'with the Doppler effect off path loss depends neither on time nor on velocity', samples=200)
def static(b):
    r, t, m = link(b); b.set(m, use_doppler=False, ground_reflection_type=b.choice('model', ['reflection', 'const'])); now, age = power_up(b, r, t, True, True)
    decibels_of(b, [])
    if b.symbolic:
        rp_t, _, refl = absorb(b, None)
        b.stub(ch, 'rp_dipole', rp_t); b.stub(ch, 'reflection', refl)
    one = b.ensure_ok(b.call(m.estimate_tag_rx_power, r, t, now)), b.ensure_ok(b.call(m.estimate_reader_rx_power, r, t, now))
    b.set(t, velocity=b.real('other speed', 0, 60), direction=np.array([0, 1, 0])); r.kernel.time = later = now + b.real('later', 0, 10)
    two = b.ensure_ok(b.call(m.estimate_tag_rx_power, r, t, later)), b.ensure_ok(b.call(m.estimate_reader_rx_power, r, t, later))
    b.ensure('same power at the tag', b.eq(one[0], two[0])); b.ensure('same power at the reader', b.eq(one[1], two[1]))


@case('C20', 'received powers of the whole chain against an independent computation', mode='native', samples=3000, thorough=60000, bound='3000 random links, each asked again after one thing has changed (60000 in the thorough tier)')
def whole(b):
    r, t, m = link(b); now, age = power_up(b, r, t, True, True)
    r.antenna.pos = np.array([b.real('x', 0.2, 9), b.real('y', -9, 9), b.real('z', 0, 9)]); t.pos = np.array([b.real('x', 0.2, 9), b.real('y', -9, 9), b.real('z', 0, 9)])
    r.antenna.direction_theta = np.array([b.choice('tilt', [0, 0.5]), 0, -1]); t.antenna.direction_theta = np.array([b.choice('tilt', [0, 0, -2]), 0, 1])
    t.direction = np.array([b.choice('sideways', [0, 1]), 1, 0]); m.frequency = b.choice('frequency', [860e6, 915e6]); m.ground_reflection_type = b.choice('model', ['reflection', 'const'])
    m.permittivity, m.conductivity = b.choice('wall', [(15.0, 0.03), (4.0, 0.5)])
    whole_ok(b, r, t, m, now, age, '')
    what = b.choice('changed', ['frequency', 'tilt', 'tag tilt', 'wall', 'model', 'gain', 'loss', 'place', 'antenna', 'speed', 'direction', 'doppler', 'time', 'tag power'])
    if what == 'frequency': m.frequency = 1775e6 - m.frequency
    elif what == 'tilt': r.antenna.direction_theta = np.array([-1, 1, -1])
    elif what == 'tag tilt': t.antenna.direction_theta = np.array([-1, 2, 1])
    elif what == 'wall': m.permittivity, m.conductivity = 7.0, 0.2
    elif what == 'model': m.ground_reflection_type = 'const' if m.ground_reflection_type == 'reflection' else 'reflection'
    elif what == 'gain': r.antenna.gain += 3; t.antenna.cable_loss -= 1
    elif what == 'loss': m.polarization_loss -= 2
    elif what == 'place': t.pos = t.pos + np.array([0, 1.5, 0])
    elif what == 'antenna': r.antenna.pos = r.antenna.pos + np.array([1, 0, 1])
    elif what == 'speed': t.velocity = t.velocity + 9
    elif what == 'direction': t.direction = np.array([1, -1, 2])
    elif what == 'doppler': m.use_doppler = not m.use_doppler
    elif what == 'time': r.kernel.time = now = now + 0.25; age = age + 0.25
    elif what == 'tag power': t.modulation_loss = t.modulation_loss - 4
    whole_ok(b, r, t, m, now, age, ' after a change')


def whole_ok(b, r, t, m, now, age, when):
    lam = 2.99792458e8 / m.frequency; refl = (lambda cosine, wavelen, polarization: fresnel(b, cmath.sqrt, cosine, polarization, m.permittivity, m.conductivity, wavelen)) if m.ground_reflection_type == 'reflection' else (lambda **k: complex(-1, 0))
    rp = lambda azimuth: dipole(azimuth); unit = lambda v: np.array(v) / math.sqrt(sum(x * x for x in v))
    v = t.velocity * unit(t.direction); age = age if m.use_doppler else 0; a, c = unit(r.antenna.direction_theta), unit(t.antenna.direction_theta)
    g = r.antenna.gain + t.antenna.gain + r.antenna.cable_loss + t.antenna.cable_loss + m.polarization_loss
    fw = two_ray(b, 0.5, lam, r.antenna.pos, t.pos, a, c, v, age, rp, rp, refl); bw = two_ray(b, 1.0, lam, t.pos, r.antenna.pos, c, a, -v, age, rp, rp, refl)
    for name, got, tx, p in (('tag', m.estimate_tag_rx_power(r, t, now), r.max_power, fw), ('reader', m.estimate_reader_rx_power(r, t, now), t.power + t.modulation_loss, bw)):
        if abs(p - 1e-15) < 1e-17: continue
        b.ensure(f'power at the {name}{when}', math.isinf(got) if p < 1e-15 else near(got, tx + g + 10 * math.log10(p), 1e-5))
