"""M01..M03: radio channel and link budget."""
import cmath
import math
import warnings

import numpy as np
import scipy.integrate

from vlib import linkref as L
from vlib import refstd as R
from vlib import rfidcases as W
from vlib import rfidrec as X
from vlib.core import check, quiet
from vlib.stub import StubKernel
from checks.epc import DRS, MS
import pysim.models.rfid.channel as chan
import pysim.models.rfid.epcstd as std
import pysim.models.rfid.objects as obj

INF = float('inf')


def logu(rng, lo, hi):
    return 10 ** rng.uniform(math.log10(lo), math.log10(hi))


def fading_mean(s):
    """E[2 Q(1-Q)] for an exponentially distributed SNR of mean s."""
    def f(y):       # instantaneous SNR y**2
        q = L.qfunc(y)
        return 2 * q * (1 - q) * 2 * y / s * math.exp(-y * y / s)
    return sum(scipy.integrate.quad(f, a, b, limit=200)[0] for a, b in
               ((0, 1), (1, 3), (3, 6), (6, 40)))


# --------------------------------------------------------------------------
# M01
# --------------------------------------------------------------------------
@check('M01', 'decibel conversions, effective SNR and bit error rates at '
              'random and boundary arguments (1e-30 .. 1e30) against closed '
              'forms and numerical integration; distinct = function and '
              'argument')
def m01(c):
    rng = c.rng
    edge = [1e-15, 9.99e-16, 1.01e-15, 1e-16, 0.0, 1.0, 10.0, 1e-3, 1000.0,
            1e-8, 9.9e-9]
    for i in range(c.n(3000)):
        v = rng.choice(edge) if i < 60 else rng.choice(
            [logu(rng, 1e-30, 1e30), logu(rng, 1e-14, 1e3), rng.random()])
        c.begin(dict(f='dB', value=v))
        for dbm in (False, True):
            got = chan.to_log(v, dbm=dbm)
            if v < 1e-15:
                c.eq(float(got), -INF, 'no signal is minus infinity', v=v)
            else:
                want = 10 * math.log10(v) + (30 if dbm else 0)
                c.close(got, want, 'to_log', abs_=1e-9, v=v, dbm=dbm)
                c.close(chan.from_log(got, dbm=dbm), v,
                        'from_log inverts to_log', rel=1e-9, v=v, dbm=dbm)
        c.close(chan.to_log(v), chan.to_log(v, dbm=False), 'default unit')
        d = rng.choice([0.0, -120.0, 30.0, rng.uniform(-140, 140)])
        for dbm in (False, True):
            want = 10 ** ((d - (30 if dbm else 0)) / 10)
            c.close(chan.from_log(d, dbm=dbm), want, 'from_log', d=d, dbm=dbm,
                    abs_=0)
            if want >= 1e-14:
                c.close(chan.to_log(chan.from_log(d, dbm=dbm), dbm=dbm), d,
                        'to_log inverts from_log', abs_=1e-9, d=d)
        z = rng.choice([complex(rng.gauss(0, 1), rng.gauss(0, 1)),
                        rng.gauss(0, 1), 0.0, -v ** .5, 1j * v ** .5,
                        cmath.rect(logu(rng, 1e-12, 1e6), rng.uniform(-4, 4))])
        p = abs(z) ** 2
        c.close(chan.to_power(z, log=False), p, 'power of an amplitude', z=z)
        for dbm in (False, True):
            if p > 1.0001e-15:
                c.close(chan.to_power(z, log=True, dbm=dbm),
                        20 * math.log10(abs(z)) + (30 if dbm else 0),
                        'power of an amplitude in dB', abs_=1e-9, z=z)
            elif p < .9999e-15:
                c.eq(float(chan.to_power(z, log=True, dbm=dbm)), -INF,
                     'power of no amplitude', z=z)
        power, noise = rng.uniform(-150, 40), rng.uniform(-120, 0)
        c.close(chan.snr(power, noise), 10 ** ((power - noise) / 10),
                'raw SNR', power=power, noise=noise)
        c.seen(('db', v, d))
        c.count('conversions')
    # effective SNR
    for i in range(c.n(3000)):
        a = dict(snr=rng.choice([logu(rng, 1e-12, 1e12), logu(rng, 1e-2, 1e4),
                                 0.0, 1e-8, 0.99e-8]),
                 miller=rng.choice([1, 2, 4, 8]),
                 symbol=logu(rng, 1e-7, 1e-3),
                 preamble=logu(rng, 1e-6, 1e-2),
                 bandwidth=logu(rng, 1e5, 1e7))
        if rng.random() < .3:
            for k in rng.sample(['miller', 'symbol', 'preamble', 'bandwidth'],
                                rng.randint(1, 4)):
                del a[k]
        full = dict(miller=1, symbol=1.25e-6, preamble=9.3e-6,
                    bandwidth=1.2e6)
        full.update(a)
        c.begin(dict(f='snr_full', args=a))
        got = chan.snr_full(**a)
        s = full['snr']
        if s < 1e-8:
            c.eq(float(got), 0.0, 'no effective SNR without signal', a=a)
        elif s > 1.0001e-8:
            want = L.snr_full(s, full['miller'], full['symbol'],
                              full['preamble'], full['bandwidth'])
            scale_ = full['miller'] * s * full['symbol'] * full['bandwidth']
            angle = 1 / math.sqrt(s * full['preamble'] * full['bandwidth'])
            c.close(got, want, 'effective SNR', rel=1e-8,
                    abs_=scale_ * 1e-14 * (1 + angle) ** 2 + 1e-300, a=a)
            c.expect(-1e-12 <= got <= scale_ * (1 + 1e-9),
                     'effective SNR exceeds its bound', got=got, a=a)
        c.seen(('snr', repr(sorted(a.items()))))
        c.count('snr')
    # bit error rate
    grid = sorted([logu(rng, 1e-9, 1e9) for _ in range(c.n(1500))] +
                  [0.0, 1e-8, 0.99e-8, 1.01e-8, 1e-3, 1.0, 100.0, 1e6])
    for distr in ('rayleigh', 'awgn', 'fixed'):
        prev = 0.5
        for s in grid:
            c.begin(dict(f='ber', snr=s, distr=distr))
            got = float(chan.ber(s, distr))
            if s < 0.9999e-8:
                c.eq(got, 0.5, 'error rate without signal', snr=s)
            elif s > 1.0001e-8:
                c.close(got, L.ber(s, distr), 'bit error rate',
                        rel=1e-9, abs_=4e-15 * max(1, s ** .5), snr=s,
                        distr=distr)
            c.expect(-1e-12 <= got <= 0.5 + 1e-12, 'error rate out of range',
                     got=got, snr=s, distr=distr)
            c.expect(got <= prev + 1e-12, 'error rate grows with the SNR',
                     got=got, prev=prev, snr=s, distr=distr)
            prev = got
            c.seen(('ber', distr, s))
            c.count('ber')
    for s in grid[::max(1, len(grid) // 50)]:
        c.close(chan.ber(s), chan.ber(s, 'rayleigh'), 'default fading', snr=s)
        x = rng.uniform(-6, 6)
        c.close(chan.q_func(x), L.qfunc(x), 'Q function', abs_=1e-12, x=x)
        # E[2 Q(1-Q)] over an exponential power distribution of this mean
        if 1e-3 < s < 1e6:
            val = fading_mean(s)
            c.close(chan.ber(s), val, 'mean error rate under fading',
                    rel=1e-3, abs_=1e-7, snr=s)
            c.count('integrals')
    c.need('integrals', 5)


# --------------------------------------------------------------------------
# M02
# --------------------------------------------------------------------------
def rand_dir(rng, allow_y=True):
    k = rng.random()
    if k < 0.45:
        return rng.choice([(0, 0, 1), (0, 0, -1), (-1, 0, 0), (1, 0, 0)])
    if k < 0.55 and allow_y:
        return rng.choice([(0, 1, 0), (0, -1, 0)])
    y = rng.gauss(0, 1) if allow_y and rng.random() < .7 else 0.0
    v = (rng.gauss(0, 1), y, rng.gauss(0, 1))
    return L.unit(v)


def rand_pos(rng):
    k = rng.random()
    if k < .2:
        return (rng.choice([0.0, 0.5, 1, 2, 3.0, 5]), rng.choice([0, 0.0, -10, 4]),
                rng.choice([0, 5.0, 1, 3]))
    return (logu(rng, 1e-2, 30), rng.uniform(-30, 30), rng.uniform(-5, 30))


def geometry(rng, allow_y=True):
    tx, rx = rand_pos(rng), rand_pos(rng)
    if rng.random() < .25:    # directly above each other or at equal height
        rx = rng.choice([(tx[0], tx[1], tx[2] + rng.uniform(.1, 9)),
                         (tx[0], tx[1] + rng.uniform(.1, 9), tx[2]),
                         (tx[0] + rng.uniform(.1, 9), tx[1], tx[2])])
    if L.norm(L.sub(tx, rx)) < 1e-3:
        rx = (rx[0], rx[1] + 1.0, rx[2])
    tdir, rdir = rand_dir(rng, allow_y), rand_dir(rng, allow_y)
    if rng.random() < .15:   # antennas pointing exactly along the ray
        u = L.unit(L.sub(rx, tx))
        if allow_y or abs(u[1]) < 1e-12:
            tdir, rdir = u, L.scale(u, -1)
    return tx, rx, tdir, rdir


def path(tx, rx, tdir, rdir, wavelen, **kw):
    a = dict(time=0.0, ground_reflection=chan.reflection, wavelen=wavelen,
             tx_pos=np.array(tx, float), tx_dir_theta=np.array(tdir, float),
             tx_dir_phi=np.array([1, 0, 0]), tx_velocity=np.zeros(3),
             tx_rp=chan.rp_dipole, rx_pos=np.array(rx, float),
             rx_dir_theta=np.array(rdir, float),
             rx_dir_phi=np.array([1, 0, 0]), rx_velocity=np.zeros(3),
             rx_rp=chan.rp_dipole)
    a.update(kw)
    return chan.two_ray_pathloss(**a)


def close_c(got, want, tol):
    try:
        got = complex(got)
    except Exception:
        return False
    return abs(got - want) <= tol      # False for NaN


@check('M02', 'random and degenerate geometries, antenna orientations, media, '
              'polarisations, velocities and times; amplitudes against an '
              'independent two-ray sum, reciprocity, free space, gain and '
              'reflection bounds; distinct = geometry')
def m02(c):
    rng = c.rng
    warnings.simplefilter('ignore')
    # antenna gains
    for i in range(c.n(3000)):
        cosine = rng.choice([0.0, 1.0, -1.0, 1e-9, 1e-8, 1e-12, -1e-9,
                             1 - 1e-16, 1 + 2.3e-16, rng.uniform(-1, 1),
                             rng.uniform(-1, 1), rng.uniform(0, 1),
                             1 - logu(rng, 1e-16, 1e-2),
                             logu(rng, 1e-12, 1e-2)])
        if i % 2:
            cosine = np.float64(cosine)
        c.begin(dict(f='dipole', cosine=float(cosine)))
        g = chan.rp_dipole(azimuth=cosine)
        c.expect(-1e-12 <= g <= 1 + 1e-9, 'dipole gain out of [0, 1]',
                 cosine=cosine, gain=g)
        if abs(cosine - 1e-9) > 1e-12:
            c.close(g, L.dipole(cosine), 'dipole gain', abs_=1e-7,
                    cosine=cosine)
        c.eq(float(chan.rp_isotropic(azimuth=cosine)), 1.0, 'isotropic gain')
        t_cos = rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1)])
        wl = rng.choice([.33, .35, .125, rng.uniform(.05, 1)])
        w, l = wl * rng.uniform(.1, .5), wl * rng.uniform(.1, .5)
        if i % 2:
            t_cos = np.float64(t_cos)
        g = chan.rp_patch(a_cos=cosine, t_cos=t_cos, wavelen=wl, width=w,
                          length=l)
        c.expect(-1e-12 <= float(g) <= 1 + 1e-9, 'patch gain out of [0, 1]',
                 cosine=cosine, t_cos=t_cos, gain=g)
        if cosine > 1e-6 and cosine <= 1:
            a_sin = math.sqrt(max(0, 1 - cosine ** 2))
            t_sin = math.sqrt(max(0, 1 - t_cos ** 2))
            x = math.pi / wl * w * a_sin * t_sin
            want = abs((math.sin(x) / x if x else 1.0) *
                       math.cos(math.pi / wl * l * a_sin * t_cos)) * \
                math.sqrt(t_cos ** 2 + (cosine * t_sin) ** 2)
            if a_sin < 1.1e-9:
                want = math.sqrt(t_cos ** 2 + (cosine * t_sin) ** 2)
            c.close(g, want, 'patch gain', abs_=1e-7, cosine=cosine,
                    t_cos=t_cos)
        elif cosine < 0:
            c.eq(float(g), 0.0, 'patch gain behind the antenna')
        c.seen(('gain', float(cosine), float(t_cos)))
        c.count('gains')
    # reflection coefficients
    for i in range(c.n(3000)):
        a = dict(cosine=rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1),
                                    rng.uniform(-1, 1)]),
                 polarization=rng.choice([0, 1, .5, 0.0, 1.0, rng.random()]),
                 permittivity=rng.choice([15.0, 1.5, 4.0, 81.0,
                                          rng.uniform(1.01, 100)]),
                 conductivity=rng.choice([.03, 0.0, 1e-3, 10.0,
                                          logu(rng, 1e-5, 1e3)]),
                 wavelen=rng.choice([.3486, rng.uniform(.01, 3)]))
        c.begin(dict(f='reflection', args=a))
        r = complex(chan.reflection(**a))
        c.expect(abs(r) <= 1 + 1e-9, 'reflection amplifies', r=r, a=a)
        want = L.fresnel(a['cosine'], a['polarization'], a['permittivity'],
                         a['conductivity'], a['wavelen'])
        c.expect(close_c(r, want, 1e-9), 'reflection coefficient', got=r,
                 want=want, a=a)
        c.eq(complex(chan.reflection_constant(**a)), -1 + 0j,
             'constant reflection')
        c.seen(('refl', repr(sorted(a.items()))))
        c.count('reflections')
    # path loss
    for i in range(c.n(3000)):
        sym = rng.random() < .4
        tx, rx, tdir, rdir = geometry(rng, allow_y=not sym)
        wl = L.C0 / rng.choice([860e6, 915e6, 2.4e9,
                                rng.uniform(4e8, 3e9)])
        pol = rng.choice([.5, 1.0, 0.0, rng.random()])
        eps = rng.choice([15.0, rng.uniform(1.1, 80)])
        cond = rng.choice([.03, 0.0, logu(rng, 1e-4, 10)])
        refl = rng.choice(['real', 'real', 'const', 'none'])
        iso = rng.random() < .2
        t = rng.choice([0.0, 0.0, rng.uniform(0, 2), rng.uniform(0, 100)])
        tv = rng.choice([(0, 0, 0), (0, 8.3, 0), tuple(
            rng.gauss(0, 10) for _ in range(3))])
        rv = rng.choice([(0, 0, 0), (0, 8.3, 0), tuple(
            rng.gauss(0, 10) for _ in range(3))])
        info = dict(tx=tx, rx=rx, tdir=tdir, rdir=rdir, wavelen=wl, pol=pol,
                    eps=eps, cond=cond, refl=refl, iso=iso, time=t,
                    tv=tv, rv=rv)
        c.begin(info)
        ref = {'real': lambda cs: L.fresnel(cs, pol, eps, cond, wl),
               'const': lambda cs: -1 + 0j, 'none': lambda cs: 0j}[refl]
        fn = {'real': chan.reflection, 'const': chan.reflection_constant,
              'none': lambda **kw: 0.0}[refl]
        kw = dict(time=t, ground_reflection=fn, polarization=pol,
                  permittivity=eps, conductivity=cond,
                  tx_velocity=np.array(tv, float),
                  rx_velocity=np.array(rv, float))
        gain = L.dipole
        if iso:
            kw.update(tx_rp=chan.rp_isotropic, rx_rp=chan.rp_isotropic)
            gain = (lambda cosine: 1.0)
        wants = [L.rays(tx, rx, tdir, rdir, wl, ref, t, L.sub(rv, tv), gain,
                        flip_y=f) for f in (True, False)]
        z = complex(path(tx, rx, tdir, rdir, wl, **kw))
        c.expect(z == z, 'path loss is not a number')
        ok = False
        for a0, a1 in wants:
            k = 2 * math.pi / wl
            far = k * (L.norm(L.sub(rx, tx)) * 2 +
                       t * (L.norm(tv) + L.norm(rv)) + 60)
            tol = (abs(a0) + abs(a1)) * (3e-7 + 1e-15 * far) + \
                wl * 1e-7 * 1e-2
            ok = ok or close_c(z, a0 + a1, tol)
        c.expect(ok, 'path loss is not the sum of the direct and the '
                 'mirrored ray', got=z, want=[a + b for a, b in wants])
        a0, a1 = wants[0]
        if refl == 'none':
            c.close(abs(z), abs(a0), 'free space attenuation', rel=1e-7,
                    abs_=wl * 1e-9)
            c.count('free space')
        log = float(path(tx, rx, tdir, rdir, wl, log=True, **kw))
        sq = float(path(tx, rx, tdir, rdir, wl, crutch=True, **kw))
        c.expect(log == log and log < INF, 'path loss in dB', got=log)
        if abs(z) ** 2 > 1.0001e-15:
            c.close(log, 20 * math.log10(abs(z)), 'path loss in dB',
                    abs_=1e-6)
        elif abs(z) ** 2 < .9999e-15:
            c.eq(log, -INF, 'no path in dB')
        c.close(sq, abs(z) ** 2, 'squared path loss', rel=1e-7, abs_=1e-20)
        c.count('paths')
        if abs(tdir[1]) < 1e-12 and abs(rdir[1]) < 1e-12 or iso:
            kw2 = dict(kw, tx_velocity=kw['rx_velocity'],
                       rx_velocity=kw['tx_velocity'])
            # opposite roles: the relative velocity seen along the ray is
            # the same
            back = complex(path(rx, tx, rdir, tdir, wl, **kw2))
            vy = abs(tv[0]) + abs(rv[0])
            if t == 0 or vy == 0:
                c.close(abs(back), abs(z), 'path loss is not reciprocal',
                        rel=1e-6, abs_=(abs(a0) + abs(a1)) * 1e-9 + wl * 1e-9,
                        back=back, forth=z)
                c.count('reciprocal')
        c.seen(('path', tx, rx, tdir, rdir, refl, pol, t))
        if i < 2:
            c.sample(dict(info, amplitude=repr(z)))
    c.need('reciprocal', c.n(3000) // 10)
    c.need('free space', c.n(3000) // 10)


# --------------------------------------------------------------------------
# M03
# --------------------------------------------------------------------------
def build(rng):
    """Objects of the model with random attributes, and a plain reference."""
    model = obj.Model()
    kernel = StubKernel(model)
    m = obj.Medium()
    m.bandwidth = rng.choice([1.2e6, 0.6e6, logu(rng, 1e5, 1e7)])
    m.ber_distribution = rng.choice(['rayleigh', 'awgn'])
    m.ground_reflection_type = rng.choice(['reflection', 'reflection',
                                           'const'])
    m.frequency = rng.choice([860e6, 915e6, rng.uniform(8e8, 1e9)])
    m.permittivity = rng.choice([15.0, rng.uniform(1.5, 60)])
    m.conductivity = rng.choice([.03, 0.0, logu(rng, 1e-3, 1)])
    m.polarization_loss = rng.choice([-3.0, 0.0, rng.uniform(-10, 0)])
    m.use_doppler = rng.random() < .7
    model.medium = m
    r = obj.Reader(kernel)
    model.reader = r
    r.noise = rng.choice([-80.0, rng.uniform(-110, -60)])
    r.max_power = rng.choice([31.5, 20.0, 0.0, 0, rng.uniform(0, 36),
                              rng.uniform(0, 36), rng.uniform(-10, 36)])
    r.q = rng.randrange(5)
    r.tag_encoding = MS[rng.choice([1, 2, 4, 8])]
    r.q_fp = r.q
    ants = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        a = obj.Antenna()
        a.pos = np.array(rand_pos(rng), float)
        k = rng.choice([1, 1, 2.5, 1e-3, 1e3])  # directions need not be unit
        a.direction_theta = np.array(L.scale(rand_dir(rng), k), float)
        a.gain, a.cable_loss = rng.uniform(0, 12), rng.uniform(-4, 0)
        r.attach_antenna(a)
        ants.append(a)
    t = obj.Tag(rng.randrange(100), kernel)
    t.sensitivity = rng.choice([-18.0, -300.0, -60.0])
    t.modulation_loss = rng.choice([-12.0, rng.uniform(-30, 0)])
    t.pos = np.array(rand_pos(rng), float)
    t.velocity = rng.choice([8.333, rng.uniform(.1, 40)])
    t.direction = np.array(rng.choice([(0, 1, 0), (0, 2, 0), (0, -1, 0),
                                       rand_dir(rng), (0, 1e-3, 0),
                                       (300, 400, 0)]), float)
    t.antenna.direction_theta = np.array(L.scale(
        rand_dir(rng), rng.choice([1, 1, 1e-3, 1e3])), float)
    t.antenna.gain = rng.uniform(-2, 6)
    t.antenna.cable_loss = rng.choice([0.0, rng.uniform(-3, 0)])
    for a in ants:
        while L.norm(L.sub(L.vec(t.pos), L.vec(a.pos))) < 1e-2:
            t.pos = t.pos + np.array([0.3, 0.5, 0.7])
    for a in ants:          # mostly facing each other
        if rng.random() < .7:
            d = L.unit(L.sub(L.vec(t.pos), L.vec(a.pos)))
            if L.dot(d, L.unit(L.vec(a.direction_theta))) < 0.05:
                a.direction_theta = -a.direction_theta
            if L.dot(d, L.unit(L.vec(t.antenna.direction_theta))) > -0.05:
                t.antenna.direction_theta = -t.antenna.direction_theta
    return kernel, model, m, r, ants, t, budget_of(m, r)


def budget_of(m, r):
    return L.Budget(frequency=m.frequency, permittivity=m.permittivity,
                    conductivity=m.conductivity, use_doppler=m.use_doppler,
                    polarization_loss=m.polarization_loss,
                    reflection_type=m.ground_reflection_type,
                    ber_distribution=m.ber_distribution,
                    bandwidth=m.bandwidth, noise=r.noise)


def alter(rng, m, ant, t):
    """Changes the objects in use; returns what was changed."""
    done = []

    def change(o, attr, value):
        if rng.random() < .5:
            setattr(o, attr, value)
            done.append(attr)
    change(m, 'frequency', rng.choice([860e6, 915e6, rng.uniform(8e8, 1e9)]))
    change(m, 'permittivity', rng.uniform(1.5, 60))
    change(m, 'conductivity', logu(rng, 1e-3, 1))
    change(m, 'ground_reflection_type', rng.choice(['reflection', 'const']))
    change(m, 'polarization_loss', rng.uniform(-10, 0))
    change(m, 'use_doppler', rng.random() < .7)
    change(ant, 'direction_theta', np.array(rand_dir(rng), float))
    change(ant, 'pos', np.array(rand_pos(rng), float))
    change(t.antenna, 'direction_theta', np.array(rand_dir(rng), float))
    change(t, 'velocity', rng.uniform(.1, 40))
    change(t, 'direction', np.array(rand_dir(rng), float))
    if rng.random() < .5:
        t.pos += np.array([0.0, rng.uniform(.05, 2), 0.0])
        done.append('pos of the tag')
    if L.norm(L.sub(L.vec(t.pos), L.vec(ant.pos))) < 1e-2:
        t.pos = t.pos + np.array([0.3, 0.5, 0.7])
    return done


def describe(m, r, t, **kw):
    return dict({k: repr(getattr(m, k)) for k in (
        'bandwidth', 'ber_distribution', 'ground_reflection_type',
        'frequency', 'permittivity', 'conductivity', 'polarization_loss',
        'use_doppler')}, noise=r.noise, power=r.max_power,
        ant=[(list(a.pos), list(a.direction_theta), a.gain, a.cable_loss)
             for a in [r.get_antenna(i) for i in range(r.num_antennas)]],
        tag=(list(t.pos), list(t.antenna.direction_theta), t.antenna.gain,
             t.antenna.cable_loss, t.velocity, list(t.direction),
             t.modulation_loss, t.sensitivity), **kw)


@check('M03', 'random readers, antennas, media and tags with the estimated '
              'powers, SNR and error rates against a reference link budget, '
              'single-term changes, and the power records of whole runs; '
              'distinct = configuration')
def m03(c):
    rng = c.rng
    warnings.simplefilter('ignore')
    for i in range(c.n(1500)):
        kernel, model, m, r, ants, t, b = build(rng)
        kernel.time = t_on = rng.choice([0.0, rng.uniform(0, 100)])
        c.begin(describe(m, r, t, t_on=t_on))
        now = t_on + rng.choice([0.0, rng.uniform(0, 3), rng.uniform(0, 3),
                                 rng.uniform(0, 1000)])
        c.eq(m.estimate_tag_rx_power(r, t, now), None,
             'power at the tag while the reader is off')
        frame = r.turn_on()
        if len(ants) > 1:
            for _ in range(rng.randrange(4)):
                r.select_next_antenna()
        ant = ants[r.antenna_index]
        c.expect(r.antenna is ant, 'selected antenna')
        ra = (L.vec(ant.pos), L.unit(L.vec(ant.direction_theta)))
        ta = (L.vec(t.pos), L.unit(L.vec(t.antenna.direction_theta)))
        v = L.scale(L.unit(L.vec(t.direction)), t.velocity)
        kernel.time = now
        p = m.estimate_tag_rx_power(r, t, now)
        gains = (ant.gain + ant.cable_loss + t.antenna.gain +
                 t.antenna.cable_loss)
        fwd = b.path(ra, ta, now - t_on, v, 0.5)
        c.close(r.tx_power, r.max_power, 'reader power', abs_=1e-9)
        c.expect(p is not None, 'no power at the tag of a reader that is on',
                 power=r.tx_power)
        c.expect(L.within(p, fwd, r.max_power + gains),
                 'power at the tag', got=p,
                 want=[x + r.max_power + gains for x in fwd[0]])
        c.expect(L.within(m.get_forward_path_loss(r, t, now), fwd),
                 'forward path loss', want=fwd)
        c.count('forward')
        before = t.state
        t.set_power(now, p)
        on = t.state is not obj.Tag.State.OFF
        c.expect(on == (p > t.sensitivity), 'tag powered above sensitivity',
                 power=p, sensitivity=t.sensitivity)
        c.seen((i, round(float(p), 6), round(m.frequency)))
        if not on:
            c.eq(m.estimate_reader_rx_power(r, t, now), None,
                 'power at the reader from an unpowered tag')
            c.eq(float(m.estimate_reader_rx_snr(r, t, [t], now)), 0.0,
                 'SNR of an unpowered tag')
            c.eq(float(m.estimate_reader_rx_ber(r, t, [t], 0.0)), 0.5,
                 'error rate of an unpowered tag')
            c.count('unpowered')
            continue
        c.close(t.power, p, 'power kept by the tag')
        if rng.random() < .1:     # 0 dBm is a power like any other
            p = rng.choice([0.0, 0.0, 0])
            t.set_power(now, p)
            c.close(t.power, p, 'power kept by the tag')
            c.count('a power of 0 dBm')
        c.expect(t.tx_power is not None, 'a powered tag sends nothing',
                 power=p)
        c.close(t.tx_power, p + t.modulation_loss, 'power sent by the tag',
                abs_=1e-9)
        if rng.random() < .8:     # the query configures the tag
            dr = rng.choice(['8', '64/3'])
            mm = rng.choice([1, 2, 4, 8])
            trext = rng.random() < .5
            trcal = rng.choice([31.25e-6, 50e-6, rng.uniform(2e-5, 2e-4)])
            pre = std.ReaderPreamble(6.25e-6, 18.75e-6, trcal)
            with quiet():
                t.receive(std.ReaderFrame(pre, std.Query(
                    DRS[dr], MS[mm], trext, std.SelFlag.ALL, std.Session.S0,
                    std.InventoryFlag.A, rng.randrange(5))))
            blf = R.blf(dr, trcal)
            c.close(t.blf, blf, 'tag link frequency')
            c.eq((t.encoding, bool(t.trext)), (MS[mm], trext),
                 'encoding of the tag')
            preamble = R.preamble_bits(mm, trext) * mm / blf
        else:
            blf, mm, trext = t.blf, t.encoding.symbols_per_bit, t.trext
            preamble = R.preamble_bits(mm, trext) * mm / blf
        later = now + rng.choice([0.0, rng.uniform(0, .1)])
        kernel.time = later
        bwd = b.path(ta, ra, later - t_on, L.scale(v, -1), 1.0)
        base = p + t.modulation_loss + gains
        q = m.estimate_reader_rx_power(r, t, later)
        c.expect(q is not None, 'no power at the reader from a powered tag',
                 power=p)
        c.expect(L.within(q, bwd, base), 'power at the reader', got=q,
                 want=[x + base for x in bwd[0]])
        c.expect(L.within(m.get_backward_path_loss(r, t, later), bwd),
                 'backward path loss', want=bwd)
        c.count('backward')
        snr = m.estimate_reader_rx_snr(r, t, [t], later)
        if q == -INF:
            want = 0.0
        else:
            want = b.snr(q, mm, blf, preamble)
        raw = 0.0 if q == -INF else L.undb(q - r.noise)
        if abs(raw - 1e-8) > 1e-12:
            amp = mm * raw / blf * m.bandwidth
            ang = 1 / math.sqrt(max(raw, 1e-8) * preamble * m.bandwidth)
            c.close(snr, want, 'SNR of a reply', rel=1e-8,
                    abs_=amp * 1e-12 * (1 + ang) ** 2 + 1e-300)
            if snr > 1e-6 or snr < 1e-10:
                c.close(m.estimate_reader_rx_ber(r, t, [t], snr),
                        b.ber(float(snr)), 'error rate of a reply',
                        rel=1e-8, abs_=1e-14 * max(1, float(snr) ** .5))
            c.count('snr')
        # every term has weight one
        p0 = m.estimate_tag_rx_power(r, t, later)
        q0 = m.estimate_reader_rx_power(r, t, later)
        if p0 == -INF or q0 == -INF:
            continue
        for what, o, attr, dp, dq in (
                ('antenna gain', ant, 'gain', 1, 1),
                ('cable loss', ant, 'cable_loss', 1, 1),
                ('tag antenna gain', t.antenna, 'gain', 1, 1),
                ('tag cable loss', t.antenna, 'cable_loss', 1, 1),
                ('polarization loss', m, 'polarization_loss', 1, 1),
                ('modulation loss', t, 'modulation_loss', 0, 1)):
            d = rng.uniform(-3, 3)
            old = getattr(o, attr)
            setattr(o, attr, old + d)
            p1 = m.estimate_tag_rx_power(r, t, later)
            q1 = m.estimate_reader_rx_power(r, t, later)
            setattr(o, attr, old)
            c.close(p1 - p0, dp * d, f'weight of {what} at the tag',
                    abs_=1e-6, delta=d)
            c.close(q1 - q0, dq * d, f'weight of {what} at the reader',
                    abs_=1e-6, delta=d)
            c.count('weights')
        # the objects in use take other settings
        what = alter(rng, m, ant, t)
        b = budget_of(m, r)
        ra = (L.vec(ant.pos), L.unit(L.vec(ant.direction_theta)))
        ta = (L.vec(t.pos), L.unit(L.vec(t.antenna.direction_theta)))
        v = L.scale(L.unit(L.vec(t.direction)), t.velocity)
        fwd = b.path(ra, ta, later - t_on, v, 0.5)
        bwd = b.path(ta, ra, later - t_on, L.scale(v, -1), 1.0)
        c.expect(L.within(m.estimate_tag_rx_power(r, t, later), fwd,
                          r.max_power + gains),
                 'power at the tag after a change', changed=what)
        c.expect(L.within(m.estimate_reader_rx_power(r, t, later), bwd, base),
                 'power at the reader after a change', changed=what)
        c.count('changed')
        if i < 2:
            c.sample(dict(tag_rx=float(p), reader_rx=float(q),
                          snr=float(snr)))
    c.need('backward', c.n(1500) // 4)
    c.need('unpowered', c.n(1500) // 100)
    c.need('changed', c.n(1500) // 5)
    c.need('a power of 0 dBm', c.n(1500) // 50)
    m03_runs(c)


class Live:
    """Records of all tags of a run, also of those still present."""

    def __init__(self):
        self.records, self.times, self.switch = {}, [], []
        self.first = {}       # when a tag was first seen in a round

    def __call__(self, rec, e):
        st = rec.model.statistics
        for t in e.present1:
            if t not in self.records:
                self.records[t] = st.get_tag_record(t)
            if t not in self.first and (
                    e.tags1[t].state in X.IN_ROUND or
                    t in e.tags0 and e.tags0[t].state in X.IN_ROUND):
                self.first[t] = e.t
        self.times.append(e.t)
        self.switch = rec.log.on_off

    def queried(self, tag, time):
        return tag in self.first and self.first[tag] < time


def m03_runs(c):
    """The power records of complete runs."""
    rng = c.rng
    kinds = ['friendly', 'any', 'antennas', 'fading', 'flicker', 'any']
    for i in range(c.n(13)):
        kind = kinds[i % len(kinds)] if i % 13 < 12 else 'late'
        f = W.KINDS[kind](rng)
        f.update(power_stats=True)
        if kind != 'late':
            f.update(update=rng.choice([.01, .003, .02]))
        if i % 13 == 6:         # powers below the mark for "no power"
            f.update(modloss=rng.uniform(-140, -112))
        case = X.Case(rng, **f)
        seed = rng.randrange(2 ** 32)
        c.begin(dict(kind=kind, seed=seed,
                     settings={k: repr(v) for k, v in case.p.items()}))
        o = Live()
        X.run_case(case, seed, [o],
                   max_num_events=5000 if i % 13 == 6 else 1000)
        b, p = case.budget(), case.p
        times = set(o.times)
        pre = R.preamble_bits(p['m'], p['trext']) * p['m'] / case.blf
        for tag, h in o.records.items():
            last = -1.0
            for k, x in enumerate(h.power_mapping):
                prev = L.vec(h.power_mapping[max(k - 1, 0)].tag_pos)
                power_record(c, case, b, p, o, tag, x, times, pre, prev)
                c.expect(x.time >= last, 'power records in order of time',
                         got=x.time, last=last)
                last = x.time
            c.count('records', len(h.power_mapping))
            c.count('faint records', sum(bool(
                x.tag_tx_power < obj.MIN_POWER_DBM) for x in h.power_mapping))
            c.expect(h.power_mapping, 'a tag without power records')
    c.need('records', 300)
    c.need('powered records', 100)
    c.need('snr of records', 60)


def power_record(c, case, b, p, o, tag, x, times, pre, prev):
    info = dict(time=x.time, pos=list(x.tag_pos), tag_rx=x.tag_rx_power,
                reader_rx=x.reader_rx_power)
    c.expect(x.time in times, 'power record at the time of an event', **info)
    on = [(a, s) for a, s in o.switch if a <= x.time]
    # at the very instant of a switch either state may have been recorded
    states = {s for a, s in on[-1:]} | {s for a, s in on if a == x.time} | \
        ({not on[-1][1]} if on and on[-1][0] == x.time else set())
    states = states or {False}
    powered = x.reader_tx_power == p['power']
    if not powered:
        c.eq(x.reader_tx_power, obj.MIN_POWER_DBM,
             'recorded power of a reader that is off', **info)
    c.expect(powered in states, 'recorded reader power', on_off=on[-2:],
             **info)
    c.expect(np.allclose(x.reader_antenna_pos,
                         case.antenna(x.reader_antenna_index)[0]),
             'recorded antenna position', got=x.reader_antenna_pos, **info)
    if not powered:
        c.eq((x.tag_rx_power, x.tag_tx_power, x.reader_rx_power),
             (obj.MIN_POWER_DBM,) * 3, 'power without reader', **info)
        c.eq((float(x.snr), float(x.ber)), (0.0, .5),
             'SNR and error rate without reader', **info)
        c.count('dark records')
        return
    starts = [a for a, s in on if s]
    c.close(x.field_lifetime, x.time - starts[-1], 'recorded field lifetime',
            abs_=1e-9, **info)
    pos = L.vec(x.tag_pos)
    tdir = L.unit(p['tag_dir'])
    fwd = b.path(case.antenna(x.reader_antenna_index), (pos, tdir),
                 x.field_lifetime, (0.0, p['speed'], 0.0), 0.5)
    c.expect(L.within(x.reader_tag_pl, fwd), 'recorded forward path loss',
             got=x.reader_tag_pl, want=fwd, **info)
    if x.tag_rx_power == obj.MIN_POWER_DBM:
        c.eq((x.tag_tx_power, x.reader_rx_power), (obj.MIN_POWER_DBM,) * 2,
             'power sent by an unpowered tag', **info)
        c.eq((float(x.snr), float(x.ber)), (0.0, .5),
             'SNR and error rate of an unpowered tag', **info)
        c.count('unpowered records')
        return
    c.count('powered records')
    # the power at the tag is that of its position before or after the move
    # made by the same update
    want = [L.within(x.tag_rx_power, b.path(
        case.antenna(x.reader_antenna_index), (at, tdir), x.field_lifetime,
        (0.0, p['speed'], 0.0), 0.5), p['power'] + case.gains)
        for at in (pos, prev)]
    c.expect(any(want), 'recorded power at the tag', previous=prev, **info)
    c.count('exact power' if want[0] else 'stale power')
    c.close(x.tag_tx_power, x.tag_rx_power + p['modloss'],
            'recorded power sent by the tag', abs_=1e-9, **info)
    bwd = b.path((pos, tdir), case.antenna(x.reader_antenna_index),
                 x.field_lifetime, (0.0, -p['speed'], 0.0), 1.0)
    c.expect(L.within(x.tag_reader_pl, bwd), 'recorded backward path loss',
             got=x.tag_reader_pl, want=bwd, **info)
    if x.tag_reader_pl == -INF:
        return
    c.close(x.reader_rx_power, x.tag_tx_power + x.tag_reader_pl + case.gains,
            'recorded power at the reader', abs_=1e-6, **info)
    raw = L.undb(x.reader_rx_power - p['noise'])
    if raw < 2e-8:
        return
    ang = 1 / math.sqrt(raw * pre * 1.2e6)
    amp = p['m'] * raw / case.blf * 1.2e6
    want = b.snr(x.reader_rx_power, p['m'], case.blf, pre)
    if abs(float(x.snr) - want) <= amp * 1e-9 * (1 + ang) + 1e-12:
        c.count('snr of records')
    elif not o.queried(tag, x.time):
        c.count('snr before the first query')
    else:
        c.fail('recorded SNR', got=x.snr, want=want, **info)
    c.close(x.ber, b.ber(float(x.snr)), 'recorded error rate', rel=1e-7,
            abs_=1e-12, **info)
