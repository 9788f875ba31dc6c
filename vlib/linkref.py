"""Independent reference of the radio channel and link budget.

Vectors are plain 3-tuples, nothing of the code under test is imported.
The wall is the plane x = 0, its mirror image flips x.
"""
import cmath
import math

C0 = 2.99792458e8
INF = float('inf')


def vec(v):
    return (float(v[0]), float(v[1]), float(v[2]))


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def norm(a):
    return math.sqrt(dot(a, a))


def scale(a, k):
    return (a[0] * k, a[1] * k, a[2] * k)


def unit(a):
    return scale(a, 1 / norm(a))


def db(x):
    """10 log10 with everything below 1e-15 counted as no signal."""
    return 10 * math.log10(x) if x >= 1e-15 else -INF


def undb(x):
    return 10 ** (x / 10)


def dipole(cosine):
    """Gain of a dipole whose main direction is at this cosine to the ray."""
    if cosine <= 1e-9:
        return 0.0
    sine = math.sqrt(max(0.0, 1 - cosine * cosine))
    return abs(math.cos(math.pi / 2 * sine) / cosine)


def fresnel(cosine, share, permittivity, conductivity, wavelen):
    """share: weight of the parallel coefficient."""
    eta = permittivity - 60j * wavelen * conductivity
    sine = math.sqrt(max(0.0, 1 - cosine * cosine))
    c = cmath.sqrt(eta - cosine * cosine)
    par = (sine - c) / (sine + c)
    per = (sine - c / eta) / (sine + c / eta)
    return share * par + (1 - share) * per


def rays(tx, rx, tx_dir, rx_dir, wavelen, reflect, time=0.0,
         velocity=(0.0, 0.0, 0.0), gain=dipole, flip_y=False):
    """The complex contributions (direct, reflected) of the two rays.

    reflect(cosine) is the reflection coefficient, velocity that of the
    receiver relative to the transmitter.  flip_y: the ray mirrored in the
    wall arrives with the y component of its direction inverted (the
    convention of the code under test, which differs only for antennas that
    have a component along the road).
    """
    image = (-rx[0], rx[1], rx[2])
    v0, v1 = sub(rx, tx), sub(image, tx)
    d0, d1 = norm(v0), norm(v1)
    u0, u1 = scale(v0, 1 / d0), scale(v1, 1 / d1)
    # directions towards which the receiver sees the rays coming
    in0 = scale(u0, -1)
    in1 = (u1[0], -u1[1], -u1[2])
    if flip_y:
        in1 = (u1[0], u1[1], -u1[2])
    g0 = gain(dot(u0, tx_dir)) * gain(dot(in0, rx_dir))
    g1 = gain(dot(u1, tx_dir)) * gain(dot(in1, rx_dir))
    k = 2 * math.pi / wavelen
    p0 = d0 - time * dot(u0, velocity)
    p1 = d1 - time * dot(u1, velocity)
    amp = wavelen / (4 * math.pi)
    a0 = amp * g0 / d0 * cmath.exp(-1j * k * p0)
    a1 = reflect(abs(u1[0])) * amp * g1 / d1 * cmath.exp(-1j * k * p1)
    return a0, a1


def pathloss_db(a0, a1):
    return db(abs(a0 + a1) ** 2)


def well_conditioned(a0, a1, tol=1e-6):
    """The sum of the rays is not a difference of nearly equal numbers."""
    s = abs(a0 + a1)
    big = max(abs(a0), abs(a1))
    return s > tol * big and s * s > 2e-15


def snr_full(raw, miller, symbol, preamble, bandwidth, tol=1e-8):
    if raw < tol:
        return 0.0
    angle = 1 / math.sqrt(raw * preamble * bandwidth)
    return miller * raw * symbol * bandwidth * math.cos(angle) ** 2


def qfunc(x):
    return 0.5 * math.erfc(x / math.sqrt(2))


def ber(snr, distr):
    if snr < 1e-8:
        return 0.5
    if distr == 'rayleigh':
        t = math.sqrt(1 + 2 / snr)
        return 0.5 - 1 / t + 2 / math.pi * math.atan(t) / t
    q = qfunc(math.sqrt(snr))
    return 2 * q * (1 - q)


class Budget:
    """Link budget of one configuration, from plain values."""

    def __init__(self, *, frequency, permittivity, conductivity,
                 polarization_loss, use_doppler, reflection_type,
                 ber_distribution, bandwidth, noise):
        self.wavelen = C0 / frequency
        self.permittivity, self.conductivity = permittivity, conductivity
        self.polarization_loss = polarization_loss
        self.use_doppler = use_doppler
        self.reflection_type = reflection_type
        self.distr, self.bandwidth = ber_distribution, bandwidth
        self.noise = noise

    def reflect(self, share):
        if self.reflection_type == 'const':
            return lambda cosine: -1.0 + 0j
        return lambda cosine: fresnel(cosine, share, self.permittivity,
                                      self.conductivity, self.wavelen)

    def path(self, tx, rx, on_interval, velocity, share):
        """All admissible path losses in dB (None: ill-conditioned).

        tx, rx: (pos, unit direction).  Returns a list of (value, tolerance).
        """
        t = on_interval if self.use_doppler else 0.0
        ret = []
        along = abs(rx[1][1]) > 1e-12 or abs(tx[1][1]) > 1e-12
        for flip in ((True, False) if along else (True,)):
            a0, a1 = rays(tx[0], rx[0], tx[1], rx[1], self.wavelen,
                          self.reflect(share), t, velocity, flip_y=flip)
            s = abs(a0 + a1)
            big = max(abs(a0), abs(a1))
            err = (1e-9 + 1e-11 * t) * big   # phases grow with time
            lo, hi = max(0.0, s - err) ** 2, (s + err) ** 2
            ret.append((db(lo) + self.polarization_loss - 1e-7,
                        db(hi) + self.polarization_loss + 1e-7))
        return ret

    def snr(self, rx_power, m, blf, preamble_s):
        if rx_power is None:
            return 0.0
        return snr_full(undb(rx_power - self.noise), m, 1 / blf, preamble_s,
                        self.bandwidth)

    def ber(self, snr):
        return ber(snr, self.distr)


def within(value, ranges, offset=0.0):
    """Is value in one of the (lo, hi) ranges shifted by offset?"""
    value = float(value)
    if math.isnan(value):
        return False
    return any(lo + offset <= value <= hi + offset for lo, hi in ranges)
