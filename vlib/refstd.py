"""Independent reference of the EPC Gen2 air protocol used by the oracles.

Nothing here imports the code under test.  Enumerations are given as plain
strings/ints: dr '8' | '64/3', m 1|2|4|8, session 0..3, target 'A'|'B',
sel 'ALL' | '~SL' | 'SL', bank 0..3.
"""
DR = {'8': 8.0, '64/3': 64.0 / 3}
DEFAULTS = dict(tari=6.25e-6, rtcal=15.625e-6, trcal=31.25e-6, delim=12.5e-6,
                q=4, dr='8', m=1, sel='ALL', session=0, target='A',
                trext=False, bank=2, word_ptr=0, word_count=4, temp=False,
                rn=0, crc5=0, crc16=0, epc_bytes=12)


def bits(value, width):
    ret = ''
    for k in range(width - 1, -1, -1):
        ret += '1' if (value >> k) & 1 else '0'
    return ret


def ebv(value):
    groups = []
    while True:
        groups.insert(0, value % 128)
        value //= 128
        if value == 0:
            break
    ret = ''
    for i, g in enumerate(groups):
        ret += ('0' if i == len(groups) - 1 else '1') + bits(g, 7)
    return ret


def query(dr, m, trext, sel, session, target, q, crc=0):
    return ('1000' + {'8': '0', '64/3': '1'}[dr] +
            bits({1: 0, 2: 1, 4: 2, 8: 3}[m], 2) +
            ('1' if trext else '0') +
            {'ALL': '00', '~SL': '10', 'SL': '11'}[sel] + bits(session, 2) +
            {'A': '0', 'B': '1'}[target] + bits(q, 4) + bits(crc, 5))


def query_rep(session):
    return '00' + bits(session, 2)


def query_adjust(session, updn):
    return '1001' + bits(session, 2) + {1: '110', 0: '000', -1: '011'}[updn]


def ack(rn):
    return '01' + bits(rn, 16)


def req_rn(rn, crc=0):
    return '11000001' + bits(rn, 16) + bits(crc, 16)


def read(bank, word_ptr, word_count, rn, crc=0):
    return ('11000010' + bits(bank, 2) + ebv(word_ptr) + bits(word_count, 8) +
            bits(rn, 16) + bits(crc, 16))


def decode(s):
    """Inverse of the encoders above (None if malformed)."""
    def num(x):
        return int(x, 2)
    if s.startswith('1001') and len(s) == 9:
        u = {'110': 1, '000': 0, '011': -1}.get(s[6:9])
        return None if u is None else ('QueryAdjust', num(s[4:6]), u)
    if s.startswith('1000') and len(s) == 22:
        sel = {'00': 'ALL', '10': '~SL', '11': 'SL'}.get(s[8:10])
        return ('Query', {'0': '8', '1': '64/3'}[s[4]], 2 ** num(s[5:7]),
                s[7] == '1', sel, num(s[10:12]),
                {'0': 'A', '1': 'B'}[s[12]], num(s[13:17]), num(s[17:22]))
    if s.startswith('00') and len(s) == 4:
        return ('QueryRep', num(s[2:4]))
    if s.startswith('01') and len(s) == 18:
        return ('Ack', num(s[2:18]))
    if s.startswith('11000001') and len(s) == 40:
        return ('ReqRN', num(s[8:24]), num(s[24:40]))
    if s.startswith('11000010'):
        bank, p, v = num(s[8:10]), 10, 0
        while True:
            block = s[p:p + 8]
            if len(block) < 8:
                return None
            v = v * 128 + num(block[1:])
            p += 8
            if block[0] == '0':
                break
        if len(s) != p + 40:
            return None
        return ('Read', bank, v, num(s[p:p + 8]), num(s[p + 8:p + 24]),
                num(s[p + 24:p + 40]))
    return None


# ---- durations -----------------------------------------------------------
def reader_frame(bitstring, tari, rtcal, trcal, delim=12.5e-6):
    n1 = bitstring.count('1')
    n0 = bitstring.count('0')
    d = delim + tari + rtcal
    if bitstring.startswith('1000'):
        d += trcal
    return d + n0 * tari + n1 * (rtcal - tari)


def preamble_bits(m, trext):
    return (18 if trext else 6) if m == 1 else (22 if trext else 10)


REPLY_BITS = {'rn16': 16, 'epc': 32, 'handle': 32, 'data': 33}


def reply_bits(kind, n_bytes=0):
    return REPLY_BITS[kind] + 8 * n_bytes


def blf(dr, trcal):
    return DR[dr] / trcal


def tag_frame(bitlen, dr, trcal, m, trext):
    """Preamble, payload and closing bit."""
    return tag_frame_blf(bitlen, blf(dr, trcal), m, trext)


def tag_frame_blf(bitlen, f, m, trext):
    return (preamble_bits(m, trext) + bitlen + 1) * m / f


# ---- link timings --------------------------------------------------------
FRT = {
    ('64/3', False): [(33.633, .15), (66.033, .22), (67.367, .10),
                      (82.467, .12), (131.967, .10), (198.0, .07),
                      (227.25, .05)],
    ('64/3', True): [(33.633, .15), (66.033, .22), (82.467, .15),
                     (84.133, .10), (131.967, .12), (198.0, .07),
                     (227.25, .05)],
    ('8', False): [(24.75, .19), (25.25, .10), (30.9375, .12), (49.5, .10),
                   (75.0, .07), (202.0, .04)],
    ('8', True): [(24.75, .19), (30.9375, .15), (49.5, .10), (75.0, .07),
                  (202.0, .04)],
}
FRT_EDGES = sorted({e for rows in FRT.values() for e, _ in rows})


def frt(trcal, dr, temp=False):
    rows = FRT[(dr, temp)]
    for edge, v in rows:
        if trcal * 1e6 < edge:
            return v
    return rows[-1][1]


def pri(trcal, dr):
    return trcal / DR[dr]


def t_min(n, rtcal, trcal, dr, temp=False):
    p = pri(trcal, dr)
    if n in (1, 5, 6):
        return max(rtcal, 10 * p) * (1 - frt(trcal, dr, temp)) - 2e-6
    return {2: 3 * p, 3: 0.0, 4: 2 * rtcal, 7: max(20 * p, 250e-6)}[n]


def t_max(n, rtcal, trcal, dr, temp=False):
    p = pri(trcal, dr)
    if n == 1:
        return max(rtcal, 10 * p) * (1 + frt(trcal, dr, temp)) + 2e-6
    return {2: 20 * p, 3: float('inf'), 4: float('inf'), 5: .02, 6: .02,
            7: .02}[n]
