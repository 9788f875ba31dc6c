"""E01..E06: the EPC Gen2 air protocol (epcstd)."""
import contextlib
import itertools
import math

import numpy as np

from vlib import refstd as R
from vlib.core import check
import pysim.models.rfid.epcstd as std

DRS = {'8': std.DivideRatio.DR_8, '64/3': std.DivideRatio.DR_643}
MS = {1: std.TagEncoding.FM0, 2: std.TagEncoding.M2, 4: std.TagEncoding.M4,
      8: std.TagEncoding.M8}
SELS = {'ALL': std.SelFlag.ALL, '~SL': std.SelFlag.NOT_SEL,
        'SL': std.SelFlag.SEL}
SESS = [std.Session.S0, std.Session.S1, std.Session.S2, std.Session.S3]
TARGETS = {'A': std.InventoryFlag.A, 'B': std.InventoryFlag.B}
BANKS = [std.MemoryBank.RESERVED, std.MemoryBank.EPC, std.MemoryBank.TID,
         std.MemoryBank.USER]
TEMPS = {False: std.TempRange.NOMINAL, True: std.TempRange.EXTENDED}
D = dict(R.DEFAULTS)    # those in force
ATTR = dict(tari='tari', rtcal='rtcal', trcal='trcal', delim='delim', q='Q',
            dr='divide_ratio', m='tag_encoding', sel='sel',
            session='session', target='target', trext='trext',
            bank='read_default_bank', word_ptr='read_default_word_ptr',
            word_count='read_default_word_count', temp='temp_range',
            rn='default_rn', crc5='default_crc5', crc16='default_crc16')


def pick_rn(rng):
    return rng.choice([0, 1, 0xFFFF, 0x8000, 0x7FFF, 0x5555, 0xAAAA,
                       rng.randrange(65536), rng.randrange(65536)])


def pick_ptr(rng):
    return rng.choice([0, 1, 2, 63, 64, 126, 127, 128, 129, 255, 256, 16383,
                       16384, 16385, 2097151, 2097152, 2 ** 31, 2 ** 28 - 1,
                       128 * rng.randrange(200), rng.randrange(128),
                       rng.randrange(2 ** 14), rng.randrange(2 ** 22)])


def pick_count(rng):
    return rng.choice([0, 1, 2, 4, 127, 128, 255, rng.randrange(256)])


def pick_query(rng):
    return dict(dr=rng.choice(list(DRS)), m=rng.choice(list(MS)),
                trext=rng.random() < 0.5, sel=rng.choice(list(SELS)),
                session=rng.randrange(4), target=rng.choice('AB'),
                q=rng.randrange(16))


def maybe(rng, d, prob=0.3):
    """Drop some keys: (given, filled in with defaults)."""
    given = {k: v for k, v in d.items() if rng.random() >= prob}
    full = {k: given.get(k, D[k]) for k in d}
    return given, full


REAL = {'dr': DRS, 'm': MS, 'sel': SELS, 'session': SESS,
        'target': TARGETS, 'bank': BANKS, 'temp': TEMPS}


def real(d):
    """Reference values to objects of the code under test."""
    return {k: REAL[k][v] if k in REAL else v for k, v in d.items()}


def other_defaults(c, rng):
    """System-wide defaults other than those of the library."""
    new = dict(pick_phy(rng), **pick_query(rng))
    new.update(bank=rng.randrange(4), word_ptr=pick_ptr(rng),
               word_count=pick_count(rng), temp=rng.random() < .5,
               rn=pick_rn(rng), crc5=rng.randrange(32), crc16=pick_rn(rng))
    share = rng.choice([.1, .5, 1])
    new = {k: v for k, v in new.items() if rng.random() < share}
    if 'tari' in new or 'rtcal' in new:
        new.update({k: v for k, v in pick_phy(rng).items()
                    if k in ('tari', 'rtcal')})
    c.count('other defaults')
    return new


@contextlib.contextmanager
def in_force(new):
    old_d, p = dict(D), std.stdParams
    old = {ATTR[k]: getattr(p, ATTR[k]) for k in ATTR}
    try:
        D.update(new)
        for k, v in real(new).items():
            setattr(p, ATTR[k], v)
        yield
    finally:
        D.clear()
        D.update(old_d)
        for k, v in old.items():
            setattr(p, k, v)


def some_defaults(c, rng, i):
    """Every third case runs with other defaults."""
    new = other_defaults(c, rng) if i % 3 == 2 else {}
    return new, in_force(new)


def d(v, name):
    return D[name] if v is None else v


def check_command(c, cmd, want, what):
    got = cmd.encode()
    c.eq(got, want, f'{what}: encoded bits')
    c.eq(cmd.bitlen, len(want), f'{what}: bit length')
    c.count(what)


@check('E01', 'all field values of the short commands, random and boundary '
              'values of the others, defaults omitted; bit strings against '
              'the reference encoder and decoder; distinct = bit string')
def e01(c):
    rng = c.rng
    seen = {}

    def note(s, fields):
        other = seen.setdefault(s, fields)
        c.expect(other == fields, 'two commands share a bit string', bits=s,
                 a=other, b=fields)
        c.seen(s)
    combos = list(itertools.product(DRS, MS, (False, True), SELS, range(4),
                                    'AB', range(16)))
    rng.shuffle(combos)
    for dr, m, trext, sel, ses, tgt, q in combos:
        crc = rng.randrange(32)
        c.begin(dict(cmd='Query', f=(dr, m, trext, sel, ses, tgt, q, crc)))
        cmd = std.Query(DRS[dr], MS[m], trext, SELS[sel], SESS[ses],
                        TARGETS[tgt], q, crc)
        want = R.query(dr, m, trext, sel, ses, tgt, q, crc)
        check_command(c, cmd, want, 'Query')
        f = ('Query', dr, m, trext, sel, ses, tgt, q, crc)
        c.eq(R.decode(cmd.encode()), f, 'Query: fields recovered')
        note(want, f)
    for crc in range(32):
        c.eq(std.Query(crc=crc).encode(),
             R.query('8', 1, False, 'ALL', 0, 'A', 4, crc), 'Query CRC')
    for i in range(c.n(1500)):
        new, scope = some_defaults(c, rng, i)
        with scope:
            given, full = maybe(rng, pick_query(rng), 0.5)
            crc = rng.choice([None, rng.randrange(32)])
            c.begin(dict(cmd='Query', given=given, defaults=new))
            cmd = std.Query(**real(given), crc=crc)
            crc = d(crc, 'crc5')
        check_command(c, cmd, R.query(**full, crc=crc), 'Query')
        # fields may be set after the construction
        _, full2 = maybe(rng, pick_query(rng), 0)
        for k, v in real(full2).items():
            setattr(cmd, k, v)
        check_command(c, cmd, R.query(**full2, crc=crc), 'Query')
    for ses in range(4):
        check_command(c, std.QueryRep(SESS[ses]), R.query_rep(ses),
                      'QueryRep')
        note(R.query_rep(ses), ('QueryRep', ses))
        for u in (-1, 0, 1):
            check_command(c, std.QueryAdjust(SESS[ses], u),
                          R.query_adjust(ses, u), 'QueryAdjust')
            note(R.query_adjust(ses, u), ('QueryAdjust', ses, u))
        check_command(c, std.QueryAdjust(SESS[ses]), R.query_adjust(ses, 0),
                      'QueryAdjust')
    check_command(c, std.QueryRep(), R.query_rep(0), 'QueryRep')
    check_command(c, std.QueryAdjust(), R.query_adjust(0, 0), 'QueryAdjust')
    for u in (2, -2, 0.5, 'x', None):
        try:
            s = std.QueryAdjust(SESS[0], u).encode()
        except Exception:
            c.count('refused')
        else:
            c.fail('an undefined adjustment was encoded', updn=u, bits=s)
    step = 1
    for rn in itertools.chain(range(0, 65536, step), [65535, 65534, 1, 2]):
        s = std.Ack(rn).encode()
        if s != R.ack(rn):
            c.fail('Ack: encoded bits', rn=rn, got=s, want=R.ack(rn))
        note(s, ('Ack', rn))
        c.count('Ack')
    check_command(c, std.Ack(None), R.ack(0), 'Ack')
    for _ in range(c.n(4000)):
        rn, crc = pick_rn(rng), pick_rn(rng)
        c.begin(dict(cmd='ReqRN', rn=rn, crc=crc))
        check_command(c, std.ReqRN(rn, crc), R.req_rn(rn, crc), 'ReqRN')
        note(R.req_rn(rn, crc), ('ReqRN', rn, crc))
        ses, u = rng.randrange(4), rng.choice((-1, 0, 1))
        ack, adj, rep = std.Ack(rn), std.QueryAdjust(SESS[ses], u), \
            std.QueryRep(SESS[ses])
        check_command(c, ack, R.ack(rn), 'Ack')
        check_command(c, adj, R.query_adjust(ses, u), 'QueryAdjust')
        check_command(c, rep, R.query_rep(ses), 'QueryRep')
        rn, ses, u = pick_rn(rng), rng.randrange(4), rng.choice((-1, 0, 1))
        ack.rn, adj.session, adj.updn, rep.session = \
            rn, SESS[ses], u, SESS[ses]
        check_command(c, ack, R.ack(rn), 'Ack, fields set later')
        check_command(c, adj, R.query_adjust(ses, u),
                      'QueryAdjust, fields set later')
        check_command(c, rep, R.query_rep(ses), 'QueryRep, fields set later')
    check_command(c, std.ReqRN(), R.req_rn(0, 0), 'ReqRN')
    for _ in range(c.n(6000)):
        f = (rng.randrange(4), pick_ptr(rng), pick_count(rng), pick_rn(rng),
             pick_rn(rng))
        c.begin(dict(cmd='Read', f=f))
        cmd = std.Read(BANKS[f[0]], *f[1:])
        check_command(c, cmd, R.read(*f), 'Read')
        c.eq(R.decode(cmd.encode()), ('Read',) + f, 'Read: fields recovered')
        note(R.read(*f), ('Read',) + f)
        # fields may be set after the construction
        f = (rng.randrange(4), pick_ptr(rng), pick_count(rng), pick_rn(rng),
             pick_rn(rng))
        cmd.bank, cmd.word_ptr, cmd.word_count, cmd.rn, cmd.crc = \
            (BANKS[f[0]],) + f[1:]
        check_command(c, cmd, R.read(*f), 'Read, fields set later')
    for i in range(c.n(600)):
        new, scope = some_defaults(c, rng, i)
        with scope:
            given, full = maybe(rng, dict(
                bank=rng.randrange(4), word_ptr=pick_ptr(rng),
                word_count=pick_count(rng), rn=pick_rn(rng)), 0.5)
            c.begin(dict(cmd='Read', given=given, defaults=new))
            cmds = [std.Read(**real(given)), std.QueryRep(),
                    std.QueryAdjust(updn=1), std.Ack(None), std.ReqRN()]
            want = [R.read(**full, crc=D['crc16']),
                    R.query_rep(D['session']),
                    R.query_adjust(D['session'], 1), R.ack(D['rn']),
                    R.req_rn(D['rn'], D['crc16'])]
        for x, w in zip(cmds, want):
            check_command(c, x, w, type(x).__name__)
    for v in list(range(0, 70000, 1 if c.thorough else 3)) + \
            [pick_ptr(rng) for _ in range(500)]:
        s = std.encode_ebv(v)
        if s != R.ebv(v):
            c.fail('extensible bit vector', value=v, got=s, want=R.ebv(v))
        c.count('EBV')
    c.sample(dict(Query=R.query('64/3', 8, True, 'SL', 3, 'B', 15, 31),
                  Read=R.read(3, 16384, 255, 1, 2)))


def pick_phy(rng):
    tari = rng.choice([6.25e-6, 12.5e-6, 25e-6, rng.uniform(6.25e-6, 25e-6)])
    rtcal = tari * rng.choice([2.5, 3.0, rng.uniform(2.5, 3.0)])
    while True:
        trcal = rtcal * rng.choice([1.1, 3.0, rng.uniform(1.1, 3.0)])
        if not any(abs(trcal * 1e6 - e) < 1e-3 for e in R.FRT_EDGES):
            break
    delim = rng.choice([12.5e-6, rng.uniform(11.8e-6, 13.2e-6)])
    return dict(tari=tari, rtcal=rtcal, trcal=trcal, delim=delim)


def random_command(rng):
    """(name, object, bits)"""
    k = rng.randrange(6)
    if k == 0:
        q = pick_query(rng)
        crc = rng.randrange(32)
        return ('Query', std.Query(**real(q), crc=crc), R.query(**q, crc=crc))
    if k == 1:
        s = rng.randrange(4)
        return 'QueryRep', std.QueryRep(SESS[s]), R.query_rep(s)
    if k == 2:
        s, u = rng.randrange(4), rng.choice([-1, 0, 1])
        return ('QueryAdjust', std.QueryAdjust(SESS[s], u),
                R.query_adjust(s, u))
    if k == 3:
        rn = pick_rn(rng)
        return 'Ack', std.Ack(rn), R.ack(rn)
    if k == 4:
        rn, crc = pick_rn(rng), pick_rn(rng)
        return 'ReqRN', std.ReqRN(rn, crc), R.req_rn(rn, crc)
    f = (rng.randrange(4), pick_ptr(rng), pick_count(rng), pick_rn(rng),
         pick_rn(rng))
    return 'Read', std.Read(BANKS[f[0]], *f[1:]), R.read(*f)


def random_reply(rng):
    """(object, bit length)"""
    k = rng.randrange(4)
    n = rng.choice([0, 1, 2, 8, 12, 62, rng.randrange(64)])
    if k == 0:
        return std.QueryReply(pick_rn(rng)), 16
    if k == 1:
        return std.AckReply(rng.randbytes(n)), 32 + 8 * n
    if k == 2:
        return std.ReqRNReply(pick_rn(rng)), 32
    return std.ReadReply(rng.randbytes(n)), 33 + 8 * n


def drop(rng, d, prob=0.35):
    return {k: (None if rng.random() < prob else v) for k, v in d.items()}


def fill(d):
    return {k: (D[k] if v is None else v) for k, v in d.items()}


def e02_case(c, rng, i, new):
    phy = pick_phy(rng)
    ta, rt, tr, de = (phy[k] for k in ('tari', 'rtcal', 'trcal', 'delim'))
    name, cmd, bits = random_command(rng)
    c.begin(dict(cmd=name, bits=bits, phy=phy, defaults=new))
    opens = name == 'Query'
    du = de + ta + rt + (tr if opens else 0)
    body = bits.count('0') * ta + bits.count('1') * (rt - ta)
    # frame objects
    pre = std.ReaderPreamble(ta, rt, tr, de) if opens else \
        std.ReaderSync(ta, rt, de)
    for x in (cmd, bits):
        fr = std.ReaderFrame(pre, x)
        c.close(fr.preamble_duration, du, 'duration of the preamble')
        c.close(fr.body_duration, body, 'duration of the body')
        c.close(fr.duration, du + body, 'duration of the frame')
        c.close(std.reader_frame_duration(x, ta, rt, tr, de), du + body,
                'reader_frame_duration')
    # a frame that changes after it was asked for its duration
    fr = std.ReaderFrame(pre, cmd)
    first = fr.duration
    name2, cmd2, bits2 = random_command(rng)
    if name2 == name:
        for k in ('dr', 'm', 'trext', 'sel', 'session', 'target', 'q', 'crc',
                  'updn', 'rn', 'bank', 'word_ptr', 'word_count'):
            if hasattr(cmd, k):
                setattr(cmd, k, getattr(cmd2, k))
        c.count('changed commands')
    else:
        fr.command = rng.choice([cmd2, bits2])
    c.close(fr.body_duration, bits2.count('0') * ta +
            bits2.count('1') * (rt - ta), 'duration of a changed frame',
            before=first, now=bits2)
    pre.tari, pre.rtcal = ta * 1.25, rt * 1.5
    c.close(fr.duration, du - ta - rt + pre.tari + pre.rtcal +
            bits2.count('0') * pre.tari +
            bits2.count('1') * (pre.rtcal - pre.tari),
            'duration of a frame with a changed preamble')
    c.close(fr.preamble_duration, du - ta - rt + pre.tari + pre.rtcal,
            'duration of a changed preamble')
    fr.preamble = std.ReaderSync(tr, 3 * tr, de * 2)
    c.close(fr.preamble_duration, de * 2 + 4 * tr,
            'duration of another preamble')
    c.close(fr.duration, de * 2 + 4 * tr + bits2.count('0') * tr +
            bits2.count('1') * 2 * tr,
            'duration of a frame with another preamble')
    if name2 == name:
        bits = bits2
    p0 = std.ReaderPreamble(ta, rt, tr)
    c.close(p0.duration, 12.5e-6 + ta + rt + tr, 'default delimiter')
    c.close(std.ReaderSync(ta, rt).duration, 12.5e-6 + ta + rt,
            'default delimiter')
    # omitted arguments
    g = drop(rng, phy)
    f = fill(g)
    c.close(std.reader_frame_duration(cmd, **g),
            R.reader_frame(bits, **f), 'reader_frame_duration, defaults',
            given=g, cmd=name)
    helper_durations(c, rng, g, f)
    c.count('reader frames')
    # tag frames
    m, trext, dr = rng.choice([1, 2, 4, 8]), rng.random() < 0.5, \
        rng.choice(['8', '64/3'])
    rep, n = random_reply(rng)
    blf = R.blf(dr, tr)
    c.begin(dict(reply=type(rep).__name__, bits=n, m=m, trext=trext,
                 blf=blf, defaults=new))
    tp = std.create_tag_preamble(MS[m], trext)
    tf = std.TagFrame(tp, rep)
    pb = R.preamble_bits(m, trext)
    c.eq(tp.bitlen, pb, 'bits of the tag preamble')
    c.eq(tp.encoding, MS[m], 'encoding of the tag preamble')
    c.eq(tf.bitlen, pb + n + 1, 'bits of the tag frame')
    c.close(tp.get_duration(blf), pb * m / blf,
            'duration of the tag preamble')
    c.close(tf.get_body_duration(blf), n * m / blf,
            'duration of the tag payload')
    want = R.tag_frame_blf(n, blf, m, trext)
    c.close(tf.get_duration(blf), want, 'duration of the tag frame')
    c.close(std.tag_frame_duration(rep, blf, MS[m], trext), want,
            'tag_frame_duration')
    c.close(std.tag_preamble_duration(blf, MS[m], trext), pb * m / blf,
            'tag_preamble_duration')
    c.eq(std.tag_preamble_bitlen(MS[m], trext), pb,
         'tag_preamble_bitlen')
    # the preamble of a frame changes
    tp.extended = not trext
    m2 = rng.choice([2, 4, 8])
    if m != 1:
        tp.m = m2
        c.eq(tp.m, m2, 'symbols per bit of a Miller preamble')
    c.close(tf.get_duration(blf), R.tag_frame_blf(
        n, blf, m if m == 1 else m2, not trext),
        'duration of a tag frame with a changed preamble')
    now = R.preamble_bits(m if m == 1 else m2, not trext)
    c.eq((tp.bitlen, tf.bitlen), (now, now + n + 1),
         'bits of a changed tag preamble and of its frame')
    m3 = rng.choice([1, 2, 4, 8])
    (tf.reply, n3), tx3 = random_reply(rng), rng.random() < 0.5
    tf.preamble = std.create_tag_preamble(MS[m3], tx3)
    c.eq(tf.bitlen, R.preamble_bits(m3, tx3) + n3 + 1,
         'bits of a tag frame with another preamble and payload')
    c.close(tf.get_duration(blf), R.tag_frame_blf(n3, blf, m3, tx3),
            'duration of a tag frame with another preamble and payload')
    gm = rng.choice([None, m])
    gt = rng.choice([None, trext])
    gb = rng.choice([None, blf])
    fm, ft = d(gm, 'm'), d(gt, 'trext')
    fb = gb or R.blf(D['dr'], D['trcal'])
    c.close(std.tag_frame_duration(rep, gb, MS.get(gm), gt),
            R.tag_frame_blf(n, fb, fm, ft), 'tag_frame_duration, defaults')
    c.close(std.tag_preamble_duration(gb, MS.get(gm), gt),
            R.preamble_bits(fm, ft) * fm / fb,
            'tag_preamble_duration, defaults')
    reply_durations(c, rng, dr, tr, m, trext)
    c.count('tag frames')
    if i % 4 in (0, 1):
        elementary(c, rng, phy, dr, m, trext)
    c.seen((bits, round(ta, 9), round(tr, 9), m, trext, n))
    if i < 2:
        c.sample(dict(cmd=name, bits=bits, phy=phy, duration=du + body))


@check('E02', 'random and boundary frames of every kind, encoding and link '
              'parameter set, arguments omitted at random; every interface '
              'against the symbol sum of the reference; distinct = (frame, '
              'parameters)')
def e02(c):
    rng = c.rng
    for i in range(c.n(6000)):
        new, scope = some_defaults(c, rng, i)
        with scope:
            e02_case(c, rng, i, new)
    c.need('reader frames', 1000)
    c.need('elementary', 300)
    c.need('printed tables', 300)


def helper_durations(c, rng, g, f):
    """query_duration & Co. with randomly omitted arguments."""
    o = lambda v: None if rng.random() < 0.3 else v
    q = drop(rng, pick_query(rng))
    fq = fill(q)
    rq = {k: (None if v is None else real({k: v})[k]) for k, v in q.items()}
    crc = o(rng.randrange(32))
    want = R.reader_frame(R.query(**fq, crc=d(crc, 'crc5')), **f)
    c.close(std.query_duration(**g, **rq, crc=crc), want, 'query_duration')
    # fields that are not part of the command are given at random
    other = dict(real(pick_query(rng)), bank=rng.choice(BANKS),
                 word_ptr=pick_ptr(rng), word_count=pick_count(rng),
                 rn=pick_rn(rng), crc5=rng.randrange(32), crc16=pick_rn(rng))
    other = {k: v for k, v in other.items() if rng.random() < 0.3}

    def by_code(code, **kw):
        return std.command_duration(code, **g, **dict(other, **kw))
    c.close(by_code(std.CommandCode.QUERY, **rq, crc5=crc), want,
            'command_duration(QUERY)')
    ses = o(rng.randrange(4))
    rs = None if ses is None else SESS[ses]
    want = R.reader_frame(R.query_rep(d(ses, 'session')), **f)
    c.close(std.query_rep_duration(**g, session=rs), want,
            'query_rep_duration')
    c.close(by_code(std.CommandCode.QUERY_REP, session=rs),
            want, 'command_duration(QUERY_REP)')
    u = rng.choice([-1, 0, 1])
    g3 = {k: g[k] for k in ('tari', 'rtcal', 'delim')}
    c.close(std.query_adjust_duration(**g3, session=rs, updn=u),
            R.reader_frame(R.query_adjust(d(ses, 'session'), u), **f),
            'query_adjust_duration')
    rn = o(pick_rn(rng))
    want = R.reader_frame(R.ack(d(rn, 'rn')), **f)
    c.close(std.ack_duration(**g, rn=rn), want, 'ack_duration')
    c.close(by_code(std.CommandCode.ACK, rn=rn), want,
            'command_duration(ACK)')
    crc = o(pick_rn(rng))
    want = R.reader_frame(R.req_rn(d(rn, 'rn'), d(crc, 'crc16')), **f)
    c.close(std.reqrn_duration(**g, rn=rn, crc=crc), want, 'reqrn_duration')
    c.close(by_code(std.CommandCode.REQ_RN, rn=rn, crc16=crc), want, 'command_duration(REQ_RN)')
    r = drop(rng, dict(bank=rng.randrange(4), word_ptr=pick_ptr(rng),
                       word_count=pick_count(rng)))
    fr = fill(r)
    rr = dict(r, bank=None if r['bank'] is None else BANKS[r['bank']])
    want = R.reader_frame(R.read(**fr, rn=d(rn, 'rn'), crc=d(crc, 'crc16')), **f)
    c.close(std.read_duration(**g, **rr, rn=rn, crc=crc), want,
            'read_duration')
    c.close(by_code(std.CommandCode.READ, **rr, rn=rn, crc16=crc), want, 'command_duration(READ)')
    c.count('helper durations', 11)


def reply_durations(c, rng, dr, tr, m, trext):
    o = lambda v: None if rng.random() < 0.35 else v
    g = dict(dr=o(dr), trcal=o(tr), m=o(m), trext=o(trext))
    f = fill(g)
    kw = dict(dr=DRS.get(g['dr']), trcal=g['trcal'], encoding=MS.get(g['m']),
              trext=g['trext'])
    n = o(rng.choice([0, 1, 12, 62, rng.randrange(64)]))
    w = o(rng.choice([0, 1, 4, 255, rng.randrange(256)]))

    def want(bits):
        return R.tag_frame(bits, f['dr'], f['trcal'], f['m'], f['trext'])
    T = std.ReplyType
    table = [
        (std.query_reply_duration, T.QUERY_REPLY, {}, 16),
        (std.ack_reply_duration, T.ACK_REPLY, dict(epc_bytelen=n),
         32 + 8 * (12 if n is None else n)),
        (std.reqrn_reply_duration, T.REQRN_REPLY, {}, 32),
        (std.read_reply_duration, T.READ_REPLY, dict(words_count=w),
         33 + 16 * d(w, 'word_count'))]
    for fn, typ, extra, bits in table:
        c.close(fn(**kw, **extra), want(bits), fn.__name__)
        size = dict(epc_bytelen=rng.randrange(64),
                    words_count=rng.randrange(256))
        size = {k: v for k, v in size.items() if rng.random() < 0.3}
        c.close(std.reply_duration(typ, **kw, **dict(size, **extra)),
                want(bits),
                f'reply_duration({typ.name})')
        c.count('reply durations', 2)
    c.close(std.get_blf(kw['dr'], kw['trcal']), R.blf(f['dr'], f['trcal']),
            'get_blf')
    c.close(std.tag_bitrate(kw['dr'], kw['trcal'], kw['encoding']),
            R.blf(f['dr'], f['trcal']) / f['m'], 'tag_bitrate')


def elementary(c, rng, phy, dr, m, trext):
    q = pick_query(rng)
    q.update(dr=dr, m=m, trext=trext)
    allv = dict(phy, temp=rng.random() < 0.5, bank=rng.randrange(4),
                word_ptr=pick_ptr(rng), word_count=pick_count(rng), **q)
    g = drop(rng, allv, 0.25)
    f = fill(g)
    kw = {k: (None if v is None else real({k: v})[k]) for k, v in g.items()}
    rn = rng.choice([None, pick_rn(rng)])
    crc = rng.choice([None, rng.randrange(32)])
    epc = rng.choice([None, rng.randbytes(rng.randrange(0, 64)).hex()])
    mem = rng.choice([None, rng.randbytes(rng.randrange(0, 64)).hex()])
    if rn is not None:
        kw['rn'] = rn
    if crc is not None:
        kw['crc'] = crc
    if epc is not None:
        kw['epc'] = epc
    if mem is not None:
        kw['mem'] = mem
    rn, crc = rn or 0, crc or 0
    ne = 12 if epc is None else len(epc) // 2
    nm = 6 if mem is None else len(mem) // 2
    t = std.get_elementary_timings(**kw)
    ph = {k: f[k] for k in ('tari', 'rtcal', 'trcal', 'delim')}
    fq = {k: f[k] for k in ('dr', 'm', 'trext', 'sel', 'session', 'target',
                            'q')}
    tag = lambda b: R.tag_frame(b, f['dr'], f['trcal'], f['m'], f['trext'])
    want = {
        'Query': R.reader_frame(R.query(**fq, crc=crc), **ph),
        'QueryRep': R.reader_frame(R.query_rep(f['session']), **ph),
        'ACK': R.reader_frame(R.ack(rn), **ph),
        'ReqRN': R.reader_frame(R.req_rn(rn, crc), **ph),
        'Read': R.reader_frame(R.read(f['bank'], f['word_ptr'],
                                      f['word_count'], rn, crc), **ph),
        'RN16': tag(16), 'Response': tag(32 + 8 * ne), 'Handle': tag(32),
        'Data': tag(33 + 8 * nm),
        'Tari': f['tari'], 'RTcal': f['rtcal'], 'TRcal': f['trcal'],
        'Delim': f['delim'], 'Q': f['q'], 'WordPtr': f['word_ptr'],
        'WordCount': f['word_count']}
    if not any(abs(f['trcal'] * 1e6 - e) < 1e-3 for e in R.FRT_EDGES):
        for n in range(1, 8):
            want[f'T{n}(min)'] = R.t_min(n, f['rtcal'], f['trcal'], f['dr'],
                                         f['temp'])
            want[f'T{n}(max)'] = R.t_max(n, f['rtcal'], f['trcal'], f['dr'],
                                         f['temp'])
    for k, v in want.items():
        c.close(t[k], v, f'elementary timing {k}', given=g)
    for k, key in (('DR', 'dr'), ('M', 'm'), ('Target', 'target'),
                   ('Sel', 'sel'), ('Session', 'session'), ('Bank', 'bank'),
                   ('TempRange', 'temp')):
        c.eq(t[k], real({key: f[key]})[key], f'elementary timing {k}')
    c.count('elementary')
    printed_timings(c, t, std.prettify_elementary_timings(t))


def printed_timings(c, t, text):
    """Every entry of the table is printed, durations in microseconds."""
    c.expect(isinstance(text, str), 'elementary timings are not printed')
    seen = {}
    for line in text.splitlines():
        name, sep, value = line.partition(':')
        c.expect(sep == ':' and name.strip() not in seen,
                 'a line of the printed table', line=line)
        seen[name.strip()] = value.strip()
    c.eq(set(seen), set(t), 'entries of the printed table')
    for k, v in t.items():
        if isinstance(v, float):
            got, _, unit = seen[k].partition(' ')
            c.eq(unit.strip(), 'us', f'unit of the printed {k}')
            c.expect(float(got) == v or abs(float(got) - v * 1e6) <=
                     1e-7 + 1e-12 * abs(v * 1e6), f'printed {k}',
                     printed=seen[k], value=v)
        elif isinstance(v, bool) or v is None:
            continue
        else:
            c.eq(seen[k], str(v), f'printed {k}')
    c.count('printed tables')


@check('E03', 'dense TRcal sweep incl. both sides of every table edge, all '
              'divide ratios and temperature ranges, arguments omitted at '
              'random; every interface against the reference tables; distinct '
              '= (TRcal, ratio, range)')
def e03(c):
    rng = c.rng
    trcals = [e * (1 + s * 1e-4) * 1e-6 for e in R.FRT_EDGES for s in (-1, 1)]
    trcals += [x * 1e-6 for x in (17.2, 31.25, 33.3, 66.7, 83.3, 133.3, 200,
                                  225, 230, 300, 15, 20)]
    grid = [rng.uniform(15e-6, 240e-6) for _ in range(c.n(2500))]
    n = 0
    for tr in trcals * 4 + grid:
        if any(abs(tr * 1e6 - e) < 1e-3 for e in R.FRT_EDGES):
            continue
        dr = rng.choice(['8', '64/3'])
        temp = rng.random() < 0.5
        rt = rng.choice([tr / 1.1, tr / 3, rng.uniform(15e-6, 75e-6)])
        c.begin(dict(trcal=tr, dr=dr, temp=temp, rtcal=rt))
        for dr in ('8', '64/3'):
            for temp in (False, True):
                n += 1
                new, scope = some_defaults(c, rng, n)
                with scope:
                    one_timing(c, rng, rt, tr, dr, temp)
            c.expect(std.get_frt(tr, DRS[dr], TEMPS[True]) >=
                     std.get_frt(tr, DRS[dr], TEMPS[False]),
                     'extended range is tighter than the nominal one')
            c.seen((round(tr, 10), dr))
    for n in (0, 8, -1, 9):
        for fn in (std.min_link_t, std.max_link_t):
            try:
                v = fn(n)
            except ValueError:
                c.count('refused')
            else:
                c.fail('an undefined timing was returned', index=n, value=v)
    c.need('timings', 10000)


def one_timing(c, rng, rt, tr, dr, temp):
    g = drop(rng, dict(rtcal=rt, trcal=tr, dr=dr, temp=temp), 0.15)
    f = fill(g)
    k = dict(rtcal=g['rtcal'], trcal=g['trcal'], dr=DRS.get(g['dr']),
             temp=TEMPS.get(g['temp']))
    a = (f['rtcal'], f['trcal'], f['dr'], f['temp'])
    lo = [R.t_min(n, *a) for n in range(1, 8)]
    hi = [R.t_max(n, *a) for n in range(1, 8)]
    c.close(std.get_frt(k['trcal'], k['dr'], k['temp']),
            R.frt(f['trcal'], f['dr'], f['temp']), 'frequency tolerance',
            args=g)
    c.close(std.get_pri(k['trcal'], k['dr']), R.pri(f['trcal'], f['dr']),
            'pulse interval', args=g)
    c.close(std.get_blf(k['dr'], k['trcal']), R.blf(f['dr'], f['trcal']),
            'backscatter link frequency', args=g)
    bad = rng.choice([0, 0, 8, -1])
    for fn in (std.link_t, std.min_link_t, std.max_link_t):
        try:
            v = fn(bad, **k)
        except ValueError:
            pass
        else:
            c.fail('an undefined timing was returned', index=bad, value=v)
    got_lo, got_hi = std.min_link_t(None, **k), std.max_link_t(None, **k)
    pairs = std.link_t(None, **k)
    c.eq((len(got_lo), len(got_hi), len(pairs)), (7, 7, 7), 'seven timings')
    for i in range(7):
        n = i + 1
        one = std.link_t(n, **k)
        for v in (got_lo[i], std.min_link_t(n, **k), one[0], pairs[i][0]):
            c.close(v, lo[i], f'T{n} minimum', args=g)
        for v in (got_hi[i], std.max_link_t(n, **k), one[1], pairs[i][1]):
            c.close(v, hi[i], f'T{n} maximum', args=g)
        c.expect(one[0] <= one[1], f'T{n}: minimum exceeds maximum', args=g)
        c.count('timings', 8)
    td = dict(trcal=k['trcal'], dr=k['dr'])
    for got, want, name in (
            (std.link_t1_min(**k), lo[0], 'link_t1_min'),
            (std.link_t1_max(**k), hi[0], 'link_t1_max'),
            (std.link_t2_min(**td), lo[1], 'link_t2_min'),
            (std.link_t2_max(**td), hi[1], 'link_t2_max'),
            (std.link_t3(), lo[2], 'link_t3'),
            (std.link_t4(k['rtcal']), lo[3], 'link_t4'),
            (std.link_t5_min(**k), lo[4], 'link_t5_min'),
            (std.link_t5_max(), hi[4], 'link_t5_max'),
            (std.link_t6_min(**k), lo[5], 'link_t6_min'),
            (std.link_t6_max(), hi[5], 'link_t6_max'),
            (std.link_t7_min(**td), lo[6], 'link_t7_min'),
            (std.link_t7_max(), hi[6], 'link_t7_max')):
        c.close(got, want, name, args=g)


def ref_slot(kind, ops, p, q, temp, is_first, rn, n_epc):
    """Composition of a slot (p: link parameters, q: query fields)."""
    ta = (p['rtcal'], p['trcal'], q['dr'], temp)
    ph = {k: p[k] for k in ('tari', 'rtcal', 'trcal', 'delim')}
    t4 = R.t_min(4, *ta)
    cmd = R.query(**{k: q[k] for k in ('dr', 'm', 'trext', 'sel', 'session',
                                       'target', 'q')}, crc=q['crc5']) \
        if is_first else R.query_rep(q['session'])
    t = R.reader_frame(cmd, **ph)
    if kind == 0:
        return t + max(R.t_max(1, *ta) + R.t_min(3, *ta), t4)
    t1, t2 = R.t_min(1, *ta), R.t_min(2, *ta)
    tag = lambda b: R.tag_frame(b, q['dr'], p['trcal'], q['m'], q['trext'])
    t += max(t1 + tag(16) + t2, t4)
    if kind == 1:
        return t
    t += R.reader_frame(R.ack(rn), **ph) + max(t1 + tag(32 + 8 * n_epc) + t2,
                                               t4)
    if kind == 3:
        for bank, ptr, cnt in ops or []:
            t += max(R.reader_frame(R.read(bank, ptr, cnt, rn, q['crc16']),
                                    **ph) + t1 + tag(33 + 16 * cnt) + t2, t4)
    return t


KINDS = [std.SlotType.EMPTY, std.SlotType.COLLISION, std.SlotType.INVENTORY,
         std.SlotType.ACCESS]


def e04_case(c, rng, i, new):
    phy = pick_phy(rng)
    allv = dict(phy, temp=rng.random() < 0.5, **pick_query(rng))
    g = drop(rng, allv, rng.choice([0, 0.3]))
    if (g['tari'] is None) != (g['rtcal'] is None):
        # only together, else a data-1 might be shorter than a data-0
        g['tari'], g['rtcal'] = phy['tari'], phy['rtcal']
    f = fill(g)
    kw = {k: (None if v is None else real({k: v})[k])
          for k, v in g.items()}
    rn = pick_rn(rng)
    n_epc = rng.choice([None, 12, 0, 62, rng.randrange(64)])
    crc5, crc16 = rng.choice([None, rng.randrange(32)]), \
        rng.choice([None, pick_rn(rng)])
    first = rng.random() < 0.5
    ops, real_ops = None, None
    if rng.random() < 0.8:
        ops, real_ops = [], []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            o = (rng.randrange(4), pick_ptr(rng), pick_count(rng))
            op = std.TagReadOp()
            op.bank, op.word_ptr, op.word_count = BANKS[o[0]], o[1], o[2]
            ops.append(o)
            real_ops.append(op)
    c.begin(dict(given=g, rn=rn, epc=n_epc, crc5=crc5, crc16=crc16,
                 first=first, ops=ops, defaults=new))
    q = dict(f, crc5=d(crc5, 'crc5'),
             crc16=d(crc16, 'crc16'))
    args = dict(kw, rn=rn, epc=n_epc, crc5=crc5, crc16=crc16,
                is_first=first)
    ne = 12 if n_epc is None else n_epc
    got = []
    for k in range(4):
        v = float(std.slot_duration(KINDS[k], real_ops, **args))
        w = ref_slot(k, ops, f, q, f['temp'], first, rn, ne)
        c.close(v, w, f'duration of a slot: {KINDS[k].name}')
        got.append(v)
        b = {x: args[x] for x in ('tari', 'rtcal', 'trcal', 'delim', 'dr',
                                  'temp', 'epc', 'is_first')}
        lo = float(std.slot_duration_min(KINDS[k], real_ops, **b))
        hi = float(std.slot_duration_max(KINDS[k], real_ops, **b))
        c.expect(lo <= v * (1 + 1e-12), 'estimate below the minimal one',
                 kind=KINDS[k].name, lo=lo, got=v)
        c.expect(v <= hi * (1 + 1e-12), 'estimate above the maximal one',
                 kind=KINDS[k].name, hi=hi, got=v)
        qmin = dict(f, m=1, trext=False, sel='ALL', session=0, target='A',
                    q=0, crc5=0, crc16=0)
        qmax = dict(f, m=8, trext=True, sel='SL', session=3, target='B',
                    q=15, crc5=31, crc16=0xFFFF)
        c.close(lo, ref_slot(k, ops, f, qmin, f['temp'], first, 0, ne),
                f'minimal estimate: {KINDS[k].name}')
        c.close(hi, ref_slot(k, ops, f, qmax, f['temp'], first, 0xFFFF,
                             ne), f'maximal estimate: {KINDS[k].name}')
        c.count('slots')
    c.expect(got[1] <= got[2] <= got[3] * (1 + 1e-12),
             'collision, inventory and access slots are out of order',
             got=got)
    # without a number one is drawn: the estimate stays within bounds
    a2 = dict(args)
    del a2['rn']
    v = float(std.slot_duration(KINDS[2], real_ops, **a2))
    lo = ref_slot(2, ops, f, q, f['temp'], first, 0, ne)
    hi = ref_slot(2, ops, f, q, f['temp'], first, 0xFFFF, ne)
    c.expect(min(lo, hi) * (1 - 1e-12) <= v <= max(lo, hi) * (1 + 1e-12),
             'estimate with a random number out of bounds', got=v, lo=lo,
             hi=hi)
    c.seen(repr((g, ops, first)))
    if i < 2:
        c.sample(dict(given=g, ops=ops, first=first, durations=got))


@check('E04', 'random slots of all four kinds with 0..4 read operations and '
              'arguments omitted at random; durations against the reference '
              'composition, order of outcomes, minimal and maximal estimates; '
              'distinct = parameter set')
def e04(c):
    rng = c.rng
    for i in range(c.n(4000)):
        new, scope = some_defaults(c, rng, i)
        with scope:
            e04_case(c, rng, i, new)
    c.need('slots', 1000)


@check('E05', 'payloads of 0..300 bytes given as hexadecimal text, bytes, '
              'lists and iterators, and malformed ones; distinct = payload '
              'and form')
def e05(c):
    rng = c.rng
    for i in range(c.n(6000)):
        n = rng.choice([0, 1, 2, 8, 12, 31, 62, 63, 64, 65, 127, 128, 255,
                        256, rng.randrange(300)])
        if i % 200 == 199:
            n = (511, 513, 1025, 4097, 9000, 66000)[i // 200 % 6]
            c.count('long payloads')
        data = rng.choice([rng.randbytes(n), bytes(n), b'\xff' * n,
                           bytes(k % 256 for k in range(n)),
                           b'\x00' + rng.randbytes(max(0, n - 1)),
                           rng.randbytes(max(0, n - 1)) + b'\x00'])
        n = len(data)
        form = rng.choice(['hex', 'HEX', 'bytes', 'bytearray', 'list',
                           'tuple', 'iter', 'gen'])
        make = {'hex': lambda: data.hex(), 'HEX': lambda: data.hex().upper(),
                'bytes': lambda: data, 'bytearray': lambda: bytearray(data),
                'list': lambda: list(data), 'tuple': lambda: tuple(data),
                'iter': lambda: iter(data), 'gen': lambda: (b for b in data)
                }[form]
        pc, crc, rn = pick_rn(rng), pick_rn(rng), pick_rn(rng)
        c.begin(dict(form=form, size=n, data=data.hex()[:2000]))
        src = make()
        a = std.AckReply(src, pc, crc)
        r = std.ReadReply(make(), rn, crc)
        if form in ('list', 'bytearray') and n:
            src[0] ^= 0xFF      # the reply keeps what it was given
        for _ in range(2):
            c.eq(list(a.epc), list(data), 'identifier of the reply')
            c.eq(list(r.memory), list(data), 'memory of the reply')
            c.eq(a.bitlen, 32 + 8 * n, 'bits of an identifier reply')
            c.eq(r.bitlen, 33 + 8 * n, 'bits of a memory reply')
            c.eq(a.get_epc_string(), data.hex().upper(), 'identifier text')
            c.eq(r.get_memory_string(), data.hex().upper(), 'memory text')
            sep = rng.choice(['', ' ', ':', '-'])
            c.eq(a.get_epc_string(sep),
                 sep.join('%02X' % b for b in data), 'identifier text')
            c.eq(r.get_memory_string(sep),
                 sep.join('%02X' % b for b in data), 'memory text')
        c.eq((a.pc, a.crc, r.rn, r.crc), (pc, crc, rn, crc), 'reply fields')
        c.eq(std.to_bytes(make()), list(data), 'to_bytes')
        q, h = std.QueryReply(rn), std.ReqRNReply(rn, crc)
        c.eq((q.rn, q.bitlen, h.rn, h.crc, h.bitlen), (rn, 16, rn, crc, 32),
             'number replies')
        c.eq((a.reply_type, r.reply_type, q.reply_type, h.reply_type),
             (std.ReplyType.ACK_REPLY, std.ReplyType.READ_REPLY,
              std.ReplyType.QUERY_REPLY, std.ReplyType.REQRN_REPLY),
             'reply types')
        c.count('payloads')
        c.seen((form, data))
        if i < 3:
            c.sample(dict(form=form, data=data.hex()[:60], bits=a.bitlen))
    for i in range(c.n(1500)):
        good = list(rng.randbytes(rng.randrange(0, 20)))
        k = rng.randrange(len(good) + 1)
        bad = rng.choice([256, -1, 257, 1000, -128, 1.5, 'AB', None, 1e9,
                          [1], 2 ** 40])
        val = rng.choice([
            good[:k] + [bad] + good[k:], tuple(good[:k] + [bad] + good[k:]),
            iter(good[:k] + [bad] + good[k:]), 17, None, 3.5, object(),
            bytes(good).hex() + 'A', bytes(good).hex() + 'XY',
            'GG', '0x12', bytes(good[:2]).hex() + '-'])
        c.begin(dict(malformed=repr(val)))
        for fn in (std.AckReply, std.ReadReply, std.to_bytes):
            if hasattr(val, '__next__'):
                val = iter(good[:k] + [bad] + good[k:])
            try:
                x = fn(val)
            except (ValueError, TypeError):
                c.count('refused')
            else:
                c.fail('a payload that is not bytes was accepted',
                       value=repr(val), got=repr(x))
    c.need('payloads', 1000)
    c.need('refused', 1000)


def odd_number(rng, good):
    """A value next to, between or far from the good ones."""
    while True:
        x = rng.choice([0, -1, 3, 5, 6, 7, 9, 16, 10, 1.5, 2.5, 0.5, -2, -8,
                        17, 100, 2 ** 31, -0.5, float('nan'), float('inf'),
                        rng.randrange(-50, 50), rng.uniform(-10, 10)])
        if x not in good:
            return x


def odd_thing(rng, good=()):
    """A value of a wrong type (never equal to a good one)."""
    while True:
        x = rng.choice([None, '', 'x', 'FM0', 'M3', '3', 'read', 'READ',
                        (), (1,), object(), b'1', 'Query', 'nominal',
                        std.CommandCode, std.SlotType, std.ReplyType,
                        std.TagOp(), 'dipole', 'DIPOLE', 'patch', 'const',
                        'reflection ', 'isotropic', 'mirror'])
        if not any(x is g or (type(x) is type(g) and x == g) for g in good):
            return x


@check('E06', 'values that the protocol or the model does not know are '
              'refused with an exception wherever they are given, the known '
              'ones next to them are accepted')
def e06(c):
    import pysim.models.rfid.cli as cli
    import pysim.models.rfid.objects as obj
    import pysim.models.rfid.channel as chan
    rng = c.rng

    def refused(what, fn, value):
        c.begin(dict(what=what, value=repr(value)))
        c.seen((what, repr(value)[:40]))
        try:
            got = fn()
        except Exception:
            c.count('refused ' + what)
        else:
            c.fail('a value that does not exist was accepted: ' + what,
                   value=repr(value), got=repr(got)[:200])

    def taken(what, fn, want, value):
        c.begin(dict(what=what, value=repr(value), known=True))
        try:
            got = fn()
        except Exception as e:
            c.fail('a known value was refused: ' + what, value=repr(value),
                   error=repr(e))
        c.expect(want(got), 'a known value gives something else: ' + what,
                 value=repr(value), got=repr(got)[:200])
        c.count('taken ' + what)

    def phys():
        phy = pick_phy(rng)
        return dict(tari=phy['tari'], rtcal=phy['rtcal'], trcal=phy['trcal'])

    def finite(x):
        return math.isfinite(x) and x > 0

    def set_m(p, m):
        p.m = m
        return p

    def enc_of(word):
        return ''.join(rng.choice([ch.lower(), ch.upper()]) for ch in word)

    for i in range(c.n(400)):
        ms = (1, 2, 4, 8)
        # encodings
        m = odd_number(rng, ms) if rng.random() < .7 else odd_thing(rng)
        refused('number of symbols', lambda: std.TagEncoding.get(m), m)
        m = 1 if rng.random() < .4 else m
        refused('Miller preamble',
                lambda: std.MillerPreamble(m, rng.random() < .5), m)
        pre = std.MillerPreamble(g := rng.choice(ms[1:]), rng.random() < .5)
        refused('Miller preamble changed', lambda: set_m(pre, m), m)
        c.eq((pre.m, pre.encoding), (g, MS[g]),
             'a preamble after a refused change')
        g = rng.choice(ms)
        taken('number of symbols', lambda: std.TagEncoding.get(g),
              lambda x: x is MS[g], g)
        if g > 1:
            taken('Miller preamble', lambda: std.MillerPreamble(g),
                  lambda x: x.m == g and x.encoding is MS[g], g)
            taken('Miller preamble changed', lambda: set_m(pre, g),
                  lambda x: x.m == g and x.encoding is MS[g], g)
        # UpDn
        u = (odd_number(rng, (-1, 0, 1)) if rng.random() < .7
             else odd_thing(rng))
        refused('UpDn', lambda: std.encode_updn(u), u)
        refused('UpDn of a command',
                lambda: std.QueryAdjust(rng.choice(SESS), u).encode()
                if u is not None else std.encode_updn(u), u)
        g = rng.choice([-1, 0, 1])
        taken('UpDn of a command',
              lambda: std.QueryAdjust(SESS[0], g).encode()[-3:],
              lambda x: x == {1: '110', 0: '000', -1: '011'}[g], g)
        # kinds of messages and slots
        kw = phys()
        code = rng.choice([odd_thing(rng, ()), odd_number(rng, ()),
                           rng.choice(list(std.ReplyType)),
                           rng.choice(['1000', '00', '01', '11000010'])])
        refused('command code', lambda: std.command_duration(code, **kw),
                code)
        code = rng.choice([std.CommandCode.QUERY, std.CommandCode.QUERY_REP,
                           std.CommandCode.ACK, std.CommandCode.REQ_RN,
                           std.CommandCode.READ])
        taken('command code', lambda: std.command_duration(code, **kw),
              finite, code)
        kind = rng.choice([odd_thing(rng, ()), odd_number(rng, ()),
                           rng.choice(list(std.CommandCode))])
        refused('reply type', lambda: std.reply_duration(
            kind, trcal=kw['trcal']), kind)
        kind = rng.choice(list(std.ReplyType))
        taken('reply type', lambda: std.reply_duration(
            kind, trcal=kw['trcal']), finite, kind)
        kind = rng.choice([odd_thing(rng, ()), odd_number(rng, ())])
        refused('slot type', lambda: std.slot_duration(
            kind, [], is_first=rng.random() < .5, **kw), kind)
        good = [read_op(rng) for _ in range(rng.randrange(4))]
        op = rng.choice([std.TagOp(), odd_thing(rng, ()), 5, std.TagReadOp])
        ops = good + [op] + [read_op(rng) for _ in range(rng.randrange(3))]
        first = rng.random() < .5
        refused('access operation', lambda: std.slot_duration(
            std.SlotType.ACCESS, ops, is_first=first, **kw), op)
        taken('access operation', lambda: std.slot_duration(
            std.SlotType.ACCESS, good, is_first=first, **kw), finite, good)
        # timing parameters
        n = rng.choice([0, -1, 8, 9, 10, -7, 100, rng.randrange(8, 200),
                        -rng.randrange(1, 50)])
        dr = rng.choice(list(DRS.values()))
        kw2 = dict(rtcal=kw['rtcal'], trcal=kw['trcal'], dr=dr)
        refused('least turn-around', lambda: std.min_link_t(n, **kw2), n)
        refused('greatest turn-around', lambda: std.max_link_t(n, **kw2), n)
        n = rng.randrange(1, 8)
        taken('least turn-around', lambda: std.min_link_t(n, **kw2),
              lambda x: x >= 0, n)
        taken('greatest turn-around', lambda: std.max_link_t(n, **kw2),
              lambda x: x >= 0, n)
        # text of the command line
        s = rng.choice(['', '0', '3', '16', 'M1', 'FM', 'M', 'FM1', 'M16',
                        ' 2', '2 ', '22', 'FM0M2', 'miller', '12', '48',
                        'm3', 'FM2', '8M', '-1', '1.0', '02', 'None'])
        refused('encoding text', lambda: cli.parse_tag_encoding(s), s)
        g = rng.choice(ms)
        word = enc_of(rng.choice([str(g), 'FM0' if g == 1 else f'M{g}']))
        taken('encoding text', lambda: cli.parse_tag_encoding(word),
              lambda x: x is MS[g], word)
        # the model's own choices
        ant = obj.Antenna()
        taken('pattern', lambda: (setattr(ant, 'rp_type', 'dipole'),
                                  ant.radiation_pattern)[1],
              lambda x: x is chan.rp_dipole, 'dipole')
        rp = rng.choice([odd_thing(rng, ('dipole',)), odd_number(rng, ())])
        ant.rp_type = rp
        refused('pattern', lambda: ant.radiation_pattern, rp)
        med = obj.Medium()
        for name, fn in (('reflection', chan.reflection),
                         ('const', chan.reflection_constant)):
            med.ground_reflection_type = name
            taken('reflection', lambda: med.ground_reflection,
                  lambda x: x is fn, name)
        rt = rng.choice([odd_thing(rng, ('reflection', 'const')),
                         odd_number(rng, ())])
        med.ground_reflection_type = rt
        refused('reflection', lambda: med.ground_reflection, rt)
        if i < 2:
            c.sample(dict(m=repr(m), updn=repr(u), slot=repr(kind),
                          op=repr(op), text=s, pattern=repr(rp)))
    for name in list(c.counters):
        c.need(name, 60)
    c.need('refused number of symbols', 60)
    c.need('taken encoding text', 60)


def read_op(rng):
    op = std.TagReadOp()
    op.bank = rng.choice(BANKS)
    op.word_ptr = rng.randrange(300)
    op.word_count = rng.randrange(1, 64)
    return op
