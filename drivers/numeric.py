"""Pattern generator/receiver, LFSR and other sequence generators."""
import json, vf
from memory import cmds

PERIOD = 2 * 33 * 65536


def raw(w):
    if w['k'] == 'c':
        return 65535 - w['v'], w['v']
    if w['k'] == 's':
        v = 0 if w['v'] == 0 else 1 << (w['v'] - 1)
        return v >> 16, v & 0xffff
    return 0x1234, 0x5679


def pattern_conv(a):
    if a['op'] == 'reset':
        return 'reset 165'
    return 'rx %d %d' % raw(a['w'])


def pattern_random(rnd):
    s = ['reset %d' % rnd.choice([0, 85, 165, 255])]
    r = rnd.random()
    if r < .35:
        for _ in range(rnd.choice([3, 10, 20])):
            if rnd.random() < .15:
                s.append('txskip %d %d' % (rnd.choice([1, 65, 66, 131071, 131072, PERIOD - 3, PERIOD - 1, PERIOD, rnd.randrange(PERIOD)]), rnd.randrange(2)))
            s.append('tx %d %d' % (rnd.choice([0, 1, 1, 2, 3, 7, 16, 33, 67, 140]), rnd.randrange(2)))
        return s
    if r < .8:
        p = rnd.choice([0, 1, 2, 65, 66, PERIOD - 2, rnd.randrange(PERIOD)])
        for _ in range(rnd.choice([2, 5, 20])):
            n = rnd.choice([3, 4, 5, 6, 7, 50, 131, 2000, rnd.randrange(3, 300000)])
            s.append('rxseg %d %d %d' % (p, n, rnd.randrange(2)))
            d = rnd.choice([0, 1, 2, 3, 65, 66, 131072, PERIOD // 2 - 1, PERIOD // 2, PERIOD // 2 + 1, PERIOD // 2 + 2, PERIOD - 1, PERIOD - 2, PERIOD - 66,
                            rnd.randrange(PERIOD), rnd.randrange(1000), PERIOD - 1 - rnd.randrange(1000)])
            p = (p + n + d) % PERIOD
        return s
    p = rnd.randrange(PERIOD)
    s.append('rxseg %d 4 0' % p)
    p += 4
    for _ in range(rnd.choice([10, 60])):
        q = rnd.random()
        if q < .5:
            n = rnd.choice([1, 1, 2, 3, 10])
            s.append('rxseg %d %d %d' % (p % PERIOD, n, rnd.randrange(2)))
            p += n
        elif q < .6:
            p += rnd.choice([1, 2, 66, 5000])
        elif q < .7:
            p = max(0, p - rnd.choice([1, 2, 66, 5000]))
        else:
            s.append('rx %d %d' % rnd.choice([(0, 3), (0xffff, 0xffff), (0x8000, 1), (rnd.randrange(65536), rnd.randrange(65536)),
                                              (0, 1 << rnd.randrange(16)), (65535 - 7, 7), (0x55, 0xaa)]))
            if rnd.random() < .5:
                p += 1
    return s


def check_pattern(c):
    exe = vf.build_harness('pattern')
    edges = c.graph('MCPattern', 'MCPattern.cfg')
    init = edges[0][0]
    paths = vf.tour(edges, init, c.rnd, max_len=20)
    c.cov['paths_replayed'] = len(paths)
    if not c.conform(exe, 'TracePattern', cmds(paths, pattern_conv), 'replay', nproc=6):
        return
    n = 4000 if vf.tier() == 'thorough' else 400
    if not c.conform(exe, 'TracePattern', [pattern_random(c.rnd) for _ in range(n)], 'random'):
        return
    if vf.tier() == 'thorough':
        c.model('MCPattern', 'MCPatternSmall.cfg', workers=8)


CHECKS = {'C20': check_pattern}


# ------------------------------------------------------------------ LFSR

def lfsr_next(v, n):
    for _ in range(n):
        v = v or 1
        b = (v ^ v >> 2 ^ v >> 3 ^ v >> 5) & 1
        v = v >> 1 | b << 15
    return v


def lfsr_follow(rnd, k):
    """A byte stream from a generator with corrupted, dropped and repeated bytes."""
    v = rnd.choice([1, 0xACE1, rnd.randrange(1, 65536)])
    s = ['reset %d' % rnd.choice([0, 165, 255])]
    p = rnd.choice([0, .02, .1, .5])
    for _ in range(k):
        r = rnd.random()
        if r < p:
            q = rnd.randrange(5)
            if q == 0:
                s.append('follow %d' % rnd.choice([0, 255, rnd.randrange(256)]))
            elif q == 1:
                v = lfsr_next(v, 8)
            elif q == 2:
                s += ['follow 0'] * rnd.randrange(1, 6)
            elif q == 3:
                v = rnd.randrange(1, 65536)
            elif rnd.random() < .2:
                s.append('seed %d' % rnd.randrange(65536))
        v = lfsr_next(v, 8)
        s.append('follow %d' % (v >> 8))
    return s


def check_lfsr(c):
    exe = vf.build_harness('lfsr')
    c.model('MCLfsr', 'MCLfsrPeriod.cfg', workers=1)
    c.model('MCLfsr', 'MCLfsr.cfg', workers=8)
    th = vf.tier() == 'thorough'
    # every register value through each output width; a full period through u1
    sc = [['reset 0', 'seed %d' % x] + ['rep %d u1' % (65600 if x == 1 and th else 300)] for x in (1, 0, 2, 65535)]
    for op in ('u1', 'u8', 'u16', 'u32'):
        for a in range(0, 65536, 4096):
            sc.append(['reset 0'] + ['table %d %d %s' % (x, x + 512, op) for x in range(a, a + 4096, 512)])
    sc.append(['reset 0'] + ['rep 300 %s' % op for op in ('u1', 'u8', 'u16', 'u32', 'u8')])
    if not c.conform(exe, 'TraceLfsr', sc, 'registers'):
        return
    c.conform(exe, 'TraceLfsr', [lfsr_follow(c.rnd, c.rnd.choice([10, 100, 400])) for _ in range(3000 if th else 200)], 'follow')


CHECKS['C21'] = check_lfsr


# ------------------------------------------------------------------ CRC

KINDS = ('k8', 'k16', 'k32')


def crc_start(rnd, k):
    if k == 'k32':
        return 'start k32 %d %d' % (rnd.choice([0, 65535, rnd.randrange(65536)]), rnd.choice([0, 65535, rnd.randrange(65536)]))
    m = 256 if k == 'k8' else 65536
    return 'start %s %d' % (k, rnd.choice([0, m - 1, rnd.randrange(m)]))


def crc_random(rnd):
    s = []
    for _ in range(rnd.choice([5, 20, 60])):
        k = rnd.choice(KINDS)
        r = rnd.random()
        if r < .15:
            s.append('start k32 0 0' if k == 'k32' and rnd.random() < .5 else crc_start(rnd, k))
        elif r < .2:
            s.append('null %s %d' % (k, rnd.choice([0, 1, 4, 100000])))
        elif r < .3:
            s.append('gen %s %d %d %d' % (k, rnd.choice([0, 1, 255, 256, 257, 1000, 4096]), rnd.randrange(256), rnd.choice([0, 1, 2, 7, 255, rnd.randrange(256)])))
        else:
            s.append(('put %s ' % k + ' '.join(str(rnd.choice([0, 255, rnd.randrange(256)])) for _ in range(rnd.choice([0, 1, 1, 2, 3, 4, 7, 8, 9, 16, 31, 64, 255])))).strip())
    return s


def check_crc(c):
    exe = vf.build_harness('crc')
    th = vf.tier() == 'thorough'
    edges = c.graph('MCCrc', 'MCCrc.cfg')
    c.model('MCCrc', 'MCCrcDetect.cfg', workers=8)
    sc = []
    for k in KINDS:
        for p in vf.tour(edges, edges[0][0], c.rnd, max_len=4, deep=0):
            sc.append(['reset'] + [('put %s ' % k + ' '.join(map(str, json.loads(a)['s']))).strip() for a in p])
    if not c.conform(exe, 'TraceCrc', sc, 'replay'):
        return
    # one byte from every register value: all bytes for the 8-bit code, every register and every table index for the 16-bit one
    sc = [['reset'] + ['table k8 %d 0 256' % x for x in range(a, a + 32)] for a in range(0, 256, 32)]
    for a in range(0, 65536, 8192):
        sc.append(['reset'] + ['table k16 %d %d 1024' % (x, b) for b in range(a, a + 8192, 1024) for x in ([0, 90, 255] if not th else range(0, 256, 5))])
    # the 32-bit code: a basis of the register values, with every byte
    for b in range(0, 256, 32):
        s = ['reset']
        for x in range(b, b + 32):
            for i in range(-1, 32):
                v = 0 if i < 0 else 1 << i
                s += ['start k32 %d %d' % (v >> 16, v & 0xffff), 'put k32 %d' % x]
        sc.append(s)
    big = [['reset', 'gen k8 %d 3 7' % n, 'start k16 0', 'gen k16 %d 1 5' % n, 'start k32 0 0', 'gen k32 %d 9 11' % n]
           for n in ([65535, 65536, 65537, 70001] if not th else [65535, 65536, 65537, 70001, 131072, 300000, 1000003])]
    if not c.conform(exe, 'TraceCrc', sc + big, 'tables'):
        return
    c.conform(exe, 'TraceCrc', [['reset'] + crc_random(c.rnd) for _ in range(4000 if th else 200)], 'random')


CHECKS['C22'] = check_crc


# ------------------------------------------------------------------ time

I63 = 1 << 63
SEC = 1 << 30
UNITS = {'s': 1, 'ms': 1000, 'us': 1000000, 'ns': 1000000000}


def near_limit(rnd, m):
    """An integer whose absolute value is at most m, near zero, a power of two or the limit."""
    r = rnd.random()
    if r < .25:
        v = rnd.randrange(-3, 4)
    elif r < .5:
        v = (1 << rnd.randrange(0, 63)) + rnd.choice([-1, 0, 1, 2, rnd.randrange(-1000, 1000)])
    elif r < .6:
        v = m - rnd.randrange(0, 5)
    else:
        v = rnd.getrandbits(rnd.randrange(1, 64))
    v = min(abs(v), m)
    return v if rnd.random() < .6 else -v


def time_to(rnd, z):
    """A time whose conversion at frequency z fits: near a half tick, a whole tick, or anywhere."""
    m = (I63 - 2 * SEC) // z
    r = rnd.random()
    if r < .6:
        n = near_limit(rnd, m * z // SEC)
        half = rnd.choice([0, 1])
        x = (2 * n + half) * SEC // (2 * z) + rnd.choice([-1, 0, 0, 1, 2])
        return max(-m, min(m, x))
    return near_limit(rnd, m)


def freq(rnd, top=None):
    z = rnd.choice([1, 2, 3, 7, 10, 60, 100, 999, 1000, 1024, 32768, 32767, 48000, 1000000, 1 << 20, 12345678, SEC - 1, SEC, SEC + 1, 1000000000, (1 << 31) - 1,
                    (1 << 32) - 1, 10000000000, 1 << rnd.randrange(0, 40), rnd.randrange(1, 1 << rnd.randrange(1, 41))])
    return min(z, top) if top else z


def time_random(rnd):
    s = ['reset']
    for _ in range(60):
        r = rnd.random()
        if r < .3:
            z = freq(rnd)
            a = rnd.randrange(0, z + 1)
            s.append('to %d %d %d' % (time_to(rnd, z), a, z - a))
        elif r < .36:
            z = freq(rnd, (1 << 31) - 1)
            s.append('to32 %d %d' % (time_to(rnd, z), z))
        elif r < .42:
            z = freq(rnd, (1 << 32) - 1)
            x, b = time_to(rnd, z), rnd.randrange(0, 1 << 40)
            s.append('tox %d %d %d' % (x, 0, z) if abs(x + b) >= I63 else 'tox %d %d %d' % (x + b, b, z))
        elif r < .55:
            k = rnd.choice(list(UNITS))
            s.append('unit %s %d' % (k, time_to(rnd, UNITS[k])))
        elif r < .7:
            z = freq(rnd)
            a = rnd.randrange(0, z + 1)
            s.append('from %d %d %d' % (near_limit(rnd, (1 << 33) - 1), a, z - a))
        elif r < .75:
            s.append('from32 %d %d' % (near_limit(rnd, (1 << 31) - 1), freq(rnd, (1 << 31) - 1)))
        elif r < .85:
            s.append('of %s %d' % (rnd.choice(list(UNITS)), near_limit(rnd, (1 << 33) - 1)))
        elif r < .9:
            s.append('f64 %d' % near_limit(rnd, (1 << 53) - 1))
        elif r < .93:
            s.append('f32 %d' % near_limit(rnd, (1 << 24) - 1))
        elif r < .97:
            e = rnd.randrange(0, 54)
            bits = rnd.choice([24, 24, 33 + e, 53])
            s.append('trunc %d %d' % (near_limit(rnd, (1 << min(bits, 33 + e, 53)) - 1), e))
        else:
            s.append('abs %d' % near_limit(rnd, I63 - 1))
    return s


def check_time(c):
    exe = vf.build_harness('time', ['-lm'])
    th = vf.tier() == 'thorough'
    c.model('MCTime', 'MCTime.cfg', workers=8)
    # the states of the model, scaled to the real format: x is a multiple of 2^-4 seconds
    sc = [['reset', 'const']]
    for z in range(1, 21):
        sc.append(['reset'] + ['to %d %d %d' % (x * (SEC // 16), z, 0) for x in range(-70, 71)] + ['from %d %d 0' % (x, z) for x in range(-70, 71)])
    sc.append(['reset'] + ['%s %d' % (op, x) for x in range(-40, 41) for op in ('unit s', 'unit ms', 'unit us', 'unit ns', 'of s', 'of ms', 'of us', 'of ns', 'abs', 'f64', 'f32')])
    if not c.conform(exe, 'TraceTime', sc, 'replay'):
        return
    c.conform(exe, 'TraceTime', [time_random(c.rnd) for _ in range(6000 if th else 300)], 'random')


CHECKS['C24'] = check_time


# ------------------------------------------------------------------ byte buffers

def bbuf_conv(a):
    if a['op'] == 'reset':
        return 'reset 3 0'
    if a['op'] == 'seek':
        return 'seek 0 0'
    s = '%s %s %d' % (a['op'], 'b' if a['big'] else 'l', a['w'])
    return (s + ' ' + ' '.join(map(str, a['v']))).strip()


def bbuf_random(rnd):
    n = rnd.choice([1, 2, 3, 4, 7, 8, 9, 16, 24])
    s = ['reset %d %d' % (n, rnd.randrange(256))]
    w, r = 0, 0
    for _ in range(rnd.choice([10, 40])):
        k = rnd.choice([x for x in (1, 2, 4, 8) if x <= n])
        o = rnd.choice('bl')
        v = ' '.join(str(rnd.choice([0, 1, 127, 128, 255, rnd.randrange(256)])) for _ in range(k))
        q = rnd.random()
        if q < .3 and w + k <= n:
            s.append('enc %s %d %s' % (o, k, v))
            w += k
        elif q < .6 and r + k <= n:
            s.append('dec %s %d' % (o, k))
            r += k
        elif q < .75:
            s.append('menc %s %d %d %s' % (o, k, rnd.randrange(n - k + 1), v))
        elif q < .9:
            s.append('mdec %s %d %d' % (o, k, rnd.randrange(n - k + 1)))
        else:
            w, r = rnd.randrange(n + 1), rnd.randrange(n + 1)
            s.append('seek %d %d' % (w, r))
    return s


def check_bbuf(c):
    exe = vf.build_harness('bbuf')
    th = vf.tier() == 'thorough'
    edges = c.graph('MCBbuf', 'MCBbuf.cfg')
    c.model('MCBbuf', 'MCBbuf4.cfg', workers=8)
    c.model('MCBbuf', 'MCBbuf8.cfg', workers=8)
    paths = vf.tour(edges, edges[0][0], c.rnd, max_len=40)
    if not c.conform(exe, 'TraceBbuf', [['reset 3 0'] + s for s in cmds(paths, bbuf_conv)], 'replay'):
        return
    # every byte value at every byte of every width, in both orders
    sc = []
    for w in (1, 2, 4, 8):
        for o in 'bl':
            for i in range(w):
                s = ['reset %d 170' % w]
                for x in range(256):
                    v = ' '.join(str(x if j == i else (x + 91 * (j + 1)) % 256) for j in range(w))
                    s += ['menc %s %d 0 %s' % (o, w, v), 'seek 0 0', 'dec %s %d' % (o, w), 'enc %s %d %s' % ('l' if o == 'b' else 'b', w, v), 'mdec %s %d 0' % (o, w)]
                sc.append(s)
    if not c.conform(exe, 'TraceBbuf', sc, 'bytes'):
        return
    c.conform(exe, 'TraceBbuf', [bbuf_random(c.rnd) for _ in range(10000 if th else 800)], 'random')


CHECKS['C25'] = check_bbuf


# ------------------------------------------------------------------ integer and memory helpers

def help_wide(rnd):
    """64 bit operands: powers of two and their neighbours, kept below the overflow of x + m."""
    def pick():
        k = rnd.randrange(63)
        return rnd.choice([-1, 1]) * rnd.choice([(1 << k) - 1, 1 << k, (1 << k) + 1, rnd.randrange(1 << k, 2 << k)])
    x = rnd.choice([pick(), pick(), pick() & ~0xffffffff, 0])
    x = max(-(1 << 62), min(1 << 62, x))
    a = rnd.choice([x - 1, x, x + 1, pick(), x & 0xffffffff])
    b = rnd.choice([a, a + 1, a + (1 << 32), max(a, x), max(a, x + 1), max(a, x - 1), max(a, pick())])
    m = rnd.choice([1, 2, 3, 128, 1000, abs(x) or 1, rnd.randrange(1, 1 << 40), 1 << rnd.randrange(40)])
    return 'wide %d %d %d %d' % (x, a, b, m)


def help_random(rnd):
    n = rnd.choice([4, 9, 16, 33, 64])
    s = ['reset %d' % n]
    for _ in range(30):
        r = rnd.random()
        if r < .2:
            lo = rnd.choice([0, 65536 - 40, rnd.randrange(65000), max(0, (1 << rnd.randrange(16)) - 20)])
            s.append('bits %d %d %d' % (rnd.choice([0, 1, 32767, 32768, 65535, 1 << rnd.randrange(16), rnd.randrange(65536)]), lo, min(40, 65536 - lo)))
        elif r < .4:
            m = rnd.choice([1, 2, 3, 4, 8, 16, 128, 1000, 4096, rnd.randrange(1, 1 << 20)])
            a = rnd.randrange(0, m + 1)
            k = rnd.randrange(1 << rnd.randrange(1, 10))
            x = rnd.choice([-1, 1]) * m * k + rnd.randrange(-20, 2)
            s.append('round %d 20 %d %d' % (x, a, m - a))
            s.append('roundz %d %d' % (x, m))
        elif r < .5:
            a = rnd.choice([-5, 0, 1, 100, -1000000])
            b = a + rnd.choice([0, 1, 5, 1000])
            s.append('restrict %d %d %d' % (rnd.choice([a - 1, a, a + 1, b - 1, b, b + 1, 0, 2147483646, -2147483646]), a, b))
        elif r < .53:
            s.append(help_wide(rnd))
        elif r < .55:
            s.append('sign %d' % rnd.choice([0, 1, -1, 2147483646, -2147483646, rnd.randrange(-9, 9)]))
        elif r < .8:
            p = rnd.randrange(n + 1)
            s.append('set %d %d %d' % (p, rnd.choice([0, 255, 256, -1, rnd.randrange(256)]), rnd.randrange(n - p + 1)))
        else:
            k = rnd.randrange(n // 2 + 1)
            a, b = sorted((rnd.randrange(n - 2 * k + 1), rnd.randrange(n - 2 * k + 1)))
            d, e = a, b + k
            if rnd.random() < .5:
                d, e = e, d
            s.append('copy %d %d %d' % (d, e, k))
    return s


def check_help(c):
    exe = vf.build_harness('inthelp')
    th = vf.tier() == 'thorough'
    c.model('MCIntHelp', 'MCIntHelp.cfg', workers=4)
    sc = [['reset 4', 'container'] + ['sign %d' % x for x in range(-70, 71)] + ['round -70 141 %d 1' % (m - 1) for m in range(1, 21)]]
    sc.append(['reset 4'] + ['wide %d %d %d 7' % (s * (1 << k) + d, s * (1 << k), s * (1 << k) + 1) for k in range(2, 62) for s in (1, -1) for d in (-1, 0, 1, 2)])
    for m in range(1, 21):
        sc.append(['reset 4'] + ['restrict %d %d %d' % (x, m, b) for x in range(-5, 30) for b in range(m, m + 4)])
    # every low half alone; every high half with the ends of its range
    sc += [['reset 4'] + ['bits 0 %d 256' % lo for lo in range(a, a + 16384, 256)] for a in range(0, 65536, 16384)]
    sc += [['reset 4'] + ['bits %d %d 2' % (h, lo) for h in range(a, 65536, 512 if not th else 64) for lo in (0, 65534)] for a in range(0, 64 if not th else 64, 4)]
    sc += [['reset 4'] + ['bits %d %d 2' % ((1 << k) + d, lo) for k in range(16) for d in (-1, 0, 1) for lo in (0, 1, 32767, 65534) if 0 <= (1 << k) + d < 65536]]
    sc += [['reset 8'] + ['set %d %d %d' % (p, v, k) for p in range(9) for k in range(9 - p) for v in (0, 255, 257)]]
    sc += [['reset 6'] + ['copy %d %d %d' % (d, s, k) for k in range(4) for d in range(7 - k) for s in range(7 - k) if d + k <= s or s + k <= d]]
    if not c.conform(exe, 'TraceIntHelp', sc, 'tables'):
        return
    c.conform(exe, 'TraceIntHelp', [help_random(c.rnd) for _ in range(6000 if th else 400)], 'random')


CHECKS['C27'] = check_help
