"""Framer: reliable, in-order frames over a lossy byte stream."""
import json, zlib, vf

SOF = 170


def crc8(b):
    c = 255
    for x in b:
        c ^= x
        for _ in range(8):
            c = (c >> 1) ^ 0xE0 if c & 1 else c >> 1
    return 255 - c


def frame(ack, fid, port, msg, definition, pay):
    h = [SOF, (128 if ack else 0) | fid, port, msg, len(pay), definition & 255, definition >> 8]
    b = h + [crc8(h)] + list(pay)
    return b + list(zlib.crc32(bytes(b)).to_bytes(4, 'little')) + [SOF]


def forge(fid, port, msg, definition, pay, want):
    """The payload, with its last four bytes chosen so that the frame check has the given value."""
    h = [SOF, fid, port, msg, len(pay) + 4, definition & 255, definition >> 8]
    b = bytes(h + [crc8(h)] + list(pay))
    zero = zlib.crc32(b + bytes(4)) ^ want
    # the check is affine in the four bytes: solve by elimination
    rows = [(zlib.crc32(b + (1 << i).to_bytes(4, 'little')) ^ zlib.crc32(b + bytes(4)), 1 << i) for i in range(32)]
    sol = 0
    for bit in range(32):
        i = next((k for k, r in enumerate(rows) if r[0] >> bit & 1), None)
        if i is None:
            continue
        p = rows.pop(i)
        rows = [(r[0] ^ p[0], r[1] ^ p[1]) if r[0] >> bit & 1 else r for r in rows]
        if zero >> bit & 1:
            zero, sol = zero ^ p[0], sol ^ p[1]
    return list(pay) + list(sol.to_bytes(4, 'little'))


CHECKVALS = [0, 0xffffffff, 1, 0x80000000, 0xaaaaaaaa, 0x000000aa, 0xaa000000, 0xff, 0xdebb20e3, 0x2144df1c]


def rx(x, b):
    return 'rx %d %s' % (x, ' '.join(map(str, b)))


LENS = [0, 0, 1, 2, 3, 5, 5, 13, 39, 40, 41, 60, 127, 239, 240]
DEFS = [0, 1, 2, 255, 256, 511, 0x2c01, 0xaa55, 65535]


def send(rnd, big=True):
    port = rnd.choice([1, 1, 1, 2, 3, 4, 5, 6, 7, 15, 0, rnd.randrange(16)])
    d = rnd.choice(DEFS) if port else rnd.choice([0, 1, 3, 4, 4, 5, 6, 6, 7, 8, 0x104, 0x206, 0x102])
    n = rnd.choice(LENS + [rnd.randrange(241)] if big else LENS[:8])
    return 'send %d %d %d %d %d %d %d' % (rnd.randrange(2), port, rnd.choice([0, 1, 2, 3, 12, 40] if port == 4 else [0, 1, 2, 255, rnd.randrange(256)]), rnd.choice([d, d, rnd.randrange(65536)]) if port else d, n, rnd.choice([rnd.randrange(256), 170]), rnd.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7]))


def fault(rnd, x):
    k = rnd.randrange(6)
    if k <= 1:
        return ['lose %d' % x]
    if k == 2:
        return ['flip %d %d %d' % (x, rnd.randrange(300), 1 << rnd.randrange(8))]
    if k == 3:
        return ['cut %d %d' % (x, rnd.choice([0, 1, 5, 7, 8, 9, 12, 13, 20]))]
    if k == 4:
        return ['dup %d' % x]
    g = [rnd.choice([SOF, 0, 128, 1, 240, rnd.randrange(256)]) for _ in range(rnd.choice([1, 2, 7, 8, 9, 30]))]
    return [rx(x, g)]


def link(rnd, n, faults, timing=True):
    """Two endpoints that talk to each other over a link with faults."""
    s = ['reset 0 %d %d' % (rnd.choice([0, 1, 1000, 5000000, 1 << 40]), rnd.random() < .2)]
    # a bias per run: how eager the HALs, the link and the timers are
    w = dict(send=rnd.choice([1, 3, 6]), hal=rnd.choice([2, 6, 10]), feed=rnd.choice([2, 6, 10]), fault=faults * rnd.choice([1, 3]), timer=rnd.choice([1, 3]),
             due=rnd.choice([0, 1]) if timing else 0, adv=1 if timing else 0, probe=1, rel=.3, resync=rnd.choice([0, 0, 0, .2]))
    ops = list(w)
    big = rnd.random() < .3
    for _ in range(n):
        o = rnd.choices(ops, [w[o] for o in ops])[0]
        x = rnd.randrange(2)
        if o == 'send':
            s += [send(rnd, big) for _ in range(rnd.choice([1, 1, 2, 5]))]
        elif o == 'hal':
            s.append('%s %d' % (rnd.choice(['hal', 'hal', 'halall']), x))
        elif o == 'feed':
            s.append('%s %d' % (rnd.choice(['feed', 'feed', 'feedall']), x))
        elif o == 'fault':
            s += fault(rnd, x)
        elif o == 'timer':
            s.append('timer %d' % x)
        elif o == 'due':
            s.append('due %d' % rnd.choice([0, 0, 0, 1, 100, 600]))
            s += ['timer %d' % y for y in (x, 1 - x)[:rnd.choice([1, 2, 2])]]
        elif o == 'adv':
            s.append('adv %d' % rnd.choice([0, 1, 10, 100, 255, 256, 257, 819, 820]))
        elif o == 'resync':
            s += ['resync %d' % x] + (['probe %d' % x] if rnd.random() < .5 else [])
        else:
            s.append('%s %d' % (o, x))
    return s + ['drain', 'probe 0', 'probe 1']


def giveup(rnd):
    """Some frames are never confirmed: the retries run out."""
    s = ['reset 0 7 %d' % (rnd.random() < .2)]
    for _ in range(rnd.choice([1, 2])):
        s += [send(rnd, False).replace('send 1', 'send 0', 1) for _ in range(rnd.choice([1, 2, 3, 4, 6]))]
        how = rnd.choice(['all', 'head', 'hal', 'ack', 'nack', 'mixed'])
        for k in range(rnd.choice([5, 17, 18, 20])):
            if how == 'hal':
                if k == 3:
                    s.append('hal 0')
            elif how == 'all':
                s += ['halall 0'] + ['lose 0'] * 4
            elif how == 'ack':
                s += ['halall 0', 'feedall 0', 'halall 1'] + ['lose 1'] * 8
            elif how == 'head':
                s += ['halall 0', 'lose 0', 'feed 0', 'feed 0', 'halall 1', 'feedall 1']
            elif how == 'nack':
                s += ['hal 0', 'flip 0 9 3', 'feed 0', 'halall 1', 'feedall 1', 'hal 0', 'hal 0', 'feedall 0']
            else:
                s += ['halall 0'] + [rnd.choice(['lose 0', 'feed 0', 'hal 1', 'feed 1', 'lose 1']) for _ in range(5)]
            s += ['due %d' % rnd.choice([0, 0, 50])] + ['timer 0', 'timer 1']
            if rnd.random() < .1:
                s.append(send(rnd, False))
        s += ['probe 0', 'probe 1']
    return s + ['drain', 'probe 0', 'probe 1']


def peer(rnd, n):
    """One endpoint and a scripted peer that sends arbitrary frames."""
    s = ['reset 0 %d %d' % (rnd.choice([0, 99]), rnd.random() < .25)]
    base = rnd.randrange(16)
    tx = 0
    for _ in range(n):
        r = rnd.random()
        if r < .35:       # data frames near the current position, sometimes far away
            base = (base + rnd.choice([0, 1, 1, 1, 1, 1, 1, 2, 3, -1, -2, -3, -4, 4, 8, -8, 5])) % 16
            port = rnd.choice([1, 1, 1, 2, 4, 5, 6, 0, 15, 16, 255])
            if rnd.random() < .05:
                f = base | rnd.choice([0, 0x10])
                s.append(rx(0, frame(0, f, port, 3, 9, forge(f, port, 3, 9, [5], rnd.choice(CHECKVALS)))))
                continue
            d = rnd.choice([0, 2, 3, 4, 6, 9]) if port == 0 else rnd.choice(DEFS)
            s.append(rx(0, frame(0, base | rnd.choice([0, 0, 0, 0x10, 0x70]), port, rnd.randrange(256), d, [rnd.randrange(256) for _ in range(rnd.choice(LENS[:9]))])))
        elif r < .6:      # acks
            tx = (tx + rnd.choice([0, 0, 1, 1, 2, -1, 3, 7])) % 16
            st = rnd.choice([0, 0, 0, 0, 0, 9, 9, 25, 1])
            m = rnd.choice([256, 511, 256 + rnd.randrange(256), rnd.randrange(512), 0, 0x300, 0x7c0])
            s.append(rx(0, frame(1, tx, rnd.choice([0, 1, 3, 15, 16]), rnd.randrange(4), m, rnd.choice([[st], [st], [st], [st], [], [st, 0]]))))
        elif r < .7:
            s.append(send(rnd, False).replace('send 1', 'send 0', 1))
        elif r < .85:
            s.append('%s 0' % rnd.choice(['hal', 'hal', 'halall']))
        elif r < .9:
            s.append('due %d' % rnd.choice([0, 0, 300]))
            s.append('timer 0')
        elif r < .92:
            s.append('adv %d' % rnd.choice([1, 100, 300, 900]))
            s.append('timer 0')
        elif r < .93:
            s.append('resync 0')
        elif r < .96:
            b = frame(rnd.randrange(2), rnd.randrange(16), rnd.choice([1, 40]), 5, rnd.randrange(512), [1, 2])
            b[rnd.randrange(1, len(b))] ^= 1 << rnd.randrange(8)
            s.append(rx(0, b))
        else:
            s.append(rnd.choice(['probe 0', 'rel 0']))
    return s + ['probe 0']


def stream_bytes(rnd, n):
    """A byte stream that contains frames, parts of frames and anything else."""
    out = []
    while len(out) < n:
        k = rnd.randrange(11)
        f = frame(rnd.randrange(2), rnd.randrange(16), rnd.randrange(20), rnd.randrange(256), rnd.choice(DEFS), [rnd.choice([SOF, rnd.randrange(256)]) for _ in range(rnd.choice(LENS[:11] + [240]))])
        if k <= 4:
            out += f
        elif k == 5:
            out += f[:rnd.randrange(1, len(f))]
        elif k == 6:
            out += [rnd.choice([SOF, rnd.randrange(256)]) for _ in range(rnd.choice([1, 1, 2, 7, 8, 20]))]
        elif k == 7:
            f[rnd.randrange(len(f))] ^= 1 << rnd.randrange(8)
            out += f
        elif k == 8:      # a frame inside the payload of a frame, the outer one damaged or cut
            o = frame(0, 1, 1, 1, 1, ([rnd.randrange(256) for _ in range(rnd.randrange(5))] + f)[:240])
            j = rnd.choice([0, 3, 7, 8, len(o) - 2, len(o) - 4])
            o[min(j, len(o) - 1)] ^= 1
            out += o
        elif k == 9:      # header of a large frame, then others
            h = [SOF, 0, 1, 1, rnd.choice([240, 241, 255, 100]), 0, 0]
            out += h + [crc8(h)]
        else:
            h = [SOF] * rnd.choice([1, 2, 6, 7, 8, 9])
            out += h
    return out[:n] if rnd.random() < .3 else out


def deframe(rnd, n):
    s = ['reset 1 0']
    b = stream_bytes(rnd, n)
    while b:
        k = rnd.choice([1, 2, 7, 8, 13, 14, 50, 200, 253, 300])
        s.append(rx(0, b[:k]))
        b = b[k:]
        if rnd.random() < .3:
            s.append('halall 0')
        while len(s) % 40 == 0 and rnd.random() < .9:
            s += ['halall 0']
    return s + ['halall 0', 'probe 0']


def functions(rnd):
    s = ['reset 0 0']
    for i, w in enumerate(rnd.sample(CHECKVALS, 4)):   # frames whose check has a special value
        port, msg, d = rnd.randrange(1, 16), rnd.randrange(256), rnd.choice(DEFS)
        p = forge(i, port, msg, d, [rnd.randrange(256) for _ in range(rnd.choice([0, 1, 30, 236]))], w)
        s += ['sendb 0 %d %d %d %s' % (port, msg, d, ' '.join(map(str, p))), 'hal 0', 'feed 0', 'halall 1', 'feedall 1']
    for _ in range(40):
        p = [rnd.randrange(256) for _ in range(rnd.choice(LENS))]
        if rnd.random() < .3:
            s.append('make 0 1 %d %d %d %d %d' % (rnd.randrange(256), rnd.randrange(256), rnd.randrange(256), rnd.choice(DEFS), rnd.randrange(256)))
        else:
            s.append('make 0 0 %d %d %d %d %s' % (rnd.randrange(256), rnd.randrange(16), rnd.randrange(256), rnd.choice(DEFS), ' '.join(map(str, p))))
        f = frame(rnd.randrange(2), rnd.randrange(16), rnd.randrange(20), 3, 7, p)
        if rnd.random() < .3:
            f[rnd.randrange(len(f))] ^= 1 << rnd.randrange(8)
        if rnd.random() < .2:
            f[4] = rnd.choice([0, 1, 239, 240, 241, 255])
            f[7] = crc8(f[:7])
        n = rnd.choice([len(f), len(f), len(f), len(f) - 1, 0, 1, 7, 8, 9, 12, len(f) + 5, 253, 300])
        s.append('validate %d %s' % (n, ' '.join(map(str, f[:n]))))
    return s


def random_scripts(c, prop, scale):
    rnd = c.rnd
    mix = {'C01': (12, 12, 4, 14, 0, 0), 'C02': (10, 12, 16, 10, 0, 0), 'C03': (16, 10, 6, 6, 0, 10), 'C04': (0, 10, 0, 6, 30, 10),
           'C05': (10, 12, 4, 20, 0, 0), 'C06': (10, 12, 14, 12, 8, 0), 'C07': (10, 12, 14, 14, 0, 0)}[prop]
    s = []
    for k, n in enumerate(mix):
        for _ in range(int(n * scale)):
            m = rnd.choice([20, 60, 150, 300])
            s.append([lambda: link(rnd, m, 0, rnd.random() < .5), lambda: link(rnd, m, rnd.choice([.5, 1, 3])), lambda: giveup(rnd), lambda: peer(rnd, m),
                      lambda: deframe(rnd, m * 6), lambda: functions(rnd)][k]())
    return s


def conv(a):
    o = a['op']
    if o == 'send':
        return 'send %d %d %d 300 1 %d %d' % (a['x'], a['port'], a['msg'], a['msg'] * 223 % 256, a['msg'] % 4)
    if o == 'corrupt':
        return ['flip %d 8 1' % a['x'], 'feed %d' % a['x']]
    if o == 'adv':
        return 'adv %d' % a['d']
    if o in ('hal', 'feed', 'lose', 'dup', 'timer'):
        return '%s %d' % (o, a['x'])
    raise vf.CheckError('unknown action ' + o)


def graph_scripts(c, cfg, limit=None):
    edges = c.graph('MCFramer', cfg)
    paths = vf.tour(edges, edges[0][0], c.rnd, max_len=60, limit=limit)
    out = []
    for p in paths:
        s = ['reset 0 0 %d' % (cfg == 'MCFramerSync.cfg')]
        for a in p:
            x = conv(json.loads(a))
            s += x if isinstance(x, list) else [x]
        out.append(s + ['probe 0', 'probe 1'])
    c.cov['paths_replayed'] = c.cov.get('paths_replayed', 0) + len(out)
    return out


MODELS = {'C01': (['Graph', 'Graph2', 'Sync'], ['Wrap'], ['Deep', 'Both']),
          'C02': (['Graph', 'Graph5', 'Sync'], ['GiveUp', 'Live', 'End'], ['Both', 'Deep']),
          'C03': (['Graph', 'Graph4', 'Sync'], [], ['Both']),
          'C05': (['Graph', 'Graph2', 'Graph4', 'Sync'], [], ['Both']),
          'C06': (['Graph', 'Graph4', 'Graph5', 'Sync'], ['Both'], ['Deep']),
          'C07': (['Graph', 'Graph2', 'Sync'], ['Slow'], ['Both', 'Deep'])}


def check(prop):
    def run(c):
        exe = vf.build_harness('framer')
        th = vf.tier() == 'thorough'
        env = {'FOCUS': prop}
        s = []
        if prop == 'C04':
            for i, (_, a, _) in enumerate(c.graph('MCDeframer', 'MCDeframer.cfg')):
                chunks = json.loads(a)
                s.append(['reset 1 0'] + [rx(0, b) for b in chunks] + [rx(0, [0] * 260), 'halall 0'])
            c.model('MCDeframer', 'MCDeframerDeep.cfg', workers=8)
        else:
            graphs, models, deep = MODELS[prop]
            for g in graphs + (['Graph3'] if th else []):
                s += graph_scripts(c, 'MCFramer%s.cfg' % g)
            for m in models + (deep if th else []):
                c.model('MCFramer', 'MCFramer%s.cfg' % m, workers=8)
        if not c.conform(exe, 'TraceFramer', s, 'replay', env=env):
            return
        c.conform(exe, 'TraceFramer', random_scripts(c, prop, 25 if th else 4), 'random', env=env)
    return run


CHECKS = {p: check(p) for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07')}
