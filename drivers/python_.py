"""The Python package py/embc and its qualification tool, on the library built from the same tree."""
import glob, json, os, stat, subprocess, sys, vf
import framer, memory, numeric


def library(flags_=()):
    """The shared library as the package expects it: every source, with lib.c."""
    _, flags = vf.build_lib()
    so = os.path.join(vf.scratch(), 'libembc%d.so' % len(flags_))
    srcs = sorted(glob.glob(os.path.join(vf.REPO, 'src', '**', '*.c'), recursive=True))
    inc = [f for f in flags if f.startswith('-I')]
    r = vf._run(['gcc', '-std=gnu99', '-O1', '-g', '-w', '-shared', '-fPIC', '-D__FILENAME__="lib"'] + list(flags_) + inc + srcs + ['-o', so])
    if r.returncode:
        raise vf.CheckError('building the shared library failed:\n' + r.stdout)
    return so


def harness(mode, flags=()):
    exe = os.path.join(vf.scratch(), 'py_' + mode)
    with open(exe, 'w') as f:
        f.write('#!/bin/sh\nexec %s %s %s %s %s "$@"\n' % (sys.executable, os.path.join(vf.ROOT, 'harness', 'py', 'h.py'), mode, vf.REPO, library(flags)))
    os.chmod(exe, 0o755)
    return exe


# ---------------------------------------------------------------- framers
def send(rnd, big):
    port = rnd.choice([1, 1, 2, 3, 4, 5, 6, 7, 15, 0, 0, rnd.randrange(16)])
    d = rnd.choice(framer.DEFS + [rnd.randrange(65536)]) if port else rnd.choice([1, 3, 4, 4, 5, 6, 6, 7, 8, 0x104, 0x206])
    n = rnd.choice(framer.LENS + [rnd.randrange(241), 241, 255, 256, 260, 300, 1000] if big else framer.LENS[:8] + [241])
    return 'send %d %d %d %d %d %d' % (rnd.randrange(2), port, rnd.choice([0, 1, 2, 3] if port == 4 else [0, 1, 2, 255, rnd.randrange(256)]), d, n, rnd.choice([rnd.randrange(256), 170]))


def link(rnd, n, faults):
    s = ['reset %d' % rnd.choice([0, 1, 1000, 5000000])]
    w = dict(send=rnd.choice([1, 3]), feed=rnd.choice([3, 6, 10]), fault=faults, poll=2, due=rnd.choice([0, 1]), adv=1, resync=rnd.choice([0, 0, .2]), drain=.1)
    big = rnd.random() < .3
    for _ in range(n):
        o = rnd.choices(list(w), list(w.values()))[0]
        x = rnd.randrange(2)
        if o == 'send':
            s.append(send(rnd, big))
        elif o == 'feed':
            s.append('%s %d' % (rnd.choice(['feed', 'feed', 'feedall']), x))
        elif o == 'fault':
            f = framer.fault(rnd, x)
            s += f if not f[0].startswith('rx') or rnd.random() < .5 else []
        elif o == 'poll':
            s.append('poll %d' % x)
        elif o == 'due':
            s += ['adv %d' % rnd.choice([255, 256, 257, 820])] + ['poll %d' % y for y in (x, 1 - x)[:rnd.choice([1, 2, 2])]]
        elif o == 'adv':
            s.append('adv %d' % rnd.choice([1, 10, 100, 255, 256, 257, 819, 820]))
        elif o == 'resync':
            s.append('resync %d' % x)
            if rnd.random() < .7:
                s.append('drain')
        else:
            s.append('drain')
    return s + ['drain']


def giveup(rnd):
    s = ['reset 3']
    for _ in range(rnd.choice([1, 2])):
        s += [send(rnd, False).replace('send 1', 'send 0', 1) for _ in range(rnd.choice([1, 2, 4]))]
        how = rnd.choice(['all', 'ack', 'mixed'])
        for k in range(rnd.choice([5, 17, 18, 20])):
            if how == 'all':
                s += ['lose 0'] * 4
            elif how == 'ack':
                s += ['feedall 0'] + ['lose 1'] * 5
            else:
                s += [rnd.choice(['lose 0', 'feed 0', 'feed 1', 'lose 1']) for _ in range(4)]
            s += ['adv 256', 'poll 0', 'poll 1']
        s.append('drain')
    return s + ['drain']


def lengths(rnd, port):
    """Payloads of every size one after the other; on a port that nobody listens to as well."""
    ns = list(range(241))
    rnd.shuffle(ns)
    ns[60:] = ns[60:120] if vf.tier() == 'quick' else ns[60:]
    ns += [240, 239, 240, 240]
    s = ['reset 0']
    for i, n in enumerate(ns):
        s += ['send %d %d %d %d %d %d' % (i & 1, port, i & 255, i, n, i)] + (['drain'] if i % 4 == 3 else ['feedall 0', 'feedall 1', 'feedall 0'])
    return s + ['drain']


def check_binding(c):
    th = vf.tier() == 'thorough'
    rnd = c.rnd
    exe = harness('framer')
    env = {'FOCUS': 'PY'}
    edges = c.graph('MCFramer', 'MCFramerSync.cfg')
    s = []
    for p in vf.tour(edges, edges[0][0], rnd, max_len=60):
        x = ['reset 0']
        for a in p:
            v = framer.conv(json.loads(a))
            x += v if isinstance(v, list) else [v]
        s.append([y.replace(' 300 1 ', ' 300 1 ') for y in x])
    c.cov['paths_replayed'] = len(s)
    if not c.conform(exe, 'TraceFramer', s, 'replay', env=env, timeout=300):
        return
    k = 12 if th else 1
    s = [link(rnd, rnd.choice([20, 60, 120]), f) for f in [0] * 20 + [.5, 1, 3] * 15 for _ in range(k)] + [giveup(rnd) for _ in range(20 * k)] + [lengths(rnd, p) for p in (1, 5)]
    if not c.conform(exe, 'TraceFramer', s, 'random', env=env, timeout=300):
        return
    # buffers
    exe = harness('buf')
    edges = c.graph('MCBuf', 'MCBuf.cfg')
    s = []
    for p in vf.tour(edges, edges[0][0], rnd, deep=4000 if not th else 40000):
        s.append([memory.buf_conv(json.loads(a)) for a in p])
    s = [resize(rnd, x, s) for x in s]
    s += [resize(rnd, memory.buf_random(rnd, rnd.choice([30, 100, 200])), None) for _ in range(60 if not th else 1500)]
    if not c.conform(exe, 'TraceBuf', s, 'buffers', timeout=300):
        return
    exe = harness('pattern')
    if not c.conform(exe, 'TracePattern', [small(numeric.pattern_random(rnd)) for _ in range(40 if not th else 1000)], 'pattern', timeout=600):
        return
    c.conform(harness('ec'), 'TraceDiag', [['reset'] + ['pyec %d' % e for e in range(-1, 30)]], 'codes')


def resize(rnd, s, _):
    """The capacities that the Python allocator has; the reserve leaves the same room."""
    w = s[0].split()
    caps = [int(v) for v in w[1:3]]
    real = [next(c for c in (32, 64, 128, 256, 512, 1024) if c >= v) for v in caps]
    real = [min(512, v) for v in real]
    pre = ['reserve %d %d' % (k + 1, max(0, real[k] - caps[k])) for k in (0, 1)] if rnd.random() < .8 else []
    return ['reset %d %d' % tuple(real)] + pre + s[1:]


def small(s):
    """Segments that Python walks in reasonable time."""
    out = []
    for x in s:
        w = x.split()
        if w[0] == 'rxseg':
            w[2] = str(min(int(w[2]), 3000))
        if w[0] == 'txskip':
            w[1] = str(int(w[1]) % 140000)
        out.append(' '.join(w))
    return out


# ---------------------------------------------------------------- the qualification tool
def ping_conv(a):
    o = a['op']
    return {'process': lambda: 'process', 'none': lambda: None, 'rx': lambda: 'rx %d %d' % (a['id'] if a['k'] >= 0 else 254, a['k']),
            'done': lambda: 'done %d %d' % (a['id'], a['status']), 'adv': lambda: 'adv %d' % a['d']}[o]()


def pings(rnd, n):
    """A link with its own idea of what is under way; mostly right, sometimes not."""
    total = rnd.choice([-1, -1, -1, 0, 1, 2, 5, 40])
    s = ['reset %d %d' % (total, rnd.choice([0, 7, 100000]))]
    q, gen, delay = [], 0, 0          # [k, age, rsp, done]
    calm = rnd.choice([.5, .9, .98])

    def process():
        nonlocal q, gen
        q = [m for m in q if not (m[2] and m[3]) and m[1] < 5120]
        room = 3 - max(sum(not m[2] for m in q), sum(not m[3] for m in q))
        for _ in range(room if delay <= 0 else 0):
            if total < 0 or gen < total:
                q.append([gen, 0, 0, 0])
                gen += 1
    process()
    for _ in range(n):
        r = rnd.random()
        if rnd.random() > calm and r < .9:
            k = rnd.randrange(8)
            if k == 0:
                s.append('rx %d %d' % (rnd.randrange(256), rnd.choice([-1, -2, 0, max(0, gen - 1), gen, gen + 1])))
            elif k == 1:
                s.append('done %d %d' % (rnd.randrange(256), rnd.choice([0, 11])))
            elif k == 2 and q:
                x = rnd.choice(q)[0]
                s.append('rx %d %d' % (x % 256, -1 - x))
            elif k == 3 and gen:
                x = max(0, gen - 1 - rnd.choice([0, 1, 2, 3, 4, 5, 255, 256, 257]))
                s.append('rx %d %d' % (x % 256, x))
                if q and q[0][0] == x:
                    q[0][2] = 1
                    process()
            elif k == 4 and q:        # a later ping is answered
                m = rnd.choice(q)
                s.append('rx %d %d' % (m[0] % 256, m[0]))
                if not m[2]:
                    q = [x for x in q if x[2] or x[0] >= m[0]]
                    m[2] = 1
                    process()
            elif k == 5 and any(not m[3] for m in q):
                m = rnd.choice([m for m in q if not m[3]])
                s.append('done %d %d' % (m[0] % 256, rnd.choice([11, 9, 24])))
                q.remove(m)
                delay = 1024
                process()
            elif k == 6:
                d = rnd.choice([1023, 1024, 1025, 5119, 5120, 3000, 2560])
                s.append('adv %d' % d)
                q = [[m[0], m[1] + d, m[2], m[3]] for m in q]
                delay -= d
            else:
                s.append('process')
                process()
        elif r < .45 and any(not m[2] for m in q):
            m = next(m for m in q if not m[2])
            s.append('rx %d %d' % (m[0] % 256, m[0]))
            m[2] = 1
            process()
        elif r < .9 and any(not m[3] for m in q):
            m = next(m for m in q if not m[3])
            s.append('done %d 0' % (m[0] % 256))
            m[3] = 1
            process()
        else:
            if rnd.random() < .3:
                d = rnd.choice([1, 10, 500])
                s.append('adv %d' % d)
                q = [[m[0], m[1] + d, m[2], m[3]] for m in q]
                delay -= d
            s.append('process')
            process()
    return s


def master(rnd, n):
    """The tool at one end of a bad line."""
    s = ['reset %d' % rnd.choice([0, 5, 5000])]
    s += ['open', 'sync', 'feedall 1', 'feedall 0'] + ['feedall 1', 'feedall 0'] * rnd.choice([0, 2, 2])
    if rnd.random() < .2:
        s.append('deaf 1')
    if rnd.random() < .9:
        s.append('start %d' % rnd.choice([1, 2, 3, 4, 5, 5]))
    p = rnd.choice([0, 0, .1, .3])
    for _ in range(n):
        r = rnd.random()
        x = rnd.randrange(2)
        if r < p:
            s += rnd.choice([['lose %d' % x], ['lose %d' % x], ['flip %d %d %d' % (x, rnd.randrange(300), 1 << rnd.randrange(8))], ['dup %d' % x],
                             ['cut %d %d' % (x, rnd.choice([0, 5, 8, 20, 200]))], ['rx 0 170 1 2 3']])
        elif r < .75:
            s.append('%s %d' % (rnd.choice(['feed', 'feed', 'feedall']), x))
        elif r < .85:
            s += ['adv %d' % rnd.choice([1, 100, 256, 257]), 'loop 1', 'poll']
        elif r < .9:
            s.append('send %d %d %d %d' % (rnd.choice([1, 3, 15, 0]), rnd.randrange(256), rnd.choice([1, 5, 7, 9, 300]), rnd.choice([0, 3, 240])))
        elif r < .93:
            s += ['adv %d' % rnd.choice([205, 256, 257]), 'loop 1', 'poll'] * rnd.choice([4, 5, 20, 25])
        elif r < .94:
            s.append('mimic %d %d' % (rnd.randrange(5), rnd.choice([0, 1, 3, 4, 5, 5, 6, 7, 8, 261])))
        elif r < .95:
            s.append('deaf %d' % rnd.randrange(2))
        elif r < .96:
            s.append('open')
        else:
            s.append('loop %d' % rnd.choice([1, 2]))
    return s + ['drain', 'drain']


def check_ping(c):
    th = vf.tier() == 'thorough'
    exe = harness('ping')
    edges = c.graph('MCPingQueue', 'MCPingQueue.cfg')
    total = json.loads(edges[0][0])['1']
    s = [['reset %d 0' % total] + [y for y in (ping_conv(json.loads(a)) for a in p) if y] for p in vf.tour(edges, edges[0][0], c.rnd)]
    c.cov['paths_replayed'] = len(s)
    if not c.conform(exe, 'TracePingQueue', s, 'replay', timeout=200):
        return
    if th:
        c.model('MCPingQueue', 'MCPingQueueDeep.cfg', workers=8)
    if not c.conform(harness('master'), 'TraceMaster', [master(c.rnd, c.rnd.choice([10, 25, 50])) for _ in range(600 if th else 96)], 'tool', timeout=300):
        return
    k = 2000 if th else 150
    c.conform(exe, 'TracePingQueue', [pings(c.rnd, c.rnd.choice([20, 60, 200])) for _ in range(k)] + [pings(c.rnd, 1500) for _ in range(4)], 'random', timeout=300)


def log_random(rnd, n):
    s = ['reset']
    k = rnd.choice([1, 2, 3, 30])
    for _ in range(n):
        s.append(rnd.choice(['alloc %d', 'free %d', 'alloc %d', 'free %d', 'unsafe %d']) % rnd.randrange(k) if rnd.random() < .5 else
                 rnd.choice(['take %d' % rnd.choice([1, 32, 33, 64, 65, 128]), 'try %d' % rnd.choice([1, 32, 33, 64, 65, 128]), 'give %d' % rnd.randrange(8), 'give 0', 'nil %d' % rnd.randrange(3),
                             'other %d' % rnd.randrange(9)] + ['report %d' % rnd.randrange(2)] * (rnd.random() < .2)))
    return s + ['report %d' % rnd.randrange(2)]


def check_logs(c):
    th = vf.tier() == 'thorough'
    exe = harness('log', ['-DEMBC_LOG_LEVEL=EMBC_LOG_LEVEL_ALL'])
    edges = c.graph('MCLogCheck', 'MCLogCheck.cfg')
    s = []
    for p in vf.tour(edges, edges[0][0], c.rnd):
        x = ['reset']
        for a in map(json.loads, p):
            x.append('other %d' % c.rnd.randrange(9) if a['op'] == 'other' else '%s %d' % (a['op'] if a['op'] == 'free' else c.rnd.choice(['alloc', 'unsafe']), a['p']))
        s.append(x + ['report %d' % c.rnd.randrange(2)])
    c.cov['paths_replayed'] = len(s)
    if not c.conform(exe, 'TraceLogCheck', s, 'replay', timeout=200):
        return
    if th:
        c.model('MCLogCheck', 'MCLogCheckDeep.cfg', workers=8)
    c.conform(exe, 'TraceLogCheck', [log_random(c.rnd, c.rnd.choice([5, 20, 100])) for _ in range(4000 if th else 300)], 'random', timeout=300)


CHECKS = {'C30': check_logs, 'C29': check_ping, 'C28': check_binding}
