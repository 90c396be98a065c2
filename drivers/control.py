"""Event manager, finite state machine."""
import json, os, vf
from memory import cmds

# ------------------------------------------------------------------ event manager

WRAP = ['-Wl,--wrap=calloc,--wrap=malloc,--wrap=free']


def evm_scripts(path, sh=0):
    """A path of EventManager actions as a script: what happens between a fire and its cb_end
    becomes the callback's behaviour list."""
    out, depth, proc, inner = [], 0, None, None
    for a in map(json.loads, path):
        op = a['op']
        if op == 'reset':
            out.append('reset %d %d' % (a['base'], sh))
            continue
        if op == 'free':
            out.append('free')
            continue
        t = {'schedule': lambda: 's %d %d' % (a['tag'], a['ts']), 'cancel': lambda: 'c %d' % a['id'],
             'query': lambda: 'q %d' % a['t']}.get(op)
        if op == 'process':
            proc = ['proc %d' % a['now']]
        elif op == 'fire':
            proc.append('/')
        elif op == 'cb_end':
            pass
        elif op == 'processed':
            out.append(' '.join(proc))
            proc = None
        elif proc is not None:
            proc.append(t())
        else:
            out.append(t())
    if proc is not None:
        out.append(' '.join(proc))
    return out


def evm_random(rnd, n_ops):
    base = rnd.choice([0, 0, 1, 3, 10, 30])
    # one script time unit is 2^shift, so that times also differ only in their high bits
    s = ['reset %d %d' % (base, rnd.choice([0, 0, 0, 1, base + 4] if base else [0, 0, 5, 16, 30, 31, 32, 33, 36]))]
    span = rnd.choice([3, 10, 100, 100000])
    now, tag = 0, 0
    tags = []

    def one(in_cb=False):
        nonlocal tag
        r = rnd.random()
        if r < .45 and tag < 3500:
            tag += 1
            tags.append(tag)
            ts = now + rnd.choice([0, 1, -1, 2, 3, rnd.randint(-span // 4, span)])
            if in_cb and rnd.random() < .5:
                ts = now + rnd.randint(1, span)
            if rnd.random() < .03:
                ts = 2000000000
            return 's %d %d' % (tag, ts)
        if r < .75 and tags:
            return 'c %d' % rnd.choice(tags[-8:] if rnd.random() < .8 else tags)
        if r < .95 or not in_cb:
            return 'q %d' % (now + rnd.randint(-2, 5))
        return 'p %d' % (now + rnd.randint(-3, 3))
    for _ in range(n_ops):
        if rnd.random() < .25:
            now += rnd.choice([0, 1, 1, 2, span // 3])
            p = ['proc %d' % (rnd.choice([2000000000, 2000000001, -2000000000, -2000000001]) if rnd.random() < .1 else now)]
            for _ in range(rnd.choice([0, 0, 1, 3, 8])):
                p.append('/')
                p += [one(True) for _ in range(rnd.choice([0, 1, 1, 2, 4]))]
            s.append(' '.join(p))
        else:
            s.append(one())
    if rnd.random() < .5:
        s += ['proc %d' % (now + 2 * span), 'q %d' % now]
    return s + ['free']


def evm_many(rnd, n):
    """More events pending at once than fit in a byte, some cancelled, the rest fired in a few calls."""
    s = ['reset 0 0'] + ['s %d %d' % (t, rnd.randint(1, n)) for t in range(1, n + 1)]
    s += ['c %d' % t for t in rnd.sample(range(1, n + 1), 20)] + ['proc %d' % (n // 3)]
    s += ['s %d %d' % (t, rnd.randint(n // 3, n)) for t in range(n + 1, n + 40)]
    return s + ['c %d' % t for t in rnd.sample(range(1, n + 40), 10)] + ['proc %d' % (n // 2), 'q %d' % n, 'proc %d' % n, 'free']


def evm_bulk(rnd, n):
    """More events than fit in 16 bits."""
    ks = [0, 1, n - 1, n // 2] + [rnd.randrange(n) for _ in range(4)]
    return ['reset %d 0' % rnd.choice([0, 1]), 'B %d' % n, 'q 0'] + ['b %d' % k for k in ks] + ['q 1', 's 1 5', 's 2 %d' % n, 'proc 3', 'q 0', 'proc 6 / c 1 b %d' % rnd.randrange(n - 9), 'free']


def check_evm(c):
    exe = vf.build_harness('evm', WRAP)
    edges = c.graph('MCEventManager', 'MCEventManager.cfg')
    paths = vf.tour(edges, edges[0][0], c.rnd)
    c.cov['spec_transitions_replayed'] = len(edges)
    if not c.conform(exe, 'TraceEventManager', [evm_scripts(p, sh) for i, p in enumerate(paths) for sh in ([0, 32] if i % 2 else [0, 31, 36])], 'replay'):
        return
    k = 400 if vf.tier() == 'quick' else 8000
    if not c.conform(exe, 'TraceEventManager', [evm_bulk(c.rnd, n) for n in ((66000,) if k == 400 else (300, 33000, 66000, 140000))], 'bulk'):
        return
    c.conform(exe, 'TraceEventManager', [evm_many(c.rnd, n) for n in (270,)] + [evm_random(c.rnd, c.rnd.choice([20, 60, 200])) for _ in range(k)], 'random')


# ------------------------------------------------------------------ finite state machine

def fsm_script(path):
    """A path of Fsm actions as a script: between a call-back and its return lies its plan."""
    out, cur = [], None
    for a in map(json.loads, path):
        op = a['op']
        if op == 'reset':
            cur = ['reset %d %d' % (len(a['st']), len(a['tr']))]
            cur += ['%d %d' % (x['en'], x['ex']) for x in a['st']]
            cur += ['%d %d %d %d' % (x['cur'], x['next'], x['ev'], x['h']) for x in a['tr']]
        elif op == 'event':
            cur = ['event %d' % a['e']]
        elif op in ('handler', 'exit', 'enter'):
            cur.append('/')
        elif op == 'post':
            cur.append('p%d' % a['e'])
        elif op == 'handler_ret':
            cur.append('r%d' % a['v'])
        elif op == 'done':
            out.append(' '.join(cur))
            cur = None
    if cur:
        out.append(' '.join(cur))
    return out


def fsm_random(rnd, n_ops):
    ns, nt = rnd.choice([1, 2, 3, 5, 12, 30, 64, 65, 127]), rnd.choice([1, 2, 4, 8, 16, 39, 100, 126])
    nev = rnd.choice([1, 2, 4, 10, 120, 128])
    hooks = rnd.random()
    wild = rnd.choice([0, 0, .2])
    t = []
    for i in range(nt):
        cur = rnd.choice([-1] + list(range(ns)) * 2)
        nxt = rnd.choice([-2] + list(range(ns)) * 3 + ([ns + rnd.randrange(3)] if ns < 120 and rnd.random() < wild else []))
        e = rnd.choice([-1, rnd.randrange(nev), rnd.randrange(nev), -3])
        t.append('%d %d %d %d' % (cur, nxt, e, rnd.random() < .7))
    if rnd.random() < .9:
        t[rnd.randrange(nt)] = '-1 %d -3 %d' % (rnd.randrange(ns), rnd.random() < .5)
    budget = [0]

    def plan():
        out = []
        for _ in range(rnd.choice([0, 1, 3, 8])):
            out.append('/')
            for _ in range(rnd.choice([0, 0, 0, 1, 2, 3])):
                out.append(rnd.choice(['p%d' % rnd.randrange(nev), 'p%d' % rnd.randrange(nev), 'R']))
            if rnd.random() < .02:
                out += ['p%d' % rnd.randrange(nev) for _ in range(rnd.randint(5, 9))]
            out.append('r%d' % rnd.choice([-1, -1, -2, -3, -3, rnd.randrange(ns), ns if wild and ns < 120 and rnd.random() < .2 else -1]))
        return out
    s = [' '.join(['reset %d %d' % (ns, nt)] + ['%d %d' % (rnd.random() < hooks, rnd.random() < hooks) for _ in range(ns)] + t +
                  (plan() if rnd.random() < .5 else []))]
    for _ in range(n_ops):
        s.append(' '.join(['event %d' % rnd.choice([rnd.randrange(nev), rnd.randrange(nev), rnd.randrange(nev), -3])] + plan()))
    if rnd.random() < .2:
        s.append('badtable %d' % rnd.randrange(ns))
    return s


def check_fsm(c):
    exe = vf.build_harness('fsm')
    edges = c.graph('MCFsm', 'MCFsm.cfg')
    paths = vf.tour(edges, edges[0][0], c.rnd)
    c.cov['spec_transitions_replayed'] = len(edges)
    if not c.conform(exe, 'TraceFsm', [fsm_script(p) for p in paths], 'replay'):
        return
    k = 500 if vf.tier() == 'quick' else 8000
    c.conform(exe, 'TraceFsm', [fsm_random(c.rnd, c.rnd.choice([5, 20, 60])) for _ in range(k)], 'random')


CHECKS = {'C16': check_evm, 'C17': check_fsm}


# ------------------------------------------------------------------ diagnostics

DBC = ['true', 'false', 'notnull', 'eq', 'gt', 'gte', 'ne', 'lt', 'lte', 'gt0', 'gte0', 'ne0', 'lt0', 'lte0', 'range', 'req', 'assert', 'hard', 'halloc', 'fatal']
ARG = ['true', 'false', 'notnull', 'gt0', 'gte0', 'ne0', 'lt0', 'lte0', 'range', 'req', 'assert']
LEVELS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 17, 27, 23, 24, 25, 26, 37, 47, 28, 29]
FIELDS = {'fatal_set': 'h', 'print_set': 'h', 'log_init': 'h', 'log_fini': '', 'level': 'l g', 'lib_init': '', 'alloc_set': 'a f', 'alloc': 'kind i n fail',
          'free': 'kind i kept', 'say': 'line msg', 'log': 'l how s', 'dbc': 'm a b', 'arg': 'm a b', 'onerr': 'm a b'}


def diag_conv(a):
    return ' '.join([a['op']] + [str(int(a[k]) if isinstance(a[k], bool) else a[k]) for k in FIELDS[a['op']].split()])


def diag_random(rnd):
    s = ['reset']
    fatal, alloc, free, live = 0, 0, 0, set()
    for _ in range(rnd.choice([20, 60])):
        r = rnd.random()
        if r < .06:
            fatal = rnd.randrange(3)
            s.append('fatal_set %d' % fatal)
        elif r < .12:
            s.append('print_set %d' % rnd.randrange(3))
        elif r < .18:
            s.append(rnd.choice(['log_fini', 'log_init 1', 'log_init 2', 'log_init 0', 'log_init 1']))
        elif r < .24:
            s.append('level %d %d' % (rnd.randrange(-1, 11), rnd.choice([10, 10, rnd.randrange(-1, 11)])))
        elif r < .28:
            alloc, free = rnd.choice([(9, 9), (0, 0), (1, 1), (2, 1), (0, 2), (1, 0)])
            s.append('lib_init' if alloc == 9 else 'alloc_set %d %d' % (alloc, free))
        elif r < .36:
            i = rnd.randrange(8)
            fail = alloc in (1, 2) and fatal and rnd.random() < .2
            if i in live or (not alloc and not fatal):
                continue
            k = 'plain' if fail or not alloc else rnd.choice(['plain', 'clr', 'lib'])
            s.append('alloc %s %d %d %d' % (k, i, rnd.choice([0, 1, 7, 64, 1000, 255, 256, 4096, 65535, 65536, 65537, 70000, 131077, rnd.randrange(1 << 18)]), fail))
            if alloc and not fail:
                live.add(i)
        elif r < .42:
            i = rnd.choice([-1] + sorted(live))
            k = rnd.choice(['plain', 'lib'])
            if not fatal and (not free or (i < 0 and k == 'plain')):
                continue
            s.append('free %s %d %d' % (k, i, not free))
            live.discard(i)
        elif r < .46:
            s.append('say %d %s' % (rnd.choice([0, 1, 99999]), rnd.choice(['m', 'why:not', 'x' * 300])))
        elif r < .7:
            s.append('log %d %s %s' % (rnd.choice(LEVELS), rnd.choice(['m', 'f', 'f11', 'lit']), rnd.choice(['w', 'hello', '%s', '100%', '%d%n', 'z' * 200])))
        elif r < .72:
            s.append('loglong %d %d' % (rnd.choice(LEVELS), rnd.choice([500, 4000, 8170, 8173, 8174, 8175, 8176, 8177, 8178, 8179, 8180, 8181, 8182, 8190, 8191, 8192, 8193, 12000])))
        else:
            a, b = rnd.choice([0, 0, 1, -1, 2, 3, rnd.randrange(-5, 6)]), rnd.choice([0, 0, 1, -1, rnd.randrange(-5, 6)])
            q = rnd.random()
            if q < .4:
                s.append('dbc %s %d %d' % (rnd.choice(DBC), a, b))
            elif q < .75:
                s.append('arg %s %d %d' % (rnd.choice(ARG), a, b))
            else:
                s.append('onerr %s %d %d' % (rnd.choice(['ret', 'msg', 'exit', 'with']), abs(a) * 5, b))
    return s


def check_diag(c):
    exe = vf.build_harness('diag', [os.path.join(vf.REPO, 'src', 'lib.c')])
    th = vf.tier() == 'thorough'
    for cfg in ('MCDiagLog.cfg', 'MCDiagAlloc.cfg'):
        edges = c.graph('MCDiag', cfg)
        paths = vf.tour(edges, edges[0][0], c.rnd, max_len=60)
        if not c.conform(exe, 'TraceDiag', [['reset'] + s for s in cmds(paths, diag_conv)], 'replay ' + cfg[6:-4]):
            return
    # every macro on every small pair, every level under every threshold, every code
    sc = []
    for f in (0, 1):
        for m in DBC:
            sc.append(['reset', 'fatal_set %d' % f, 'print_set 1'] + ['dbc %s %d %d' % (m, a, b) for a in range(-4, 5) for b in range(-4, 5)])
    for m in ARG:
        for lo in (5, 6):
            sc.append(['reset', 'log_init 1', 'level %d 10' % lo] + ['arg %s %d %d' % (m, a, b) for a in range(-4, 5) for b in range(-4, 5)])
    for t in range(-1, 11):
        for g in range(-1, 11):
            sc.append(['reset', 'log_init 2', 'level %d %d' % (t, g)] + ['log %d m hello' % v for v in LEVELS])
    sc.append(['reset', 'levels'] + ['ec %d' % e for e in list(range(-3, 40)) + [255, 256, -2147483647, 2147483647]])
    # the ends of the integers (a - b is the expression under test in assert, and b + 2 the upper limit in range)
    far = (-2147483647, -2000000000, -65536, -1, 0, 1, 65536, 2000000000, 2147483645)
    for pre, kind, ms in ((['fatal_set 1'], 'dbc', DBC), (['log_init 1', 'level 6 10'], 'arg', ARG)):
        for m in ms:
            sc.append(['reset'] + pre + ['%s %s %d %d' % (kind, m, a, b) for a in far + (2147483646, 2147483647) for b in far if m != 'assert' or abs(a - b) < 1 << 31])
    sc.append(['reset', 'alloc_set 1 1'] + ['alloc %s 0 %d 0;free plain 0 0' % (k, n) for k in ('clr', 'plain') for n in (1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 131072, 200000, 1 << 20)])
    sc[-1] = [x for y in sc[-1] for x in y.split(';')]
    sc.append(['reset', 'log_init 1', 'level 10 10'] + ['onerr %s %d %d' % (m, a, b) for m in ('ret', 'msg', 'exit', 'with') for a in [-2147483647, -256, -2, -1] + list(range(0, 30)) + [255, 256, 65536] for b in (0, 1, 7)])
    sc += [['reset', 'print_set 1'] + ['loglong 3 %d' % n for n in range(8165, 8200)], ['reset', 'print_set 0'] + ['loglong 3 %d' % n for n in (1, 8190, 8192, 9000)]]
    sc.append(['reset', 'print_set 2'] + ['log %d %s a%%sb' % (v, h) for v in LEVELS for h in ('m', 'f', 'f11', 'lit')])
    if not c.conform(exe, 'TraceDiag', sc, 'tables'):
        return
    c.conform(exe, 'TraceDiag', [diag_random(c.rnd) for _ in range(6000 if th else 400)], 'random')


CHECKS['C26'] = check_diag
