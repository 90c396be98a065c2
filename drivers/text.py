"""Command-line interface."""
import json, vf
from memory import cmds


def cli_conv(a):
    op = a['op']
    if op == 'reset':
        return 'reset %d %d %d %d 0 %s' % (a['mode'] == 'args', a['echo'], a['user'], a['verbose'], ' '.join(map(str, a['prompt'])))
    if op == 'feed':
        return 'feed ' + ' '.join(map(str, a['cs']))
    if op == 'rub':
        return 'rub %d' % a['ch']
    return 'eol %d %d' % (a['ch'], a['rc'])


def cli_line(rnd, target):
    """Characters of one line of about `target' characters."""
    style = rnd.random()
    out = []
    while len(out) < target:
        r = rnd.random()
        if r < (.15 if style < .5 else .5):
            out += [rnd.choice([32, 32, 9, 44])] * rnd.choice([1, 1, 1, 2, 5])
        elif r < (.17 if style < .8 else .6) and rnd.random() < .3:
            out.append(rnd.choice([35, 37, 64]))
        else:
            out += [rnd.choice([rnd.randint(33, 126), 97, 98, 27, 1, 200, 255, 128]) for _ in range(rnd.choice([1, 1, 3, 8]))]
    return [x for x in out[:target] if x not in (8, 127, 10, 13, 0)]


def cli_random(rnd, n_ops):
    s = ['reset %d %d %d %d %d %s' % (rnd.choice([0, 0, 0, 1, 1, 1, 1, 2]), rnd.randrange(3), rnd.choice([42, 46]), rnd.random() < .4, rnd.choice([0, 0, 0, 1, 1, 1, 2, 3]),
                                      ' '.join(str(rnd.choice([62, 36, 32, 65])) for _ in range(rnd.choice([0, 1, 3, 15]))))]
    args = s[0].split()[1]
    for _ in range(n_ops):
        r = rnd.random()
        if r < .05:
            s.append('echo %d %d' % (rnd.randrange(3), rnd.choice([42, 88])))
        elif r < .1:
            s.append('verbose %d' % rnd.randrange(2))
        elif r < (.2 if args == '1' else .12):
            s.append('parse %d %s' % (rnd.choice([-1, 0, 1, 7, -2, -100, 256]), ' '.join(map(str, cli_line(rnd, rnd.choice([0, 1, 5, 20, 33, 50, 63, 63, 64, 65, 66, 67, 68, 90]))))))
        else:
            line = cli_line(rnd, rnd.choice([0, 1, 2, 5, 10, 30, 33, 40, 62, 63, 64, 65, 66, 70, 130, 200]))
            i = 0
            while i < len(line):
                k = rnd.choice([1, 3, 10, 64, 200])
                s.append('feed ' + ' '.join(map(str, line[i:i + k])))
                i += k
                if rnd.random() < .3:
                    s += ['rub %d' % rnd.choice([8, 127]) for _ in range(rnd.choice([1, 1, 2, 4, len(line) - 62 if len(line) > 63 else 1, 70 if rnd.random() < .2 else 1]))]
                    if rnd.random() < .5:
                        s.append('feed ' + ' '.join(map(str, cli_line(rnd, rnd.choice([1, 2, 5])))))
            for e in rnd.choice([[13], [10], [13, 10], [10, 13], [13, 13], [10, 10], [13, 10, 10], []]):
                s.append('eol %d %d' % (e, rnd.choice([-1, 0, 0, 1, 2, 3, -2, -100, 256])))
                if rnd.random() < .1:
                    s.append(rnd.choice(['rub 8', 'rub 127', 'feed 32', 'feed 9', 'echo 1 42', 'verbose 1', 'feed 35']))
    return [x for x in s if x != 'feed ']


def check_cli(c):
    exe = vf.build_harness('cli')
    edges = c.graph('MCCli', 'MCCli.cfg')
    paths = vf.tour(edges, edges[0][0], c.rnd, max_len=200, deep=0)
    if vf.tier() == 'quick':
        c.cov['spec_paths'] = len(paths)
        paths = c.rnd.sample(paths, min(len(paths), 4000))
    paths += vf.walks(edges, edges[0][0], c.rnd, 20000 if vf.tier() == 'quick' else 400000)
    c.cov['spec_paths_replayed'] = len(paths)
    if not c.conform(exe, 'TraceCli', cmds(paths, cli_conv), 'replay'):
        return
    k = 250 if vf.tier() == 'quick' else 5000
    c.conform(exe, 'TraceCli', [cli_random(c.rnd, c.rnd.choice([5, 20, 40])) for _ in range(k)], 'random')


CHECKS = {'C18': check_cli}


# ------------------------------------------------------------------ C strings

def codes(s):
    return ' '.join(map(str, s))


def number(rnd):
    """A text that is, or is nearly, a number."""
    k = rnd.random()
    if k < .5:
        v = rnd.choice([0, 1, 7, 42, 65535, 65536, 65537, 2147483646, 2147483647, 2147483648, 2147483649, 4294967294, 4294967295, 4294967296,
                        429496729, 214748364, 999999999, 1000000000, rnd.randrange(1 << 32), rnd.randrange(1 << 31), rnd.randrange(10 ** rnd.randrange(1, 11))])
        t = str(v)
    elif k < .7:
        v = rnd.choice([0, 0xf, 0x10, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, rnd.randrange(1 << 32)])
        t = '0x' + ''.join(rnd.choice([ch, ch.upper()]) for ch in '%x' % v)
        if rnd.random() < .3:
            t = t.replace('0x', '0x' + '0' * rnd.randrange(12))
    else:
        t = rnd.choice(['', str(rnd.randrange(10 ** rnd.randrange(1, 6)))]) + rnd.choice(['.', '.', '.', '', ',', '..']) + ''.join(rnd.choice('0123456789') for _ in range(rnd.choice([0, 1, 2, 3, 9, 20])))
    if rnd.random() < .2:
        t = '0' * rnd.randrange(1, 14) + t
    if rnd.random() < .4:
        t = rnd.choice('+--') + t
    if rnd.random() < .4:
        t = ''.join(rnd.choice(' \t\n\v\f\r') for _ in range(rnd.choice([0, 1, 3]))) + t + ''.join(rnd.choice(' \t\n\v\f\r') for _ in range(rnd.choice([0, 1, 3])))
    b = [ord(ch) for ch in t]
    if rnd.random() < .15:
        b.insert(rnd.randrange(len(b) + 1), rnd.choice([32, 45, 46, 97, 103, 120, 88, 47, 58, 64, 71, 160, 176, 255, rnd.randrange(1, 256)]))
    return b


def cstr_random(rnd):
    s = ['reset']
    for _ in range(60):
        k = rnd.randrange(12)
        w = [rnd.choice([97, 65, 98, 66, 122, 90, 64, 91, 96, 123, rnd.randrange(1, 128)]) for _ in range(rnd.choice([0, 1, 2, 3, 8, 15, 16, 17, 40]))]
        if k <= 1:
            s.append('u32 ' + codes(number(rnd)))
        elif k <= 3:
            s.append('i32 ' + codes(number(rnd)))
        elif k <= 6:
            s.append('i32s %d ' % rnd.choice([0, 0, 1, 2, 2, 3, 6, 9, 10, 12, -1]) + codes(number(rnd)))
        elif k == 7:
            t = rnd.choice(['on', '1', 'enable', 'true', 'off', '0', 'disable', 'false', 'o', 'of', 'offf', 'tru', 'enabled', 'disabledisable0', 'truefalse', '10', '', 'yes'])
            b = [ord(rnd.choice([ch, ch.upper()])) for ch in t]
            if rnd.random() < .2:
                b += [32] * rnd.choice([1, 11, 12, 13, 14, 20])
            s.append('bool ' + codes(b))
        elif k == 8:
            t = [[rnd.choice([97, 98, 65]) for _ in range(rnd.randrange(4))] for _ in range(rnd.randrange(8))]
            if rnd.random() < .3:                        # entries that differ late
                base = [rnd.randrange(97, 100) for _ in range(rnd.choice([14, 15, 16, 17, 31, 33, 64, 300]))]
                t = [base + x for x in t] + [base]
            q = rnd.choice(t) if t and rnd.random() < .7 else [rnd.choice([97, 98, 65]) for _ in range(rnd.randrange(4))]
            s.append('index %s | ' % codes(q) + ' | '.join(codes(x) for x in t) + (' |' if t and not t[-1] else ''))
        elif k == 9:
            s.append('copy %d %d ' % (rnd.choice([0, -1, 1, 2, len(w), len(w) + 1, len(w) + 2, 100]), rnd.random() < .1) + codes(w))
        elif k == 10:
            v = list(w)
            if v and rnd.random() < .5:
                i = rnd.randrange(len(v))
                v[i] = rnd.choice([v[i] ^ 32 or 1, v[i] ^ 128 or 1, v[i] ^ 160 or 1, rnd.randrange(1, 256)])
            if rnd.random() < .3:
                v = v[:rnd.randrange(len(v) + 1)]
            a, b = (w, v) if rnd.random() < .5 else (v, w)
            s.append('%s %s | %s' % (rnd.choice(['case', 'prefix']), codes(a), codes(b)))
        else:
            s.append('upper ' + codes([rnd.choice([x, rnd.randrange(1, 256)]) for x in w]))
    return [x.rstrip() for x in s]


def check_cstr(c):
    exe = vf.build_harness('cstr')
    th = vf.tier() == 'thorough'
    texts = [json.loads(a)['s'] for _, a, _ in c.graph('MCCstr', 'MCCstr.cfg')]
    if th:
        c.model('MCCstr', 'MCCstr5.cfg', workers=8)
    c.rnd.shuffle(texts)
    sc = []
    for i in range(0, len(texts), 1000):
        s = ['reset', 'nibbles']
        for t in texts[i:i + 1000]:
            s += [('%s %s' % (op, codes(t))).strip() for op in ('u32', 'i32', 'i32s 0', 'i32s 2')] + (['i32s 1 ' + codes(t), 'i32s 5 ' + codes(t)] if th else [])
        sc.append(s)
    if not c.conform(exe, 'TraceCstr', sc, 'texts'):
        return
    c.conform(exe, 'TraceCstr', [cstr_random(c.rnd) for _ in range(6000 if th else 400)], 'random')


CHECKS['C23'] = check_cstr
