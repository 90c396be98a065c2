import json, vf
from memory import cmds


# ------------------------------------------------------------------ list

def list_conv(a):
    op = a['op']
    if op == 'reset':
        return 'reset %d %d' % (len(a['fw']), a['ni'])
    if op in ('add_head', 'add_tail'):
        return '%s %d %d' % (op, a['k'], a['i'])
    if op in ('remove_head', 'remove_tail'):
        return '%s %d' % (op, a['k'])
    if op == 'remove':
        return 'remove %d' % a['i']
    if op in ('insert_before', 'insert_after'):
        return '%s %d %d' % (op, a['p'], a['i'])
    if op == 'append':
        return 'append %d %d' % (a['k'], a['s'])
    if op == 'query':
        return 'query %d %d %d' % (a['k'], a['i'], a['x'])
    return 'iterate %d %d %d %s' % (a['k'], a['rev'], a['safe'], ' '.join(map(str, a['rm'])))


def list_random(rnd, n_ops):
    nl, ni = rnd.choice([1, 2, 3, 4]), rnd.choice([1, 2, 3, 5, 10, 30])
    L = {k: [] for k in range(1, nl + 1)}
    s = ['reset %d %d' % (nl, ni)]

    def out(i):
        for k in L:
            if i in L[k]:
                L[k].remove(i)
    home = lambda i: next((k for k in L if i in L[k]), 0)
    for _ in range(n_ops):
        op = rnd.choice(['add_head', 'add_tail', 'add_tail', 'remove_head', 'remove_tail', 'remove', 'insert_before', 'insert_after',
                         'append', 'query', 'query', 'iterate'])
        k, i = rnd.randint(1, nl), rnd.randint(1, ni)
        if op in ('add_head', 'add_tail'):
            out(i)
            L[k].insert(0, i) if op == 'add_head' else L[k].append(i)
            s.append('%s %d %d' % (op, k, i))
        elif op in ('remove_head', 'remove_tail'):
            if L[k]:
                L[k].pop(0 if op == 'remove_head' else -1)
            s.append('%s %d' % (op, k))
        elif op == 'remove':
            out(i)
            s.append('remove %d' % i)
        elif op in ('insert_before', 'insert_after'):
            p = rnd.randint(1, ni)
            if p == i or not home(p):
                continue
            h = home(p)
            out(i)
            j = L[h].index(p)
            L[h].insert(j if op == 'insert_before' else j + 1, i)
            s.append('%s %d %d' % (op, p, i))
        elif op == 'append':
            t = rnd.randint(1, nl)
            if t == k:
                continue
            L[k] += L[t]
            L[t] = []
            s.append('append %d %d' % (k, t))
        elif op == 'query':
            s.append('query %d %d %d' % (k, i, rnd.choice([0, len(L[k]) - 1, len(L[k]), rnd.randint(-1, ni)])))
        else:
            safe = rnd.random() < .7
            rm = [x for x in range(1, ni + 1) if rnd.random() < rnd.choice([0, .3, 1])] if safe else []
            s.append('iterate %d %d %d %s' % (k, rnd.randrange(2), safe, ' '.join(map(str, rm))))
            L[k] = [x for x in L[k] if x not in rm]
    return s


def list_large(rnd, ni, n_ops):
    """Long lists: positions and lengths beyond 8 and 16 bits."""
    a = rnd.choice([ni // 2, ni - 1, 1, ni - rnd.randrange(1, ni // 2)])
    s = ['reset 2 %d' % ni, 'fill 1 1 %d' % a, 'fill 2 %d %d' % (a + 1, ni)]
    at = lambda: rnd.choice([1, a, a + 1, ni, rnd.randint(1, ni), min(ni, 256), min(ni, 257), min(ni, 65537)])
    q = lambda: 'query %d %d %d' % (rnd.choice([1, 1, 1, 2]), at(), at() - rnd.choice([0, 1]))
    s += [q(), q(), 'append 1 2', 'query 1 %d %d' % (ni, ni - 1), q()]
    for _ in range(n_ops):
        s.append(rnd.choice([q, q, lambda: 'remove %d' % at(), lambda: 'add_%s 1 %d' % (rnd.choice(['head', 'tail']), at()),
                             lambda: 'iterate 1 %d 1 %s' % (rnd.randrange(2), ' '.join(str(x) for x in {at(), at()}))])())
    return s


def check_list(c):
    exe = vf.build_harness('list')
    edges = c.graph('MCList', 'MCList.cfg')
    paths = vf.tour(edges, edges[0][0], c.rnd)
    c.cov['spec_transitions_replayed'] = len(edges)
    if not c.conform(exe, 'TraceList', cmds(paths, list_conv), 'replay'):
        return
    k = 200 if vf.tier() == 'quick' else 4000
    c.conform(exe, 'TraceList', [list_random(c.rnd, c.rnd.choice([30, 100, 200])) for _ in range(k)]
              + [list_large(c.rnd, ni, 12) for ni in (130, 257, 300, 1000)] * (1 if vf.tier() == 'quick' else 5) + [['reset 1 65700', 'fill 1 1 65700', 'query 1 65690 65689']], 'random')


# ------------------------------------------------------------------ intmap

def intmap_random(rnd, n_ops):
    nk = rnd.choice([3, 6, 10, 20, 40, 100, 200])
    s = ['reset %d %d %d' % (rnd.choice([1, 1, 2, 7, 8, 8, 32, 64, 128, 1000, 4096, -1, -8, 65536, 0]), rnd.choice([0, 0, 1, -1, 5000]), (rnd.random() < .25) + 2 * rnd.randrange(4))]
    top = rnd.choice([1, 2, 50])
    its, nxt = [], 1
    grow = .6
    keys = set()
    for n in range(n_ops):
        if n % 30 == 0:
            grow = rnd.choice([.2, .5, .8])
            hot = rnd.randint(1, nk)
        k = rnd.randint(1, nk) if rnd.random() < .7 else max(1, min(nk, hot + rnd.randint(-2, 2)))
        r = rnd.random()
        if r < .55:
            if rnd.random() < grow:
                s.append('put %d %d %d' % (k, rnd.randint(0, top), rnd.random() < .8))
                keys.add(k)
            else:
                s.append('remove %d %d' % (k, rnd.random() < .8))
                keys.discard(k)
        elif r < .7:
            s.append('get %d' % k)
        elif r < .76 and len(its) < 4:
            i = next(x for x in range(1, 10) if x not in its)
            its.append(i)
            s.append('iter_new %d' % i)
        elif r < .95 and its:
            s.append('iter_next %d' % rnd.choice(its))
        elif its:
            i = its.pop(rnd.randrange(len(its)))
            if rnd.random() < .6:
                s.append('iter_all %d 600' % i)
            s.append('iter_free %d' % i)
    for k in sorted(keys):
        s.append('get %d' % k)
    for i in its:
        s.append('iter_all %d 600' % i)
        s.append('iter_free %d' % i)
    s += ['iter_new 1', 'iter_all 1 600', 'iter_next 1', 'iter_free 1', 'free']
    return s


def intmap_bulk(rnd):
    """growth through several resizes, with everything looked up again, then taken down"""
    n = rnd.choice([14, 15, 16, 17, 18, 33, 62, 63, 64, 65, 130, 255, 260, 600])
    stride = rnd.choice([1, 2, 8, 32, 128, 3, -1, 512])
    ks = list(range(1, n + 1))
    if rnd.random() < .5:
        rnd.shuffle(ks)
    s = ['reset %d %d 0' % (stride, rnd.choice([0, 1, -7]))]
    for j, k in enumerate(ks):
        s.append('put %d %d 1' % (k, k % 97 + 1))
        if rnd.random() < .1:
            s.append('get %d' % rnd.choice(ks[:j + 1]))
    s += ['get %d' % k for k in range(1, n + 3)]
    s += ['iter_new 1', 'iter_all 1 2000', 'iter_free 1']
    rnd.shuffle(ks)
    for k in ks[:rnd.choice([0, n // 2, n])]:
        s.append('remove %d 1' % k)
    s += ['get %d' % k for k in range(1, n + 1, 3)]
    return s + ['free']


def intmap_large(rnd, n):
    """so many entries that the largest growths happen, with iterators before and after"""
    k = rnd.randrange(1, n // 3)
    s = ['reset %d %d %d' % (rnd.choice([1, 1, 3, -1, 8]), rnd.choice([0, 0, 1]), rnd.randrange(2)), 'bulk 1 %d %d' % (n, rnd.choice([1, 1, 2])), 'bulk 1 %d 1' % n,
         'sweep 1 %d' % (n + 2), 'iter_new 1', 'iter_keys 1 %d' % (n + 5), 'iter_next 1', 'iter_free 1', 'bulkrm %d %d %d' % (k, n - k, rnd.choice([1, 2, 3])),
         'sweep 1 %d' % n, 'iter_new 2', 'bulk %d %d 3' % (k, n - k), 'bulkrm 1 %d 7' % n, 'iter_keys 2 %d' % (2 * n), 'iter_free 2']
    return s + ['sweep 1 %d' % n, 'free']


def intmap_bits():
    """keys that differ in single bits"""
    return [['reset 0 %d %d' % (b, t)] + ['put %d %d 1' % (k, k) for k in range(1, 66)] + ['get %d' % k for k in range(1, 67)] + ['remove %d 1' % k for k in range(1, 65, 3)]
            + ['get %d' % k for k in range(1, 67)] + ['iter_new 1', 'iter_all 1 200', 'iter_free 1', 'free'] for b in (0, 1, -1, 12345) for t in (0, 1)]


def intmap_deterministic(rnd, keys, stride, maxlen):
    """every removal point of every traversal: iterator stepped j times, then one key removed / put, then drained"""
    out = []
    for base in (0, 3):
        for j in range(len(keys) + 1):
            for k in keys:
                for again in (0, 1, 2):
                    s = ['reset %d %d %d' % (stride, base, 2 * (j % 4))] + ['put %d %d 1' % (x, x - keys[0]) for x in keys]
                    s += ['iter_new 1'] + ['iter_next 1'] * j + ['remove %d 1' % k]
                    if again == 1:
                        s += ['put %d 9 1' % k]
                    elif again == 2:
                        s += ['put %d 9 1' % (max(keys) + 1), 'iter_new 2', 'remove %d 1' % keys[0], 'iter_all 2 50', 'iter_free 2']
                    s += ['iter_all 1 50', 'iter_next 1', 'iter_free 1', 'free']
                    out.append(s)
    return out


def check_intmap(c):
    exe = vf.build_harness('intmap')
    c.model('MCIntMap', 'MCIntMap.cfg', workers=8)
    det = []
    for keys, stride in (([1, 2, 3], 1), ([1, 2, 3], 8), ([5, 6, 7, 15], 1), ([6, 7, 14, 15], 1), ([1, 2, 3, 4, 5], 4), ([7], 1)):
        det += intmap_deterministic(c.rnd, keys, stride, 0)
    c.cov['directed_histories'] = len(det)
    if not c.conform(exe, 'TraceIntMap', det, 'directed'):
        return
    k = 150 if vf.tier() == 'quick' else 3000
    s = [intmap_random(c.rnd, c.rnd.choice([30, 100, 300])) for _ in range(k)] + [intmap_bulk(c.rnd) for _ in range(k // 5)] + intmap_bits()
    big = (20000, 17000, 9000, 5000) if vf.tier() == 'quick' else (70000, 66000, 20000, 20000, 17000, 17000, 5000, 5000)
    s += [intmap_large(c.rnd, n) for n in big]
    c.conform(exe, 'TraceIntMap', s, 'random')


# ------------------------------------------------------------------ strmap / hashmap

def strmap_conv(a):
    op = a['op']
    if op == 'reset':
        return 'reset %s %d' % (a['kind'], a['hv'])
    if op == 'put':
        return 'put %d %d %d' % (a['k'], a['v'], a['ask'])
    if op == 'get':
        return 'get %d' % a['k']
    if op == 'remove':
        return 'remove %d %d' % (a['k'], a['ask'])
    return 'free'


def strmap_random(rnd, n_ops):
    kind = rnd.choice(['str', 'str', 'hash'])
    hv = rnd.randrange(7)
    nk = rnd.choice([3, 6, 10, 50, 200])
    s = ['reset %s %d' % (kind, hv + 10 * rnd.randrange(4))]
    top = rnd.choice([1, 2, 50])
    for n in range(n_ops):
        if n % 30 == 0:
            grow = rnd.choice([.2, .5, .8])
        k = rnd.randint(1, nk)
        r = rnd.random()
        if r < .3:
            s.append('get %d' % k)
        elif kind == 'hash' or rnd.random() < grow:
            s.append('put %d %d %d' % (k, rnd.randint(0, top), rnd.random() < .8))
        else:
            s.append('remove %d %d' % (k, rnd.random() < .8))
    return s + ['get %d' % k for k in range(1, nk + 1)] + ['free']


def strmap_large(rnd, kind, n):
    """more keys than a narrow counter holds"""
    k = rnd.randrange(1, n // 3)
    s = ['reset %s 0' % kind, 'bulk %d %d' % (k, n), 'sweep 1 %d' % (n + 2), 'bulk 1 %d' % n, 'get %d' % k, 'put %d 5 1' % (n - 1), 'put %d 5 1' % (n + 1)]
    if kind == 'str':
        s += ['bulkrm %d %d' % (k, n - k), 'sweep 1 %d' % (n + 2), 'bulkrm 1 %d' % n, 'bulk 1 5']
    return s + ['sweep 1 %d' % (n + 2), 'free']


def check_strmap(c):
    exe = vf.build_harness('strmap')
    edges = c.graph('MCStrMap', 'MCStrMap.cfg')
    paths = vf.tour(edges, edges[0][0], c.rnd)
    c.cov['spec_transitions_replayed'] = len(edges)
    base = cmds(paths, strmap_conv)
    allv = []
    for p in base:
        kind = p[0].split()[1]
        allv += [['reset %s %d' % (kind, hv)] + p[1:] for hv in (0, 11, 22, 33, 4, 5, 6)]
    if not c.conform(exe, 'TraceStrMap', allv, 'replay'):
        return
    k = 200 if vf.tier() == 'quick' else 4000
    c.conform(exe, 'TraceStrMap', [strmap_random(c.rnd, c.rnd.choice([30, 100, 300])) for _ in range(k)]
              + [strmap_large(c.rnd, kind, n) for kind, n in (('str', 300), ('hash', 300), ('str', 2000), ('hash', 2000), ('str', 66000), ('hash', 66000))], 'random')


CHECKS = {'C08': check_list, 'C09': check_intmap, 'C10': check_strmap}
