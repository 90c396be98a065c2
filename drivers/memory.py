import json, vf


def cmds(paths, conv):
    """Turn paths of spec actions into harness scripts."""
    out = []
    for p in paths:
        s = []
        for a in p:
            c = conv(json.loads(a))
            if c:
                s.append(c)
        out.append(s)
    return out


# ------------------------------------------------------------------ pool

def pool_conv(a):
    op = a['op']
    if op == 'reset':
        return 'reset %d %d' % (a['n'], a['size'])
    if op == 'alloc':
        return 'alloc %d %d' % (a['h'], a['safe'])
    if op == 'free':
        return 'free %d' % a['h']
    if op == 'again':
        return 'again %d %d' % (a['n'], a['size'])
    return 'is_empty'


def pool_random(rnd, n_ops):
    n, size = rnd.choice([1, 2, 3, 5, 8, 16, 33, 100, 255, 256, 257, 300]), rnd.choice([rnd.randrange(1, 300), 1, 2, 3, 4, 7, 8, 9, 12, 16, 24, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 4097])
    if n <= 8 and rnd.random() < .2:
        size = rnd.choice([32767, 32768, 65528, 65535, 65536, 65537, 70000, 131072])
    s = ['reset %d %d' % (n, size)]
    live = []
    if n > 100 and rnd.random() < .7:
        live = list(range(3000, 3000 + n - rnd.choice([0, 1, 5])))
        s += ['alloc %d 0' % h for h in live]
    nxt = 1
    mode = 0
    for i in range(n_ops):
        if i % 25 == 0:
            mode = rnd.choice([0.2, 0.5, 0.9])
            if i and rnd.random() < .15:
                # a block takes its size rounded up and a header: shrink either or both, never grow (the harness skips what does not fit)
                n, size = rnd.randint(1, n), rnd.choice([size, size, rnd.randint(1, size)])
                s.append('again %d %d' % (n, size))
                live = []
        r = rnd.random()
        if r < 0.1:
            s.append('is_empty')
        elif r < 0.1 + 0.9 * mode or not live:
            h = nxt
            s.append('alloc %d %d' % (h, rnd.random() < 0.5))
            if len(live) < n:
                live.append(h)
                nxt += 1
                if nxt > 2900:
                    break
        else:
            s.append('free %d' % live.pop(rnd.choice([0, -1, rnd.randrange(len(live))])))
    while live and rnd.random() < 0.9:
        s.append('free %d' % live.pop(rnd.randrange(len(live))))
    s.append('drain %d' % rnd.randrange(2))
    return s


def check_pool(c):
    exe = vf.build_harness('pool')
    edges = c.graph('MCPool', 'MCPool.cfg')
    init = edges[0][0]
    paths = vf.tour(edges, init, c.rnd)
    c.cov['spec_transitions_replayed'] = len(edges)
    if not c.conform(exe, 'TracePool', cmds(paths, pool_conv), 'replay'):
        return
    k = 60 if vf.tier() == 'quick' else 1500
    # so many blocks that a narrow counter or index wraps
    large = [['reset %d %d' % (n, size), 'drain 0', 'alloc 1 1', 'alloc 2 0', 'drain 1', 'free 1', 'is_empty', 'drain 0', 'again %d %d' % (n - 1, size), 'drain 1']
             for n, size in ((66000, 1), (32769, 8), (40000, 33), (300, 1000), (129, 5), (257, 64))]
    c.conform(exe, 'TracePool', [pool_random(c.rnd, c.rnd.choice([30, 100, 300])) for _ in range(k)] + large, 'random')


# ------------------------------------------------------------------ reference-counted object pool

def objpool_conv(a):
    op = a['op']
    if op == 'reset':
        return 'reset %d %d %d %d %d %d' % (a['n1'], a['n2'], a['size1'], a['size2'], a['ctor'], a['dtor'])
    if op == 'alloc':
        return 'alloc %d %d' % (a['h'], a['q'])
    if op in ('incr', 'decr'):
        return '%s %d %d' % (op, a['h'], a['n'])
    if op == 'again':
        return 'again %d %d %d' % (a['q'], a['n'], a['size'])
    if op == 'decrn':
        return 'decrn %d %d' % (a['h'], a['g'])
    return 'dead %d %s' % (a['h'], a['which'])


def objpool_random(rnd, n_ops, deep=False, many=0):
    n = {1: rnd.choice([1, 2, 3, 8, 20]), 2: rnd.choice([1, 2, 5])}
    if many:
        n[1] = many
    sizes = [1, 3, 4, 7, 8, 9, 16, 17, 24, 40, 65, 100, 127, 129, 255, 257, 1001]
    dtor = rnd.random() < .6
    size = {1: rnd.choice(sizes), 2: rnd.choice(sizes)}
    s = ['reset %d %d %d %d %d %d' % (n[1], n[2], size[1], size[2], rnd.random() < .5, dtor)]
    rc, pool, dead, nxt = {}, {}, [], 1
    if n[1] > 100:
        nxt = n[1] - rnd.choice([0, 1, 3]) + 1
        for h in range(1, nxt):
            s.append('alloc %d 1' % h)
            rc[h], pool[h] = 1, 1
    for i in range(n_ops):
        if rnd.random() < .02:
            q = rnd.choice([1, 2])
            n[q] = rnd.randint(1, n[q])
            s.append('again %d %d %d' % (q, n[q], rnd.choice([size[q], rnd.randint(1, size[q])])))
            for h in [h for h in rc if pool[h] == q]:
                del rc[h]
            dead = [h for h in dead if pool[h] != q]
        r = rnd.random()
        if r < 0.3 or not rc:
            q = rnd.choice([1, 1, 2])
            s.append('alloc %d %d' % (nxt, q))
            if sum(1 for h in rc if pool[h] == q) < n[q]:
                rc[nxt] = 1
                pool[nxt] = q
            nxt += 1
        elif r < 0.5:
            h = rnd.choice(list(rc))
            k = rnd.choice([1, 1, 1, 2, 3, 7, 254, 255, 256, 300] + ([65534 - rc[h], 65535 - rc[h], 65536 - rc[h], 40000] if deep else []))
            if k < 1:
                continue
            s.append('incr %d %d' % (h, k))
            rc[h] = min(65535, rc[h] + k)
        elif r < 0.9:
            h = rnd.choice(list(rc))
            if dtor and rc[h] == 1 and rnd.random() < .4 and sum(1 for g in rc if pool[g] == pool[h]) < n[pool[h]]:
                s.append('decrn %d %d' % (h, nxt))
                rc[nxt], pool[nxt] = 1, pool[h]
                nxt += 1
                del rc[h]
                dead.append(h)
                continue
            k = rnd.choice([1, 1, rc[h], max(1, rc[h] - 1), rnd.randint(1, rc[h])])
            s.append('decr %d %d' % (h, k))
            rc[h] -= k
            if rc[h] == 0:
                del rc[h]
                dead.append(h)
        elif dead:
            s.append('dead %d %s' % (rnd.choice(dead[-4:]), rnd.choice(['incr', 'decr'])))
    return s


def check_objpool(c):
    exe = vf.build_harness('objpool')
    edges = c.graph('MCObjPool', 'MCObjPool.cfg')
    paths = vf.tour(edges, edges[0][0], c.rnd)
    c.cov['spec_transitions_replayed'] = len(edges)
    if not c.conform(exe, 'TraceObjPool', cmds(paths, objpool_conv), 'replay'):
        return
    k = 60 if vf.tier() == 'quick' else 1200
    c.conform(exe, 'TraceObjPool', [objpool_random(c.rnd, c.rnd.choice([30, 100, 300]), i % 5 == 0) for i in range(k)]
              + [objpool_random(c.rnd, 25, False, n) for n in (130, 300)], 'random')


# ------------------------------------------------------------------ block allocator

def mblock_conv(a):
    op = a['op']
    if op == 'reset':
        return 'reset %d %d' % (a['mem'], a['bs'])
    if op == 'alloc':
        return 'alloc %d %d %d' % (a['h'], a['safe'], a['size'])
    if op == 'again':
        return 'again %d %d' % (a['mem'], a['bs'])
    if op == 'misuse':
        return 'misuse %s %d %d' % (a['kind'], a['off'], a['size'])
    return 'free %d' % a['h']


def mblock_random(rnd, n_ops):
    bs = rnd.choice([1, 2, 3, 4, 8, 16, 64, 100, 255, 256])
    n = rnd.choice([1, 2, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 129, 256, 257, 300, 513, 1000, rnd.randrange(1, 1100)])
    mem = n * bs + rnd.choice([0, 0, 0, rnd.randrange(bs)])
    s = ['reset %d %d' % (mem, bs)]
    live, nxt = [], 1
    mode = .6
    big = rnd.choice([1, 2, 4, n])
    for i in range(n_ops):
        if i % 20 == 0:
            mode = rnd.choice([.3, .5, .8])
            big = rnd.choice([1, 2, 3, 8, 31, 32, 33, 64, 65, max(1, n // 2), n, n + 1])
            if i and rnd.random() < .15:
                # never more blocks than before, so that it fits; the allocations before it are gone
                n = rnd.randint(1, n)
                if n >= 2 and rnd.random() < .3:
                    n, bs = n // 2, bs * 2
                mem = n * bs + rnd.choice([0, rnd.randrange(bs)]) if n * bs + bs <= mem else n * bs
                s.append('again %d %d' % (mem, bs))
                live = []
        if rnd.random() < .06:
            # the harness skips "notalloc" where the block turns out to be allocated
            s.append(rnd.choice(['misuse size 0 %d' % rnd.choice([0, -1, -bs, -2147483648]), 'misuse outside %d %d' % (rnd.choice([-1, -bs, mem, mem + bs]), bs),
                                 'misuse notalloc %d %d' % (rnd.randrange(n) * bs, rnd.choice([1, bs, 3 * bs]))]))
        elif rnd.random() < mode or not live:
            size = max(1, rnd.randint(1, big) * bs - rnd.choice([0, 0, 1, rnd.randrange(bs)]))
            s.append('alloc %d %d %d' % (nxt, rnd.random() < .5, size))
            live.append(nxt)
            nxt += 1
        else:
            # the harness skips handles whose allocation was refused
            s.append('free %d' % live.pop(rnd.choice([0, -1, rnd.randrange(len(live))])))
    while live and rnd.random() < .95:
        s.append('free %d' % live.pop())
    s.append('alloc %d 0 %d' % (nxt, n * bs))
    return s


def check_mblock(c):
    exe = vf.build_harness('mblock')
    edges = c.graph('MCMBlock', 'MCMBlock.cfg')
    paths = vf.tour(edges, edges[0][0], c.rnd)
    c.cov['spec_transitions_replayed'] = len(edges)
    if not c.conform(exe, 'TraceMBlock', cmds(paths, mblock_conv), 'replay'):
        return
    k = 80 if vf.tier() == 'quick' else 2000
    # block numbers and counts beyond 16 bits
    large = [['reset %d %d' % (n * bs, bs), 'alloc 1 1 %d' % ((n - 300) * bs), 'alloc 2 0 %d' % (280 * bs), 'alloc 3 0 %d' % (21 * bs), 'alloc 4 0 %d' % (20 * bs - 1), 'alloc 5 0 1',
              'free 2', 'alloc 6 0 %d' % (140 * bs), 'alloc 7 0 %d' % (141 * bs), 'alloc 8 0 %d' % (140 * bs), 'free 1', 'alloc 9 0 %d' % ((n - 299) * bs), 'alloc 10 0 %d' % ((n - 300) * bs),
              'free 10', 'alloc 11 0 1', 'alloc 12 0 %d' % ((n - 301) * bs), 'free 8', 'alloc 13 0 %d' % (140 * bs)] for n, bs in ((66000, 1), (40000, 4), (33000, 3), (70001, 16), (600, 1000))]
    c.conform(exe, 'TraceMBlock', [mblock_random(c.rnd, c.rnd.choice([30, 100, 250])) for _ in range(k)] + large, 'random')


# ------------------------------------------------------------------ buffer allocator

def bufalloc_conv(a):
    op = a['op']
    if op == 'reset':
        return 'reset 0 ' + ' '.join(map(str, a['cnt']))
    if op == 'again':
        return 'again 0 ' + ' '.join(map(str, a['cnt']))
    if op == 'alloc':
        return 'alloc %d %d %d' % (a['h'], a['safe'], a['size'])
    return 'free %d' % a['h']


def bufalloc_random(rnd, n_ops, many=0):
    k = rnd.choice([1, 2, 3, 4] if many else [1, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11])
    cnt = [rnd.choice([0, 1, 1, 2, 3, 5]) for _ in range(k)]
    if many:
        cnt[rnd.randrange(k)] = many
    s = ['reset %d ' % rnd.choice([0, 0, 1]) + ' '.join(map(str, cnt))]
    live, nxt = [], 1
    mode = .6
    top = 32 << (k - 1)
    if many:
        j = cnt.index(max(cnt))
        live = list(range(1, max(cnt) + rnd.choice([0, 1, 2])))
        s += ['alloc %d 0 %d' % (h, 32 << j) for h in live]
        nxt = len(live) + 1
    for i in range(n_ops):
        if i % 20 == 0:
            mode = rnd.choice([.3, .5, .9])
            if i and rnd.random() < .15:
                cnt = [rnd.randint(0, x) if rnd.random() < .5 else x for x in cnt]
                s.append('again 0 ' + ' '.join(map(str, cnt)))
                live = []
        if rnd.random() < mode or not live:
            j = rnd.randrange(k)
            size = rnd.choice([32 << j, (32 << j) - 1, (32 << j) + 1, rnd.randint(1, top), rnd.randint(1, 33)])
            if rnd.random() < .06:
                size = rnd.choice([0, -1, top + 1, 2 * top, 4 * top, 40000, 1 << 20])
            s.append('alloc %d %d %d' % (nxt, rnd.random() < .4, size))
            live.append(nxt)
            nxt += 1
        else:
            s.append('free %d' % live.pop(rnd.choice([0, -1, rnd.randrange(len(live))])))
    while live and rnd.random() < .95:
        s.append('free %d' % live.pop(rnd.randrange(len(live))))
    return s


def check_bufalloc(c):
    exe = vf.build_harness('bufalloc')
    edges = c.graph('MCBufAlloc', 'MCBufAlloc.cfg')
    paths = vf.tour(edges, edges[0][0], c.rnd)
    c.cov['spec_transitions_replayed'] = len(edges)
    if not c.conform(exe, 'TraceBufAlloc', cmds(paths, bufalloc_conv), 'replay'):
        return
    k = 60 if vf.tier() == 'quick' else 1500
    c.conform(exe, 'TraceBufAlloc', [bufalloc_random(c.rnd, c.rnd.choice([30, 100, 250]), {5: 130, 22: 300, 43: 257}.get(i, 0)) for i in range(k)], 'random')


# ------------------------------------------------------------------ buffer operations

def buf_conv(a):
    op = a['op']
    j = lambda d: ' '.join(map(str, d))
    if op == 'reset':
        return 'reset %d %d' % (a['s'][0]['cap'], a['s'][1]['cap'])
    k = a['k']
    return {'write': lambda: 'write %d %s' % (k, j(a['d'])),
            'wint': lambda: 'wint %d %d %s' % (k, a['be'], j(a['v'])),
            'read': lambda: 'read %d %d' % (k, a['n']),
            'rint': lambda: 'rint %d %d %d' % (k, a['be'], a['w']),
            'copy': lambda: 'copy %d %d' % (k, a['n']),
            'wstr': lambda: 'wstr %d %d %s' % (k, a['trunc'], j(a['d'])),
            'seek': lambda: 'seek %d %d' % (k, a['i']),
            'erase': lambda: 'erase %d %d %d' % (k, a['from'], a['to']),
            'rewind': lambda: 'rewind %d %d' % (k, a['clear']),
            'reinit': lambda: 'reinit %d' % k,
            'reserve': lambda: 'reserve %d %d' % (k, a['r'])}[op]()


def buf_random(rnd, n_ops):
    caps = {k: rnd.choice([1, 2, 4, 7, 8, 16, 32, 33, 64, 100, 255, 256, 257, rnd.randrange(1, 700)]) for k in (1, 2)}
    s = ['reset %d %d' % (caps[1], caps[2])]
    # an approximate shadow of the lengths keeps most calls in range
    ln, cur, res = {1: 0, 2: 0}, {1: 0, 2: 0}, {1: 0, 2: 0}
    byte = lambda: rnd.choice([0, 1, 2, 0x7f, 0x80, 0xff, rnd.randrange(256)])
    for _ in range(n_ops):
        k = rnd.choice([1, 1, 2])
        cap = caps[k]
        room = max(0, cap - cur[k] - res[k])
        wild = rnd.random() < .15
        n = rnd.randint(0, cap + 2) if wild else rnd.choice([room, max(0, room - 1), room + 1, rnd.randint(0, room)] if rnd.random() < .3 else [rnd.randint(0, max(0, room // 3)), 1])
        op = rnd.choice(['write', 'write', 'wint', 'wint', 'read', 'rint', 'copy', 'wstr', 'wstr', 'seek', 'seek', 'erase', 'rewind', 'reserve', 'reinit'] if rnd.random() < .3 else
                        ['write', 'wint', 'read', 'rint', 'copy', 'wstr', 'seek', 'erase'])
        grow = 0
        if op == 'write':
            s.append('write %d %s' % (k, ' '.join(str(byte()) for _ in range(n))))
            grow = n
        elif op == 'wint':
            w = rnd.choice([1, 2, 4, 8])
            s.append('wint %d %d %s' % (k, rnd.randrange(2), ' '.join(str(byte()) for _ in range(w))))
            grow = w
        elif op == 'wstr':
            s.append('wstr %d %d %s' % (k, rnd.random() < .8, ' '.join(str(rnd.randint(1, 255)) for _ in range(n))))
            grow = min(n, room)
        elif op == 'read':
            rr = max(0, ln[k] - cur[k])
            m = rnd.choice([0, 1, rr, rr + 1, rnd.randint(0, rr)])
            s.append('read %d %d' % (k, m))
            if m <= rr:
                cur[k] += m
        elif op == 'rint':
            w = rnd.choice([1, 2, 4, 8])
            s.append('rint %d %d %d' % (k, rnd.randrange(2), w))
            if cur[k] + w <= ln[k]:
                cur[k] += w
        elif op == 'copy':
            o = 3 - k
            rr = max(0, ln[o] - cur[o])
            m = rnd.choice([0, 1, min(rr, room), rr, room, rr + 1, room + 1])
            s.append('copy %d %d' % (k, m))
            if m <= rr:
                grow = m
        elif op == 'seek':
            i = rnd.choice([0, ln[k], rnd.randint(0, ln[k]), rnd.randint(0, ln[k]), ln[k] + 1, -1])
            s.append('seek %d %d' % (k, i))
            if 0 <= i <= ln[k]:
                cur[k] = i
        elif op == 'erase':
            a, e = rnd.randint(0, ln[k]), rnd.randint(0, ln[k])
            if rnd.random() < .8 and a > e:
                a, e = e, a
            if rnd.random() < .1:
                e = ln[k] + 1
            if rnd.random() < .03:
                a = -1
            s.append('erase %d %d %d' % (k, a, e))
            if 0 <= a < ln[k] and a <= e <= ln[k]:
                m = e - a
                ln[k] -= m
                cur[k] = cur[k] - m if cur[k] >= e else min(cur[k], a) if cur[k] > a else cur[k]
        elif op == 'rewind':
            s.append('rewind %d %d' % (k, rnd.randrange(2)))
            ln[k] = cur[k] = 0
        elif op == 'reinit':
            s.append('reinit %d' % k)
            ln[k] = cur[k] = res[k] = 0
        else:
            res[k] = rnd.choice([0, 0, 1, min(5, cap), rnd.randint(0, cap)])
            s.append('reserve %d %d' % (k, res[k]))
        if grow and grow <= room:
            cur[k] += grow
            ln[k] = max(ln[k], cur[k])
    return s


def buf_large(rnd):
    """Buffers beyond one byte's and 15 bits' worth of positions."""
    cap = rnd.choice([520, 4096, 32768, 40000, 65535])
    s = ['reset %d %d' % (cap, rnd.choice([cap, 65535, 300]))]
    ln = 0
    for _ in range(14):
        r = rnd.randrange(8)
        if r <= 2 or not ln:
            n = rnd.choice([cap - ln, cap // 2, cap // 3, 300, 256, 257])
            s.append('seek 1 %d' % ln)
            s.append('fill 1 %d %d' % (n, rnd.randrange(256)))
            ln += n if ln + n <= cap else 0
        elif r == 3:
            a = rnd.randrange(ln)
            e = rnd.choice([ln, rnd.randint(a, ln), min(ln, a + 256), min(ln, a + 300)])
            s.append('seek 1 %d' % rnd.choice([a, e, ln, 0, rnd.randint(0, ln)]))
            s.append('erase 1 %d %d' % (a, e))
            ln -= e - a
        elif r == 4:
            a = rnd.choice([0, rnd.randint(0, ln)])
            s += ['seek 1 %d' % a, 'read 1 %d' % rnd.choice([ln - a, ln - a + 1, (ln - a) // 2])]
        elif r == 5:
            a = rnd.choice([0, rnd.randint(0, ln)])
            s += ['seek 1 %d' % a, 'copy 2 %d' % rnd.choice([ln - a, (ln - a) // 2, min(300, ln - a)])]
        elif r == 6:
            s += ['seek 1 %d' % max(0, ln - rnd.choice([1, 2, 3, 4, 8, 300])), 'wint 1 %d 1 2 3 4' % rnd.randrange(2)]
            ln = -1
        else:
            s += ['reserve 1 %d' % rnd.choice([0, 1, 255, 256, cap])]
        if ln < 0:
            break
    return s + ['seek 1 0', 'rint 1 1 8', 'rint 1 0 4']


def buf_whole(cap):
    """A large buffer written, copied, read and erased in one go."""
    return ['reset %d %d' % (cap, cap), 'fill 1 %d 9' % cap, 'seek 1 0', 'copy 2 %d' % cap, 'read 1 %d' % cap, 'wint 1 1 7', 'seek 2 0', 'rint 2 1 4',
            'erase 2 1 %d' % cap, 'fill 2 %d 3' % (cap - 4), 'erase 2 0 %d' % (cap - 1), 'erase 1 0 %d' % cap, 'rint 1 0 1', 'fill 1 %d 77' % cap]


def check_buf(c):
    exe = vf.build_harness('buf')
    edges = c.graph('MCBuf', 'MCBuf.cfg')
    paths = vf.tour(edges, edges[0][0], c.rnd)
    c.cov['spec_transitions_replayed'] = len(edges)
    if not c.conform(exe, 'TraceBuf', cmds(paths, buf_conv), 'replay'):
        return
    k = 100 if vf.tier() == 'quick' else 2500
    if k > 100:
        c.model('MCBuf', 'MCBuf3.cfg', workers=8)
    c.conform(exe, 'TraceBuf', [buf_whole(x) for x in (32767, 32768, 65535)] + [buf_large(c.rnd) for _ in range(8 if k == 100 else 60)] + [buf_random(c.rnd, c.rnd.choice([30, 100, 200])) for _ in range(k)], 'random')


CHECKS = {'C11': check_pool, 'C12': check_objpool, 'C13': check_mblock, 'C14': check_bufalloc, 'C15': check_buf}
