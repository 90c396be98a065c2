"""Asynchronous stream source and sink."""
import json, vf


def stream_script(path):
    """Deferred deliveries in the order of the path; everything else is the code's own doing."""
    s, recv = [], 0
    for a in map(json.loads, path):
        op = a['op']
        if op == 'reset':
            s.append('reset %d %d %d %d %d 1' % (len(a['data']), a['buf'], a['tb'], a['dst'], a['wfn']))
        elif op == 'open':
            s.append('open')
        elif op == 'src_in':
            s.append('down')
        elif op == 'snk_in':
            s.append('up')
        elif op == 'receive':
            s.append('receive %d' % a['cap'])
    return s


def stream_random(rnd):
    mode = rnd.choice([0, 0, 1, 1, 1, 2, 2])
    slen = rnd.choice([1, 2, 5, 13, 16, 17, 50, 100, 255, 256, 400])
    buf = rnd.choice([0, 1, 3, 16, 17, 64, 300, 1000])
    tb = rnd.choice([0, 1, 2, 5, 16, 64, 300])
    if slen > 100 and (tb == 1 or buf == 1):
        slen = 60
    dst = rnd.choice([-1, 0, 1, slen - 1, slen, slen + 1, 300, 1000])
    s = ['reset %d %d %d %d %d %d %d' % (slen, buf, tb, max(dst, -1), rnd.random() < .4, mode, rnd.choice([7, 7, 7, 7, 6, 5, 4]))]
    if rnd.random() < .4:
        s.append('again %d %s' % (rnd.choice([0, 1, 2, 3]), ' '.join(str(rnd.choice([-1, 0, slen, slen + 5, slen // 2])) for _ in range(rnd.randrange(3)))))
    if mode == 0:
        for _ in range(rnd.choice([1, 1, 2, 3])):
            s.append('open %d' % rnd.choice([0, 0, 0, 1, 5, 300]))
            if rnd.random() < .3 and not any(x.startswith('again') for x in s):
                s.append('configure %d %d %d' % (rnd.choice([1, 2, 7, 16, 40, 120]), rnd.randrange(90), rnd.random() < .8))
            if rnd.random() < .5:
                s.append('receive %d' % rnd.choice([-1, 0, slen, slen + 5, slen // 2]))
    elif mode == 1:
        for _ in range(rnd.choice([1, 2])):
            s.append('open %d' % rnd.choice([0, 0, 0, 3, 100]))
            for _ in range(rnd.choice([0, 5, 30])):
                s.append(rnd.choice(['up', 'down']))
                if rnd.random() < .06:
                    s.append('receive %d %d' % (rnd.choice([-1, 0, slen, slen + 5, slen // 2]), rnd.random() < .8))
            s.append('drain %d' % rnd.randrange(3))
    else:
        on = False
        if rnd.random() < .15:                           # a sink that nobody is connected to
            s[0] = s[0][:-1] + str(rnd.choice([3, 1]))
            for _ in range(12):
                s.append(rnd.choice(['inj_snk 0 0 0 0', 'inj_snk 3 0 0 0', 'inj_snk 4 0 0 0', 'receive %d %d' % (rnd.choice([-1, 0, 20]), rnd.randrange(2))]))
        elif rnd.random() < .5:
            for _ in range(rnd.choice([5, 20, 60])):      # a foreign producer
                r = rnd.random()
                if r < .5:
                    s.append('inj_snk 2 0 %d %d %d %d' % (rnd.choice([0, 1, 2, 255]), rnd.choice([0, 1, 2, 3, 7, slen, 20]), rnd.choice([0, 1, 200, 255]), rnd.randrange(3)))
                elif r < .65:
                    s.append('inj_snk 1 0 0 %d %d' % (rnd.choice([0, 0, 0, 9]), rnd.choice([0, 1, 255])))
                elif r < .75:
                    s.append('inj_snk 3 %d 0 0 %d %d' % (rnd.choice([0, 0, 5, 24]), rnd.choice([0, 1, 255]), rnd.randrange(3)))
                elif r < .8:
                    s.append('close %d %d' % (rnd.choice([0, 1, 2, 255]), rnd.choice([0, 0, 1, 24, 255])))
                elif r < .85:
                    s.append('inj_snk 0 %d %d 0 %d' % (rnd.choice([0, 0, 1, 255]), rnd.randrange(3), rnd.choice([0, 1, 255])))
                elif r < .87:
                    s.append('inj_snk %d 0 0 0' % rnd.choice([4, 64, 127]))
                else:
                    s.append('receive %d %d' % (rnd.choice([-1, 0, 1, 4, 10, 30]), rnd.random() < .8))
        else:                                            # a foreign consumer
            sent, acked, wr = 0, 0, []
            s.append('open')
            s.append('inj_src 1 0 0 0 0')
            for _ in range(rnd.choice([5, 20, 60])):
                r = rnd.random()
                if r < .6:
                    n = rnd.choice([0, 0, 1, 2, 5, 30, slen])
                    s.append('inj_src 129 0 %d %d %d' % (rnd.randrange(4), n, rnd.choice([0, 1, 2, 16, 100, 255, 256, 257, 300, 65535])))
                    if rnd.random() < .7 and n:
                        s.append('inj_src 2 %d 0 %d 0' % (rnd.choice([0, 0, 0, 15]), min(n, slen - sent)))
                        sent += min(n, slen - sent)
                        if sent >= slen:
                            s.append('inj_src 3 %d 0 0 0' % rnd.choice([0, 7]))
                            s.append('open')
                            sent = 0
                elif r < .7:
                    s.append('inj_src %d 0 0 0 0' % rnd.choice([128, 130, 131, 0, 4]))
                elif r < .75:
                    s += ['inj_src 132 0 0 0 0', 'inj_src 3 24 0 0 0', 'open']
                    sent = 0
                elif r < .8:
                    s.append('open %d' % rnd.choice([0, 0, 7]))
                    sent = 0
                elif r < .85:
                    slen = rnd.choice([1, 3, 20, 200])
                    s += ['configure %d %d %d' % (slen, rnd.randrange(90), rnd.random() < .8)] + ['open'] * (rnd.random() < .8)
                    sent = 0
    return s


def stream_large(rnd):
    """More bytes than fit in 16 bits."""
    slen = rnd.choice([65535, 65536, 65537, 65568, 66000, 70001])
    k = rnd.randrange(3)
    if k == 0:
        return ['reset %d 0 %d %d 0 0' % (slen, rnd.choice([9000, 32768, 40000, 65535]), rnd.choice([slen, 80000, slen - 1])), 'open']
    if k == 1:
        return ['reset %d 0 %d %d %d 1' % (slen, rnd.choice([20000, 32767, 65535]), slen, rnd.randrange(2)), 'open', 'drain 0']
    s = ['reset %d %d 16 100 0 2' % (slen, rnd.choice([0, 300, 65535, 100000])), 'open', 'inj_src 1 0 0 0 0']
    left = slen
    for m in rnd.sample([256, 512, 768, 1000, 4096, 32768], rnd.randrange(4)):
        s += ['inj_src 129 0 0 0 %d' % m, 'open', 'inj_src 1 0 0 0 0']      # the request allows at most m bytes
    while left > 0:
        n = rnd.choice([65535, 40000, left, left - 1, left + 5])
        n = max(1, min(n, 65535))
        s.append('inj_src 129 0 %d %d 0' % (rnd.randrange(4), n))
        s.append('inj_src 2 0 0 %d 0' % min(n, left))
        left -= min(n, left)
    return s + ['inj_src 3 0 0 0 0', 'open', 'inj_src 129 0 0 0 65535', 'inj_src 129 0 0 0 300']


def check_stream(c):
    exe = vf.build_harness('stream')
    c.model('MCStream', 'MCStreamLive.cfg', workers=8)
    # paths only differ for the code in the order of deliveries
    scripts, n = set(), 0
    for cfg in ('MCStream.cfg', 'MCStreamTwice.cfg'):
        edges = c.graph('MCStream', cfg)
        scripts |= {tuple(stream_script(p)) for p in vf.tour(edges, edges[0][0], c.rnd, max_len=80)}
        n += len(edges)
    scripts = sorted(scripts)
    c.cov['spec_transitions_replayed'] = n
    c.cov['distinct_delivery_orders'] = len(scripts)
    if not c.conform(exe, 'TraceStream', [list(s) for s in scripts], 'replay'):
        return
    k = 500 if vf.tier() == 'quick' else 10000
    c.conform(exe, 'TraceStream', [stream_large(c.rnd) for _ in range(8 if k <= 500 else 60)] + [stream_random(c.rnd) for _ in range(k)], 'random')


CHECKS = {'C19': check_stream}
