"""Drives the Python package of the library with the commands of a script and records what it does.
usage: h.py MODE REPO LIBRARY SCRIPT TRACE"""
import sys
sys.dont_write_bytecode = True
import ctypes, gc, json, logging, os, re, time

MODE, REPO, LIB, SCRIPT, TRACE = sys.argv[1:6]
out = open(TRACE, 'w')


def ev(op, **kw):
    out.write(json.dumps(dict({'op': op}, **kw), separators=(',', ':')) + '\n')
    out.flush()


def dead(msg):
    """An exception, in a callback or not, that the package must not raise."""
    ev('fatal', msg=str(msg)[:300])
    out.close()
    os._exit(0)


sys.unraisablehook = lambda u: dead('%s %s' % (getattr(u.exc_type, '__name__', '?'), u.exc_value))


# ---------------------------------------------------------------- surroundings: the library, the clock, the log
class Clock:
    """Ticks of 2^-10 s; every look at the timers is a little later than the one before."""
    ticks = 0
    looks = 0

    def now(self):
        return 2.0 ** 30 + self.ticks / 1024 + self.looks / 2 ** 22


clock = Clock()
for n in ('time', 'monotonic', 'perf_counter'):
    setattr(time, n, clock.now)
real_cdll = ctypes.CDLL
native = real_cdll(LIB)
ctypes.CDLL = lambda *a, **k: native
ctypes.cdll.LoadLibrary = lambda *a, **k: native
logging.raiseExceptions = False
logging.getLogger().addHandler(logging.NullHandler())
sys.path.insert(0, os.path.join(REPO, 'py'))
import embc


# ---------------------------------------------------------------- framer: two endpoints
def fill(n, seed):
    return bytes(170 if seed == 170 else (seed * 31 + i * 7 + (i >> 3)) & 255 for i in range(n))


class End:
    def __init__(self, x):
        self.x = x
        self.tx, self.dlv, self.done, self.wire = [], [], [], []
        self.open = 0          # frames sent and not reported yet
        self.silent = 0        # frames sent without any report
        self.f = embc.stream.framer.Framer()
        self.f.hal_tx = self.hal_tx
        for p in range(16):
            if p != 5:
                self.f.register_port(p, self.rx, self.tx_done)

    def hal_tx(self, b):
        if type(b) is not bytes:
            dead('hal_tx without bytes')
        self.tx.append(list(b))
        self.wire.append(bytearray(b))

    def send(self, port, msg, df, pay):
        self.open += port != 5
        self.silent += port == 5
        self.f.send(port, msg, df, pay)

    def rx(self, port, msg, df, data):
        if type(data) is not bytes:
            dead('rx without bytes')
        self.dlv.append([port, msg, df, list(data)])
        if port == 2:
            self.send(3, msg, df, data)

    def tx_done(self, port, msg, df, status):
        self.open -= 1
        self.done.append([port, msg, df, status])
        if port == 4 and status == 0 and msg > 0:
            self.send(4, msg - 1, df, bytes([msg]))


class FramerMode:
    def __init__(self):
        self.e = []

    def finish(self, op, e, **kw):
        s = e.f.status
        st = dict(rx=s.rx_count, data=s.rx_data_count, ack=s.rx_ack_count, dup=s.rx_deduplicate_count, sync=s.rx_synchronization_error,
                  mic=s.rx_mic_error, idErr=s.rx_frame_id_error, tx=s.tx_count, retx=s.tx_retransmit_count)
        ev(op, x=e.x, tx=e.tx, dlv=e.dlv, done=e.done, st=st, **kw)
        e.tx, e.dlv, e.done = [], [], []

    def room(self, e, n=1):
        return e.open + e.silent + n <= 4

    def feed(self, e):
        if not e.wire:
            return 0
        self.rx(self.e[1 - e.x], bytes(e.wire.pop(0)))
        return 1

    def rx(self, e, b):
        if len(b) & 1:
            for i in range(len(b)):
                e.f.hal_rx(b[i:i + 1])
        else:
            e.f.hal_rx(b)
        self.finish('rx', e, b=list(b))

    def poll(self, e):
        clock.looks += 1
        e.f.process()
        self.finish('poll', e)

    def adv(self, d):
        for k in [1024] * (d // 1024) + [d % 1024]:
            ev('adv', d=k << 20)
        clock.ticks += d

    def cmd(self, op, a):
        if op == 'reset':
            self.e = []
            gc.collect()
            clock.ticks, clock.looks = int(a[0]), 0
            self.e = [End(0), End(1)]
            ev('reset', hook=False, syn=True)
            return
        if op == 'adv':
            return self.adv(int(a[0]))
        if op == 'drain':
            idle = 0
            for i in range(400):
                m = 0
                for e in self.e:
                    while e.wire and m < 4000:
                        m += self.feed(e)
                if not any(e.wire for e in self.e):
                    self.adv(300)
                    for e in self.e:
                        n = len(e.wire)
                        self.poll(e)
                idle = 0 if m else idle + 1
                if idle > 6:
                    break
            for e in self.e:
                e.silent = 0
            ev('drained', all=i < 399)
            return
        e = self.e[int(a[0])]
        if op == 'send':
            port, msg, df, n, seed = map(int, a[1:6])
            if n > 240:
                try:
                    e.f.send(port, msg, df, fill(n, seed))
                    refused = False
                except Exception:
                    refused = True
                self.finish('toolong', e, n=n, refused=refused)
                return
            p = self.e[1 - e.x]
            echo = port == 2 or (port == 0 and df & 255 in (4, 6))
            if not self.room(e) or (echo and not self.room(p, 2)):
                return
            if echo and port == 0:
                p.silent += 1
            if port == 2:
                p.silent += 1
            e.send(port, msg, df, fill(n, seed))
            self.finish('send', e, port=port, msg=msg, **{'def': df}, pay=list(fill(n, seed)))
        elif op == 'feed':
            self.feed(e)
        elif op == 'feedall':
            while self.feed(e):
                pass
        elif op == 'lose':
            del e.wire[:1]
        elif op == 'dup':
            e.wire += [bytearray(e.wire[0])] if e.wire else []
        elif op == 'flip':
            if e.wire and e.wire[0]:
                e.wire[0][int(a[1]) % len(e.wire[0])] ^= int(a[2])
        elif op == 'cut':
            if e.wire:
                del e.wire[0][int(a[1]):]
        elif op == 'rx':
            self.rx(e, bytes(map(int, a[1:])))
        elif op in ('timer', 'poll'):
            self.poll(e)
        elif op == 'resync':
            if self.room(e):
                e.open += 1
                e.f.resync()
                self.finish('resync', e)
        elif op in ('probe', 'hal', 'halall', 'rel'):
            pass
        else:
            raise SystemExit(97)


# ---------------------------------------------------------------- buffers
class BufMode:
    def __init__(self):
        self.b, self.a = [], None

    def view(self, p):
        b = p[0]
        c, r = b.read_all(), b.read_remaining()
        rr = getattr(b, 'read_reamaining', len(r))
        if rr != len(r) or r != c[b.cursor:]:
            dead('the bytes that remain are not those after the cursor')
        return {'c': list(c), 'cur': b.cursor, 'len': b.length, 'res': b.reserve, 'cap': b.capacity, 'wr': b.write_remaining, 'rr': len(r)}

    def log(self, op, **kw):
        ev(op, s=[self.view(p) for p in self.b], **kw)

    def cmd(self, op, a):
        B = embc.memory.buffer
        a = [int(v) for v in a]
        if op == 'reset':
            for p in self.b[:1]:
                p[0].free()
            for p in self.b[1:]:
                B.free(p)
            if self.a:
                B.finalize(self.a)
            sizes = (ctypes.c_size_t * 5)(2, 2, 2, 2, 2)
            self.a = B.initialize(sizes, len(sizes))
            self.b = [B.alloc(self.a, n) for n in a[:2]]
            self.log('reset', want=a[:2])
            return
        k = a[0]
        p = self.b[k - 1]
        b = p[0]
        room, avail = b.write_remaining, b.length - b.cursor
        d = bytes(v & 255 for v in a[1:]) if op == 'write' else b''
        if op == 'write':
            if len(d) <= room:
                b.write(d)
                self.log('write', k=k, d=list(d), fatal=False)
        elif op == 'wint':
            be, v = a[1], bytes(a[2:])
            if len(v) <= room:
                name = 'write_u%d' % (8 * len(v)) + ('' if len(v) == 1 else '_be' if be else '_le')
                getattr(B, name)(p, int.from_bytes(v, 'big'))
                self.log('wint', k=k, be=bool(be), v=list(v), fatal=False)
        elif op == 'read':
            n = a[1]
            if n <= avail:
                m = ctypes.create_string_buffer(b'\x5a' * (n + 4), n + 4)
                B.read(p, m, n)
                if m.raw[n:] != b'\x5a' * 4:
                    dead('read beyond the end')
                self.log('read', k=k, n=n, fatal=False, d=list(m.raw[:n]))
        elif op == 'rint':
            be, w = a[1], a[2]
            if w <= avail:
                v = getattr(B, 'read_u%d' % (8 * w) + ('' if w == 1 else '_be' if be else '_le'))(p)
                self.log('rint', k=k, be=bool(be), w=w, fatal=False, v=list(v.to_bytes(w, 'big')))
        elif op == 'copy':
            s, n = self.b[2 - k], a[1]
            if n <= room and n <= s[0].length - s[0].cursor:
                B.copy(p, s, n)
                self.log('copy', k=k, n=n, fatal=False)
        elif op == 'wstr':
            t, d = a[1], bytes(a[2:])
            if t and room >= 0:
                r = B.write_str_truncate(p, d)
                self.log('wstr', k=k, d=list(d), trunc=True, ret=r if isinstance(r, bool) else None, fatal=False)
            elif not t and len(d) <= room:
                B.write_str(p, d)
                self.log('wstr', k=k, d=list(d), trunc=False, ret=True, fatal=False)
        elif op == 'seek':
            try:
                b.cursor_set(a[1])
                fatal = False
            except (AssertionError, ValueError, IndexError):
                fatal = True
            self.log('seek', k=k, i=a[1], fatal=fatal)
        elif op == 'erase':
            f, t = a[1], a[2]
            if 0 <= f < b.length and 0 <= t <= b.length:
                if f & 1:
                    B.erase(p, f, t)
                else:
                    b.erase(f, t)
                self.log('erase', k=k, **{'from': f}, to=t, fatal=False)
        elif op == 'rewind':
            b.reset()
            self.log('rewind', k=k, clear=False, zero=True)
        elif op == 'reserve':
            if a[1] <= b.capacity:
                b.reserve = a[1]
                self.log('reserve', k=k, r=a[1])
        elif op in ('reinit', 'fill'):
            pass
        else:
            raise SystemExit(97)


# ---------------------------------------------------------------- pattern
PERIOD = 2 * 33 * 65536


def word(p):
    j = p // 2
    if p & 1:
        return ((~j & 0xffff) << 16) | (j & 0xffff)
    return 1 << (j % 33 - 1) if j % 33 else 0


class PatternMode:
    def cmd(self, op, a):
        a = [int(v) for v in a]
        if op == 'reset':
            self.tx, self.rx = embc.PatternTx(), embc.PatternRx()
            ev('reset')
        elif op in ('tx', 'txskip'):
            n = a[0]
            if a[1]:
                b = embc.allocate_pattern_buffer(n)
                self.tx.next_buffer(b)
                b = list(b)
            else:
                b = [self.tx.next_u32() for _ in range(n)]
            if op == 'tx':
                ev('tx', words=[[w >> 16, w & 0xffff] for w in b], over=False)
            else:
                ev('txskip', n=n)
        elif op == 'rx':
            self.rx.next_u32(a[0] << 16 | a[1])
            self.say('rx', hi=a[0], lo=a[1])
        elif op == 'rxseg':
            p, n, how = a
            w = [word((p + i) % PERIOD) for i in range(n)]
            how = (how * 3 + p) % 4
            if how == 0:
                for v in w:
                    self.rx.next_u32(v)
            elif how == 1:
                self.rx.next_buffer(w)
            elif how == 2:
                self.rx.next_buffer(b''.join(v.to_bytes(4, sys.byteorder) for v in w))
            else:
                b = embc.allocate_pattern_buffer(n)
                b[:] = w
                self.rx.next_buffer(b)
            self.say('rxseg', p=p, n=n)
        else:
            raise SystemExit(97)

    def say(self, op, **kw):
        r = self.rx
        cap = lambda v: v if v <= 2000000000 else -1
        ev(op, rcv=cap(r.receive_count), err=cap(r.error_count), resync=cap(r.resync_count), missing=cap(r.missing_count), **kw)


# ---------------------------------------------------------------- error codes
class CodeMode:
    def cmd(self, op, a):
        ec = embc.ec
        if op == 'reset':
            ev('reset')
            return
        e = int(a[0])
        n = ec.num_to_name.get(e)
        ev('pyec', e=e, name=n if n is not None else '', back=ec.name_to_num.get(n, -1), attr=getattr(ec, n, -1) if n else -1, count=len(ec.name_to_num))


# ---------------------------------------------------------------- the qualification tool's queue of pings
class Line:
    """The serial port: what is written is one unit for the other end, what arrives is read as the tool likes."""
    def __init__(self, port=None, **kw):
        self.port, self.rx, self.tx, self.took = port, bytearray(), [], []
        Line.last = self

    def open(self):
        pass

    close = flush = open

    @property
    def in_waiting(self):
        return len(self.rx)

    def write(self, b):
        self.tx.append(list(b))
        Line.wire.append(bytearray(b))
        return len(b)

    def read(self, n=1):
        b = bytes(self.rx[:n])
        del self.rx[:n]
        self.took += b
        return b


def load_tool():
    import importlib.util, types
    s = types.ModuleType('serial')
    s.Serial = Line
    sys.modules.setdefault('serial', s)
    sp = importlib.util.spec_from_file_location('framer_qual', os.path.join(REPO, 'py', 'bin', 'framer_qual.py'))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


class Heard(logging.Handler):
    text = None

    def emit(self, r):
        m = r.getMessage()
        if 'total errors' in m:
            Heard.text = m


def pattern_bytes(k):
    return b''.join(word((60 * k + i) % PERIOD).to_bytes(4, 'little') for i in range(60))


class PingMode:
    def __init__(self):
        self.tool = load_tool()
        logging.getLogger().setLevel(logging.INFO)
        logging.getLogger().addHandler(Heard())

    def send(self, msg):
        self.sent.append([msg.message_id, self.total if msg.payload == pattern_bytes(self.total) else -1])
        self.total += 1

    def say(self, op, **kw):
        clock.looks += 1 << 14       # the rates need some time to have passed
        Heard.text = None
        self.q.log_total_stats()
        clock.looks -= 1 << 14
        m = re.search(r'in (-?\d+) frames.*tx=(-?\d+).*missing=(-?\d+).*timeout=(-?\d+)', Heard.text or '')
        if not m:
            dead('no statistics: %s' % Heard.text)
        ev(op, sent=self.sent, n=[int(v) for v in m.groups()], **kw)
        self.sent = []

    def cmd(self, op, a):
        a = [int(v) for v in a]
        if op == 'reset':
            clock.ticks, clock.looks = a[1], 0
            self.sent, self.total = [], 0
            self.q = self.tool.PingQueue(a[0], self.send)
            self.q.process()
            self.say('reset', count=a[0])
        elif op == 'adv':
            clock.ticks += a[0]
            ev('adv', d=a[0])
        elif op == 'process':
            self.q.process()
            self.say('process')
        elif op == 'rx':                   # rx id k: the payload of ping k (k < 0: damaged)
            k = a[1]
            p = pattern_bytes(k if k >= 0 else -1 - k)
            if k < 0:
                p = p[:-1] if k & 1 else p[:7] + bytes([p[7] ^ 1]) + p[8:]
            self.q.rx(a[0], p)
            self.say('rx', id=a[0], k=k)
        elif op == 'done':
            self.q.tx_done(a[0], a[1])
            self.say('done', id=a[0], status=a[1])
        else:
            raise SystemExit(97)


def roomy(make):
    """A peer that does not run out of buffers: overrunning it is not what is judged here."""
    b = embc.memory.buffer
    was = b.initialize
    b.initialize = lambda sizes, n: was((ctypes.c_size_t * n)(*[8 * v for v in sizes]), n)
    try:
        return make()
    finally:
        b.initialize = was


class MasterMode:
    """The tool at one end of a line, a framer at the other."""
    def __init__(self):
        self.tool = load_tool()
        logging.getLogger().setLevel(logging.INFO)
        logging.getLogger().addHandler(Heard())

    def counts(self):
        q = getattr(self.m, '_ping', None)
        if not self.started or not hasattr(q, 'log_total_stats'):
            return {}
        clock.looks += 1 << 14
        Heard.text = None
        q.log_total_stats()
        clock.looks -= 1 << 14
        m = re.search(r'in (-?\d+) frames.*tx=(-?\d+).*missing=(-?\d+).*timeout=(-?\d+)', Heard.text or '')
        return {'n': [int(v) for v in m.groups()]} if m else {}

    def finish(self, op, **kw):
        ev(op, tx=self.s.tx, **dict(kw, **self.counts()))
        self.s.tx = []

    def loop(self, k):
        quiet, n0 = [], self.counts()
        for _ in range(k):
            self.s.took = []
            self.m.process()
            n = self.counts()
            if self.s.tx or n != n0:
                if quiet:
                    tx, self.s.tx = self.s.tx, []
                    ev('loop', b=quiet, tx=[], **n0)
                    quiet, self.s.tx = [], tx
                self.finish('loop', b=self.s.took)
                n0 = n
            else:
                quiet += self.s.took
        ev('loop', b=quiet, tx=[], **n0)

    def feed(self, x):
        if x == 0:
            if Line.wire:
                b = bytes(Line.wire.pop(0))
                self.peer.f.hal_rx(b)
                return 1
        elif self.peer.wire:
            w = self.peer.wire.pop(0)
            if self.deaf and len(w) > 6 and w[1] < 128 and (w[2], w[5], w[6]) == (0, 5, 0):
                return 1                   # its answers to pings are all lost
            self.s.rx += w
            k = 0
            while self.s.rx and k < 400:
                self.loop(len(self.s.rx))
                k += 1
            return 1
        return 0

    def adv(self, d):
        ev('adv', d=d)
        clock.ticks += d
        clock.looks += 1

    def cmd(self, op, a):
        if op == 'reset':
            self.m = self.s = self.peer = None
            gc.collect()
            clock.ticks, clock.looks = int(a[0]), 0
            Line.wire = []
            self.started = self.deaf = False
            self.m = self.tool.MasterFramer('line', 115200)
            self.s = Line.last
            self.peer = roomy(lambda: End(1))
            ev('reset')
        elif op == 'open':
            self.m.open()
            self.finish('open')
        elif op == 'start':
            self.started = True
            self.m.start_ping(int(a[0]))
            self.finish('start', count=int(a[0]))
        elif op == 'loop':
            self.loop(int(a[0]))
        elif op == 'adv':
            self.adv(int(a[0]))
        elif op == 'send':             # the peer sends something of its own
            if self.peer.open < 2:
                self.peer.send(int(a[0]), int(a[1]), int(a[2]), fill(int(a[3]), 1))
        elif op == 'mimic':            # what looks like an answer, but is none
            if self.peer.open < 2:
                self.peer.send(0, int(a[0]) % 256, int(a[1]), pattern_bytes(int(a[0])))
        elif op == 'deaf':
            self.deaf = bool(int(a[0]))
        elif op == 'sync':
            self.peer.f.resync()
        elif op == 'poll':
            self.peer.f.process()
        elif op == 'drain':
            idle = 0
            for i in range(300):
                m = 0
                while (Line.wire or self.peer.wire) and m < 3000:
                    m += self.feed(0) + self.feed(1)
                self.adv(300)
                self.loop(1)
                self.peer.f.process()
                idle = 0 if m else idle + 1
                if idle > 24:
                    break
            ev('drained', all=i < 299)
        elif op in ('feed', 'feedall', 'lose', 'dup', 'flip', 'cut'):
            x = int(a[0])
            w = Line.wire if x == 0 else self.peer.wire
            if op in ('feed', 'feedall'):
                while self.feed(x) and op == 'feedall':
                    pass
            elif not w:
                pass
            elif op == 'lose':
                del w[:1]
            elif op == 'dup':
                w.append(bytearray(w[0]))
            elif op == 'flip':
                w[0][int(a[1]) % len(w[0])] ^= int(a[2])
            else:
                del w[0][int(a[1]):]
                if not w[0]:
                    del w[:1]
        elif op == 'rx':               # noise on the line towards the tool
            self.s.rx += bytes(map(int, a[1:]))
            self.loop(len(a))
        else:
            raise SystemExit(97)


class LogMode:
    """Logs of the buffers, real lines and made up ones in the same form, read by the log checker."""
    NOISE = ['', 'I framer:652: handle_ack nack', 'D3 lib:1: embc_buffer', 'W lib:612: ack unknown_frame_id=0x01', 'embc_', '0x1', 'D2 lib:2: tx_complete 0x11, port=1, status=0', 'free 0x11']

    def __init__(self):
        import importlib.util
        sp = importlib.util.spec_from_file_location('buffer_log_check', os.path.join(REPO, 'py', 'bin', 'buffer_log_check.py'))
        self.tool = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(self.tool)
        self.b = embc.memory.buffer
        native.embc_buffer_alloc_unsafe.restype = self.b.alloc.restype
        native.embc_buffer_alloc_unsafe.argtypes = self.b.alloc.argtypes
        self.file = TRACE + '.log'

    def catch(self, f, *a):
        import io, contextlib
        o = io.StringIO()
        with contextlib.redirect_stdout(o):
            r = f(*a)
        return r, o.getvalue()

    def line(self, text, p):
        """The line of a message that names p, as a form for other addresses."""
        ls = [x for x in text.splitlines() if re.search(r'\b0x0*%x\b' % p, x)]
        if len(ls) != 1:
            dead('no log line: %r' % text)
        return re.sub(r'\b0x0*%x\b' % p, '0x%x', ls[0].replace('%', '%%')), ls[0]

    def number(self, p):
        return self.names.setdefault(p, len(self.names) + 1)

    def real_alloc(self, fn, size):
        b, text = self.catch(fn, self.a, size)
        return (ctypes.addressof(b[0]) if b else 0), b, text

    def add(self, line, op, **kw):
        self.lines.append(line)
        ev(op, **kw)

    def report(self, end):
        with open(self.file, 'w', newline='') as f:
            f.write('\n'.join(self.lines) + end)
        sys.argv = ['buffer_log_check.py', self.file]
        r, text = self.catch(self.tool.run)
        os.unlink(self.file)
        rs = []
        for t in text.splitlines():
            m = re.fullmatch(r'(?:line (\d+): (alloc|free) without (?:alloc|free): )?(?:None|(\w+): alloc on line (\d+), free on line (None|\d+))', t)
            if m:
                rs.append(dict(kind=m[2] or 'left', line=int(m[1] or 0), p=self.number(int(m[3], 16)) if m[3] else 0,
                               a=int(m[4] or 0), f=0 if m[5] in (None, 'None') else int(m[5])))
            elif t != 'Alloc without free':
                dead('report %r' % t)
        ev('report', r=rs)

    def cmd(self, op, a):
        a = [int(v) for v in a]
        if op == 'reset':
            self.lines, self.names, self.held = [], {}, []
            self.a = self.b.initialize((ctypes.c_size_t * 3)(2, 2, 2), 3)
            p, b, text = self.real_alloc(self.b.alloc, 10)
            self.fa = self.line(text, p)[0]
            self.ff = self.line(self.catch(b[0].free)[1], p)[0]
            p, b, text = self.real_alloc(native.embc_buffer_alloc_unsafe, 10)
            self.fu = self.line(text, p)[0]
            b[0].free()
            ev('reset')
        elif op in ('take', 'try'):        # the real functions
            fn = self.b.alloc if op == 'take' else native.embc_buffer_alloc_unsafe
            if op == 'take' and len(self.held) >= 2:
                return
            p, b, text = self.real_alloc(fn, a[0])
            for t in text.splitlines():
                if p and re.search(r'\b0x0*%x\b' % p, t):
                    self.add(t, 'alloc', p=self.number(p))
                else:
                    self.add(t, 'other')
            if b:
                self.held.append((p, b))
        elif op == 'give':
            if self.held:
                p, b = self.held.pop(a[0] % len(self.held))
                for t in self.catch(b[0].free)[1].splitlines():
                    self.add(t, 'free' if re.search(r'\b0x0*%x\b' % p, t) else 'other', **({'p': self.number(p)} if re.search(r'\b0x0*%x\b' % p, t) else {}))
        elif op in ('alloc', 'unsafe'):    # lines of another program
            p = 0x10 + a[0]
            self.add((self.fa if op == 'alloc' else self.fu) % p, 'alloc', p=self.number(p))
        elif op == 'free':
            p = 0x10 + a[0]
            self.add(self.ff % p, 'free', p=self.number(p))
        elif op == 'nil':
            self.add(self.fu.replace('0x%x', ['(nil)', '0x0', '00000000'][a[0] % 3]), 'other')
        elif op == 'other':
            self.add(self.NOISE[a[0] % len(self.NOISE)], 'other')
        elif op == 'report':
            self.report('\n' if a[0] and self.lines else '')
        else:
            raise SystemExit(97)


mode = {'log': LogMode, 'master': MasterMode, 'framer': FramerMode, 'buf': BufMode, 'pattern': PatternMode, 'ec': CodeMode, 'ping': PingMode}[MODE]()
for line in open(SCRIPT):
    w = line.split()
    if not w or w[0].startswith('#'):
        continue
    try:
        mode.cmd(w[0], w[1:])
    except Exception as x:
        import traceback
        traceback.print_exc()
        dead('%s: %s' % (type(x).__name__, x))
ev('end')
out.close()
os._exit(0)
