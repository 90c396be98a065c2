"""Shared machinery of every check: build /repo's sources with a harness, run scripts on
the real code, have TLC explore the specification and have TLC validate recorded traces."""
import atexit, concurrent.futures, glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = 8


class CheckError(Exception):
    """The machinery itself failed (not a verdict on the code)."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='embcv-')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def seed():
    return int(os.environ.get('VERIF_SEED', '1') or '1')


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


# ---------------------------------------------------------------- build

_CFLAGS = ['-std=gnu99', '-g', '-O1', '-fsanitize=address', '-fsanitize=bounds', '-fno-omit-frame-pointer',
           '-w', '-fno-sanitize-recover=all']


def _run(cmd, timeout=300, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


_lib = None


def build_lib():
    """Compile every library source of /repo's working tree (except lib.c, whose
    embc_fatal the harness replaces) into an archive; returns (archive, cflags)."""
    global _lib
    if _lib:
        return _lib
    d = os.path.join(scratch(), 'build')
    inc = os.path.join(d, 'include', 'embc')
    os.makedirs(inc, exist_ok=True)
    cfg = open(os.path.join(REPO, 'src/config.h.in')).read()
    for a, b in (('@EMBC_PLATFORM@', 'STDLIB'), ('@PROJECT_PREFIX@', 'EMBC'), ('@PROJECT_VERSION_MAJOR@', '0'),
                 ('@PROJECT_VERSION_MINOR@', '2'), ('@PROJECT_VERSION_PATCH@', '0')):
        cfg = cfg.replace(a, b)
    open(os.path.join(inc, 'config.h'), 'w').write(cfg)
    incs = ['-I' + os.path.join(d, 'include'), '-I' + os.path.join(REPO, 'include'),
            '-I' + os.path.join(REPO, 'src')]
    for p in sorted(glob.glob(os.path.join(REPO, 'third-party', '*', 'src'))):
        if os.path.exists(os.path.join(p, 'utlist.h')):
            incs.append('-I' + p)
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.c'), recursive=True))
    srcs = [s for s in srcs if os.path.relpath(s, os.path.join(REPO, 'src')) != 'lib.c']
    flags = _CFLAGS + incs

    def comp(s):
        o = os.path.join(d, os.path.relpath(s, REPO).replace('/', '_')[:-2] + '.o')
        r = _run(['gcc'] + flags + ['-D__FILENAME__="%s"' % os.path.basename(s), '-c', s, '-o', o])
        if r.returncode:
            raise CheckError('compiling %s failed:\n%s' % (s, r.stdout))
        return o
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(comp, srcs))
    ar = os.path.join(d, 'libembc.a')
    r = _run(['ar', 'rcs', ar] + objs)
    if r.returncode:
        raise CheckError(r.stdout)
    _lib = (ar, flags)
    return _lib


def build_harness(name, extra=()):
    ar, flags = build_lib()
    out = os.path.join(scratch(), 'h_' + name)
    h = os.path.join(ROOT, 'harness')
    r = _run(['gcc'] + flags + ['-I' + h, '-D__FILENAME__="h"', os.path.join(h, name + '.c'), os.path.join(h, 'h.c'), ar,
                                '-o', out] + list(extra))
    if r.returncode:
        raise CheckError('building harness %s failed:\n%s' % (name, r.stdout))
    return out


# ---------------------------------------------------------------- running the real code

_n = [0]


def _tmp(suffix):
    _n[0] += 1
    return os.path.join(scratch(), '%d.%d%s' % (os.getpid(), _n[0], suffix))


def run_script(exe, lines, timeout=60):
    """Run a script on the real code.  Returns the recorded events (list of JSON text
    lines).  A crash or hang of the code is itself an event (which no spec allows)."""
    sf, tf = _tmp('.script'), _tmp('.trace')
    with open(sf, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0')
    hung = False
    try:
        p = subprocess.run([exe, sf, tf], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=timeout, env=env)
        rc, err = p.returncode, p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        hung, rc, err = True, -1, (e.stderr or b'').decode('utf8', 'replace')
    if rc in (97, 98):
        raise CheckError('harness script error: ' + err)
    ev = []
    if os.path.exists(tf):
        data = open(tf, encoding='utf8', errors='replace').read()
        ev = data.split('\n')
        if ev and ev[-1] == '':
            ev.pop()
        elif ev:
            ev.pop()           # partial line of a crash
        os.unlink(tf)
    os.unlink(sf)
    if hung:
        ev.append('{"op":"hang"}')
    elif rc != 0:
        m = re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: .*)', err)
        ev.append(json.dumps({'op': 'crash', 'rc': rc, 'msg': m.group(1) if m else err.strip()[-200:]}))
    elif ev and ev[-1] == '{"op":"end"}':
        ev.pop()
    elif not (ev and ev[-1].startswith('{"op":"fatal"')):
        ev.append('{"op":"exit"}')
    return ev


# ---------------------------------------------------------------- TLC

def _java(args, env=None, timeout=600, heap='3g', workers=None):
    cmd = ['java', '-XX:+UseSerialGC' if (workers or 1) == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m',
           '-XX:TieredStopAtLevel=%d' % (1 if (workers or 1) == 1 and tier() == 'quick' else 4), '-cp', JARS, 'tlc2.TLC'] + args
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out: ' + ' '.join(args))
    return p.returncode, p.stdout.decode('utf8', 'replace')


def tlc_validate(module, events, cfg=None, env=None, timeout=800, keep=False):
    """Validate one recorded trace against the specification.
    Returns (accepted, number of matched events, TLC output tail, states)."""
    tf = _tmp('.ndjson')
    with open(tf, 'w') as f:
        f.write('\n'.join(events) + '\n')
    md = _tmp('.tlc')
    e = {'TRACE': tf}
    e.update(env or {})
    rc, out = _java(['-metadir', md, '-workers', '1', '-deadlock', '-noGenerateSpecTE', '-checkpoint', '0',
                     '-config', cfg or (module + '.cfg'), module + '.tla'], env=e, timeout=timeout)
    shutil.rmtree(md, ignore_errors=True)
    m = re.search(r'depth of the complete state graph search is (\d+)', out)
    g = re.search(r'(\d+) states generated', out)
    states = int(g.group(1)) if g else 0
    if not keep:
        os.unlink(tf)
    if rc == 0 and 'No error has been found' in out:
        return True, len(events), '', states
    matched = int(m.group(1)) - 1 if m else None
    if matched is None:
        # invariant violated / evaluation error part way: the depth is in the error trace
        ls = [int(x) for x in re.findall(r'^/\\ l = (\d+)', out, re.M)]
        if ls:
            matched = max(ls) - 1
        else:
            ls = re.findall(r'^State (\d+):', out, re.M)
            matched = max([int(x) for x in ls]) - 1 if ls else 0
    if 'Parsing or semantic analysis failed' in out or 'Could not parse' in out or 'Unknown operator' in out:
        raise CheckError('spec error in %s:\n%s' % (module, out[-3000:]))
    known = ('ostcondition' in out or 'violated' in out or 'Invariant' in out or 'Attempted to' in out
             or 'evaluat' in out)
    if not known:
        raise CheckError('TLC failed on %s (rc %d):\n%s' % (module, rc, out[-3000:]))
    return False, matched, out[-2500:], states


def split_runs(events, start='reset'):
    """Split an event list at each event that starts a new run."""
    runs, cur = [], []
    pat = '{"op":"%s"' % start
    for e in events:
        if e.startswith(pat) and cur:
            runs.append(cur)
            cur = []
        cur.append(e)
    if cur:
        runs.append(cur)
    return runs


def chunk_runs(runs, n):
    """Distribute runs into at most n lists of similar total length."""
    out = [[] for _ in range(n)]
    size = [0] * n
    for r in sorted(runs, key=len, reverse=True):
        i = size.index(min(size))
        out[i].append(r)
        size[i] += len(r)
    return [o for o in out if o]


def tlc_check(module, cfg, workers=4, timeout=800, heap='6g', extra=(), env=None):
    """Exhaustive model checking.  Returns dict(ok, states, distinct, depth, out)."""
    md = _tmp('.tlc')
    rc, out = _java(['-metadir', md, '-workers', str(workers), '-noGenerateSpecTE', '-checkpoint', '0', '-config', cfg] + list(extra) + [module + '.tla'],
                    timeout=timeout, heap=heap, workers=workers, env=env)
    shutil.rmtree(md, ignore_errors=True)
    g = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    if not g:
        raise CheckError('TLC failed on %s %s:\n%s' % (module, cfg, out[-3000:]))
    gs = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)[-1]
    return dict(ok=(rc == 0 and 'No error has been found' in out), states=int(gs[0]), distinct=int(gs[1]), out=out)


def _canon(v):
    """TLC prints equal functions as arrays or objects: one form for both."""
    if isinstance(v, list):
        return {str(i + 1): _canon(x) for i, x in enumerate(v)}
    if isinstance(v, dict):
        return {k: _canon(x) for k, x in v.items()}
    return v


def tlc_graph(module, cfg, timeout=800, heap='6g', env=None):
    """Exhaustive model checking that also emits every transition (the cfg has an
    ACTION_CONSTRAINT printing <<"T", from, act, to>> as JSON).  Returns (result, edges, init)
    where edges is a list of (from, act-json, to)."""
    md = _tmp('.tlc')
    rc, out = _java(['-metadir', md, '-workers', '1', '-noGenerateSpecTE', '-checkpoint', '0', '-config', cfg, module + '.tla'],
                    timeout=timeout, heap=heap, env=env)
    shutil.rmtree(md, ignore_errors=True)
    gs = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if not gs or rc != 0:
        raise CheckError('TLC failed on %s %s:\n%s' % (module, cfg, out[-3000:]))
    edges = []
    memo = {}

    def canon(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = json.dumps(_canon(json.loads(x)), sort_keys=True)
        return r
    for ln in out.split('\n'):
        if ln.startswith('"T|'):
            s = json.loads(ln)
            _, a, b, c = s.split('|')
            edges.append((canon(a), b, canon(c)))
    return dict(ok=True, states=int(gs[-1][0]), distinct=int(gs[-1][1])), edges


def walks(edges, init, rnd, steps, max_len=100):
    """Long random paths that prefer pairs of consecutive edges not taken before: the same transition is
    reached over many different histories, so that state of the code that the specification does not
    have (and should not have) shows."""
    succ = {}
    for i, (a, act, b) in enumerate(edges):
        succ.setdefault(a, []).append(i)
    if init not in succ:
        return []
    par = {init: None}
    q = [init]
    for s in q:
        for i in succ.get(s, ()):
            if edges[i][2] not in par:
                par[edges[i][2]] = i
                q.append(edges[i][2])
    seen, paths, total = set(), [], 0
    while total < steps:
        path = []
        if rnd.random() < .6:
            x = rnd.choice(q)
            while par[x] is not None:
                path.append(par[x])
                x = edges[par[x]][0]
            path.reverse()
        cur, prev = (edges[path[-1]][2], path[-1]) if path else (init, -1)
        n = len(path) + rnd.choice([max_len // 4, max_len])
        while len(path) < n and cur in succ:
            o = succ[cur]
            i = rnd.choice(o)
            for _ in range(4):
                if (prev, i) not in seen:
                    break
                i = rnd.choice(o)
            seen.add((prev, i))
            path.append(i)
            prev, cur = i, edges[i][2]
        total += max(1, len(path))
        paths.append([edges[i][1] for i in path])
    return paths


def tour(edges, init, rnd, max_len=60, limit=None, deep=None):
    """Paths from the initial state that together cover every edge of the graph, and then `deep' steps of walks."""
    if deep is None:
        deep = 20000 if tier() == 'quick' else 400000
    return _tour(edges, init, rnd, max_len, limit) + walks(edges, init, rnd, deep)


def _tour(edges, init, rnd, max_len, limit):
    succ, index = {}, {}
    for i, (a, act, b) in enumerate(edges):
        succ.setdefault(a, []).append(i)
    if init not in succ:
        return []
    # BFS tree: shortest path to every state
    par = {init: None}
    q = [init]
    for s in q:
        for i in succ.get(s, ()):
            t = edges[i][2]
            if t not in par:
                par[t] = i
                q.append(t)
    todo = {}
    for s in succ:
        if s in par:
            todo[s] = list(succ[s])
            rnd.shuffle(todo[s])
    pending = [s for s in q if todo.get(s)]
    paths = []
    pos = 0
    while pos < len(pending):
        s = pending[pos]
        if not todo.get(s):
            pos += 1
            continue
        pre = []
        x = s
        while par[x] is not None:
            pre.append(par[x])
            x = edges[par[x]][0]
        pre.reverse()
        path = pre
        cur = s
        while len(path) < max_len + len(pre) and todo.get(cur):
            i = todo[cur].pop()
            path.append(i)
            cur = edges[i][2]
        paths.append([edges[i][1] for i in path])
        if limit and len(paths) >= limit:
            break
    return paths


# ---------------------------------------------------------------- known findings, reporting

def known_findings(prop):
    """Entries of /verif/known_findings.json for this property that are still open."""
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop and k.get('status') == 'open']


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.rnd = random.Random(seed() * 1000003 + sum(map(ord, prop)))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = 0
        self.msgs = []

    # -- exhaustive exploration of the spec
    def model(self, module, cfg, **kw):
        r = tlc_check(module, cfg, **kw)
        if not r['ok']:
            # the specification alone is broken: an error of the machinery, never of the code
            raise CheckError('model checking %s/%s failed:\n%s' % (module, cfg, r['out'][-4000:]))
        self.states += r['distinct']
        self.transitions += r['states']
        self.cov.setdefault('models', []).append({'module': module, 'cfg': cfg, 'distinct': r['distinct'], 'generated': r['states']})
        return r

    def graph(self, module, cfg, **kw):
        r, edges = tlc_graph(module, cfg, **kw)
        self.states += r['distinct']
        self.transitions += r['states']
        self.cov.setdefault('models', []).append({'module': module, 'cfg': cfg, 'distinct': r['distinct'], 'generated': r['states'], 'edges_emitted': len(edges)})
        return edges

    # -- conformance of the code
    def conform(self, exe, module, scripts, label, start='reset', cfg=None, env=None, timeout=60, nproc=NCPU,
                prep=None, sample=True):
        """Run each script (list of command lines, each beginning with a start command) on the
        real code and validate every recorded event sequence against the specification."""
        if not scripts:
            return True
        n = min(nproc, len(scripts))
        parts = [[] for _ in range(n)]
        sz = [0] * n
        for s in sorted(scripts, key=len, reverse=True):
            i = sz.index(min(sz))
            parts[i].append(s)
            sz[i] += len(s)

        def job(part):
            lines = [x for s in part for x in s]
            ev = run_script(exe, lines, timeout=timeout)
            if prep:
                ev = prep(ev)
            res = tlc_validate(module, ev, cfg=cfg, env=env)
            return part, ev, res
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            results = list(ex.map(job, parts))
        ok = True
        for part, ev, (acc, matched, out, states) in results:
            runs = split_runs(ev, start)
            self.events += len(ev)
            if acc:
                self.traces += len(runs)
                self.cov[label + '_runs'] = self.cov.get(label + '_runs', 0) + len(runs)
                self.cov[label + '_events'] = self.cov.get(label + '_events', 0) + len(ev)
                if sample and len(self.samples) < 4 and runs:
                    r = runs[len(runs) // 2]
                    self.samples.append({'kind': label, 'run': [json.loads(x) for x in r[:6]], 'length': len(r)})
            else:
                ok = False
                if self.violations == 0:
                    self._confirm(exe, module, part, ev, matched, out, label, start, cfg, env, timeout, prep)
                if self.violations:
                    return False
        return ok

    def _confirm(self, exe, module, part, ev, matched, out, label, start, cfg, env, timeout, prep):
        # locate the run that contains the rejected event, re-run its script alone, twice
        pos, ri = 0, 0
        runs = split_runs(ev, start)
        for ri, r in enumerate(runs):
            if pos + len(r) > matched:
                break
            pos += len(r)
        if ri < len(part):
            alone = part[ri]
        else:
            alone = [x for s in part for x in s]
        cands = [alone] if ri < len(part) else []
        whole = [x for s in part for x in s]
        cands.append(whole)
        for c in cands:
            n_rej = 0
            last = None
            for _ in range(2):
                e2 = run_script(exe, c, timeout=timeout)
                if prep:
                    e2 = prep(e2)
                acc, m2, out2, _ = tlc_validate(module, e2, cfg=cfg, env=env)
                if not acc:
                    n_rej += 1
                    last = (e2, m2, out2)
            if n_rej == 2:
                self.violation(label, module, c, last[0], last[1], last[2])
                return
        # Behaviour that depends on uninitialised memory or addresses may not repeat, but it was recorded
        # from the real code; only a hang could be due to the machine rather than to the code.
        if ev and ev[-1] != '{"op":"hang"}':
            self.violation(label, module, whole, ev, matched, out)
            return
        raise CheckError('%s: a rejection did not repeat (matched %d of %d)\n%s' % (label, matched, len(ev), out))

    def violation(self, label, module, script, events, matched, out):
        self.violations += 1
        d = os.path.join(os.environ.get('VERIF_REPLAY_DIR', '/tmp'), 'embc-replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s.%s.txt' % (self.prop, re.sub(r'\W', '_', label)))
        with open(p, 'w') as f:
            f.write('# property %s, stage %s, specification %s\n' % (self.prop, label, module))
            f.write('# the specification accepts the first %d recorded events and rejects the next one:\n' % matched)
            f.write('# %s\n' % (events[matched] if 0 <= matched < len(events) else '(invariant / end of trace)'))
            f.write('# --- script for the harness\n' + '\n'.join(script) + '\n')
            f.write('# --- recorded events up to the rejection\n')
            f.write('\n'.join('# ' + e for e in events[max(0, matched - 30):matched + 1]) + '\n')
            f.write('# --- TLC\n' + '\n'.join('# ' + x for x in out.split('\n')[-40:]) + '\n')
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('  stage %s: event rejected by %s: %s' % (label, module, (events[matched] if 0 <= matched < len(events) else '?')[:400]))
        sys.stdout.flush()

    def direct_violation(self, label, text):
        self.violation(label, '-', [text], [], 0, text)

    def finish(self, exhaustive=None):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'events_validated': self.events,
               'samples': self.samples or [{'note': 'no accepted trace in this run'}]}
        cov.update(self.cov)
        evd = {'property': self.prop, 'tier': tier(), 'seed': seed(), 'level': 'model_checking', 'coverage': cov,
               'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': self.violations}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(evd, f, indent=1)
        for k in known_findings(self.prop):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if not self.violations:
            print('OK property=%s tier=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs' %
                  (self.prop, tier(), self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        return 1 if self.violations else 0
