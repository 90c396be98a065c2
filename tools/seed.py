#!/usr/bin/env python3
"""seed.py make FILE...   builds /verif/seeded/<id>/ from descriptions, confirming each one in a scratch copy
   seed.py eval [ID...]   runs the check of each planted bug's property against it (quick), prints caught or missed
A description file: first lines 'id:', 'property:', 'needs:', 'breaks:', then '--- patch FILE', the old text, '---',
the new text (repeatable), then '--- demo' and the body of a C program whose main returns nonzero on failure."""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds in this demonstration
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
mkdir -p "$t/embc"
sed -e 's/@EMBC_PLATFORM@/STDLIB/; s/@PROJECT_PREFIX@/EMBC/; s/@PROJECT_VERSION_MAJOR@/0/; s/@PROJECT_VERSION_MINOR@/2/; s/@PROJECT_VERSION_PATCH@/0/' src/config.h.in > "$t/embc/config.h"
inc=$(for p in third-party/*/src; do [ -e "$p/utlist.h" ] && echo "-I$p"; done)
gcc -std=gnu99 -w -g -O1 -fsanitize=address -I"$t" -Iinclude -Isrc $inc -D__FILENAME__='"x"' "$d/demo.c" $(find src -name '*.c' ! -name lib.c) -o "$t/demo" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$t/demo"
'''
PYDEMO = '''#!/bin/bash
# exit 0: the property holds in this demonstration
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
mkdir -p "$t/inc/embc"
sed -e 's/@EMBC_PLATFORM@/STDLIB/; s/@PROJECT_PREFIX@/EMBC/; s/@PROJECT_VERSION_MAJOR@/0/; s/@PROJECT_VERSION_MINOR@/2/; s/@PROJECT_VERSION_PATCH@/0/' src/config.h.in > "$t/inc/embc/config.h"
inc=$(for p in third-party/*/src; do [ -e "$p/utlist.h" ] && echo "-I$p"; done)
cp -r py "$t/py" && rm -f "$t/py/embc/libembc.dll"
gcc -std=gnu99 -w -g -O1 -shared -fPIC -I"$t/inc" -Iinclude -Isrc $inc -D__FILENAME__='"x"' $(find src -name '*.c') -o "$t/py/embc/libembc.dll" || exit 2
cd "$t" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$t/py:$t/py/bin" timeout 60 python3 "$d/demo.py"
'''
PYPRE = '''import sys, types, time
class Clock:
    t = 1000.0
time.time = lambda: Clock.t
serial = types.ModuleType('serial'); serial.Serial = object; sys.modules['serial'] = serial
def CHECK(x, what=''):
    if not x:
        print('FAILED', what); sys.exit(1)
sys.unraisablehook = lambda u: (print('EXCEPTION', u.exc_value), __import__('os')._exit(1))
'''
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <setjmp.h>
#include "embc.h"
#include "embc/platform.h"
static jmp_buf fj; static int fatal_ok;
void embc_fatal(char const * f, int l, char const * m) { if (fatal_ok) longjmp(fj, 1); printf("fatal %s:%d %s\\n", f, l, m); exit(3); }
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\\n", __LINE__, #x); exit(1); } } while (0)
static long live; static void * al(embc_size_t n) { ++live; return malloc(n); } static void fr(void * p) { --live; free(p); }
#define INIT() embc_allocator_set(al, fr)
'''


def parse(fn):
    t = open(fn).read()
    out = []
    for part in re.split(r'^=====\n', t, flags=re.M):
        if not part.strip():
            continue
        secs = re.split(r'^--- (patch .*|demo|pydemo)\n', part, flags=re.M)
        d = dict(re.findall(r'^(\w+): (.*)$', secs[0], re.M))
        d['patches'] = []
        for h, b in zip(secs[1::2], secs[2::2]):
            if h in ('demo', 'pydemo'):
                d[h] = b
            else:
                old, new = b.split('\n---\n') if '\n---\n' in b else (b.split('---\n')[0], b.split('---\n')[1])
                d['patches'].append((h[6:], old.rstrip('\n'), new.rstrip('\n')))
        out.append(d)
    return out


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d




def make(d):
    dst = os.path.join(ROOT, 'seeded', d['id'])
    w = copy()
    try:
        repo = w + '/repo'
        for f, old, new in d['patches']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return d['id'], 'BAD patch: %d matches in %s' % (s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', repo)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(dst + '/patch.diff', 'w').write(diff)
        open(dst + '/demo.sh', 'w').write((PYDEMO.replace('-w -g', '-w -g -DEMBC_LOG_LEVEL=10') if '# LOG' in d['pydemo'] else PYDEMO) if 'pydemo' in d else DEMO)
        os.chmod(dst + '/demo.sh', 0o755)
        if 'pydemo' in d:
            open(dst + '/demo.py', 'w').write(PYPRE + d['pydemo'])
        else:
            open(dst + '/demo.c', 'w').write(PRE + (open(ROOT + '/tools/net.h').read() if 'net()' in d['demo'] else '') + d['demo'])
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh('bash %s/demo.sh' % dst, '/repo')
        rc1, o1 = sh('bash %s/demo.sh' % dst, repo)
        if rc0 != 0 or rc1 in (0, 2):
            return d['id'], 'BAD demo: clean %d %s patched %d %s' % (rc0, o0[-600:], rc1, o1[-600:])
        return d['id'], 'demo ok (%d): %s' % (rc1, o1.strip().split('\n')[0][:100])
    finally:
        shutil.rmtree(w, ignore_errors=True)


def stable(i):
    """Build and run the stable tests with the patch, in /repo itself (restored afterwards)."""
    p = os.path.join(ROOT, 'seeded', i, 'patch.diff')
    rc, o = sh('git -C /repo apply ' + p)
    if rc:
        return 'does not apply: ' + o
    try:
        rc, o = sh('bash /opt/vp/build.sh')
        if rc:
            return 'build fails: ' + o[-500:]
        sh('bash /opt/vp/test.sh /tmp/seed-tests.json')
        got = set(json.load(open('/tmp/seed-tests.json'))['passed'])
        miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in got]
        return 'TESTS FAIL: %s' % miss[:3] if miss else 'tests pass'
    finally:
        sh('git -C /repo checkout -- .')


def evaluate(i, prop=None):
    w = copy()
    try:
        rc, o = sh('git apply %s/seeded/%s/patch.diff' % (ROOT, i), w + '/repo')
        if rc:
            return i, 'does not apply'
        prop = prop or json.load(open('%s/seeded/%s/meta.json' % (ROOT, i)))['property']
        env = 'VERIF_REPO=%s/repo VERIF_REPLAY_DIR=%s' % (w, w)
        rc, o = sh('%s python3 check.py %s' % (env, prop), ROOT, 900)
        return i, '%s %s' % (prop, 'caught' if rc == 1 and 'VIOLATION property=%s' % prop in o else 'MISSED rc=%d %s' % (rc, o[-300:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        ds = [d for f in sys.argv[2:] for d in parse(f)]
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            res = list(ex.map(make, ds))
        for i, r in res:
            st = '' if r.startswith('BAD') else stable(i)
            print(i, r, st)
            if st != 'tests pass':
                shutil.rmtree(os.path.join(ROOT, 'seeded', i), ignore_errors=True)
        sh('bash /opt/vp/build.sh')
    else:
        ids = sys.argv[2:] or sorted(os.path.basename(x) for x in glob.glob(ROOT + '/seeded/*'))
        for i in ids:
            print(*evaluate(i), flush=True)
