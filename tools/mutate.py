#!/usr/bin/env python3
"""mutate.py OUT N [SEED] [FILE...]   (development aid, not a check)
Random small mutations of /repo's sources in a scratch copy: those that compile and pass the existing C tests are
run against the quick checks whose properties are anchored in the file; writes one JSON line per surviving mutant."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<\-])<(?![<=])', '<='), (r'(?<![>\-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='),
       (r'&&', '||'), (r'\|\|', '&&'), (r'\+ 1\b', '+ 2'), (r'\+ 1\b', ''), (r'- 1\b', ''), (r'- 1\b', '- 2'), (r' \+ ', ' - '), (r' - ', ' + '),
       (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+\+', '--'), (r'--', '++'),
       (r'!(?=[a-z(])', ''), (r'<<', '>>'), (r'>>', '<<'), (r' & ', ' | '), (r' \| ', ' & '), (r'\+=', '-='), (r'-=', '+='), (r'\|=', '='), (r'\+=', '='),
       (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\breturn;', ';'), (r'\bif \((.*)\) \{', r'if (1) {'), (r'\bif \((.*)\) \{', r'if (0) {'),
       (r'\buint32_t\b', 'uint16_t'), (r'\buint16_t\b', 'uint8_t'), (r'\bint64_t\b', 'int32_t'), (r'\buint8_t\b', 'int8_t')]
DEL = re.compile(r'^\s*[a-zA-Z_][\w\->.\[\]*]*(\s*[-+|&]?=[^=].*|\(.*\));\s*$')
PYOPS = [(r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\bnot ', ''), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\bif (.*):', r'if True:'), (r'\bif (.*):', r'if False:'), (r'\bcontinue\b', 'break'),
         (r'\bNone\b', '0'), (r'c_uint32', 'c_uint16'), (r'c_uint16', 'c_uint8'), (r'c_uint8', 'c_int8')]
PYDEL = re.compile(r'^\s*[a-zA-Z_][\w.\[\]:]*(\s*[-+|&]?=[^=].*|\(.*\))\s*$')
SKIP = re.compile(r'LOG|^\s*#|import |log\.|assert|parser|'  r'ARGCHK|DBC|ASSERT|^\s*(//|\*|/\*|#include|#ifndef|#endif)')


def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace', env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def mutants(f, rnd):
    lines = open(os.path.join(REPO, f)).read().split('\n')
    out, comment = [], False
    for i, ln in enumerate(lines):
        if '/*' in ln and '*/' not in ln:
            comment = True
        if comment:
            comment = '*/' not in ln
            continue
        if SKIP.search(ln) or not ln.strip():
            continue
        code = ln.split('//')[0].split('/*')[0]
        py = f.endswith('.py')
        for a, b in (OPS[:-7] + PYOPS if py else OPS):
            for m in re.finditer(a, code):
                out.append((i, ln[:m.start()] + m.expand(b) + ln[m.end():]))
        if (PYDEL if py else DEL).match(ln):
            out.append((i, ln[:len(ln) - len(ln.lstrip())] + 'pass' if py else ''))
    return lines, out


def main():
    outf, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
    anchors = {}
    for ln in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(ln)
        for f in p['anchors']['files']:
            anchors.setdefault(f, []).append(p['id'])
    files = sys.argv[4:] or sorted(anchors)
    rnd = random.Random(seed)
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    repo = os.path.join(d, 'repo')
    sh('git clone -q %s %s' % (REPO, repo))
    sh('cp -a /repo/third-party %s/' % repo)
    b = os.path.join(d, 'b')
    rc, o = sh('cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DEMBC_UNIT_TEST=ON -Wno-deprecated && ninja -C %s' % (repo, b, b))
    assert rc == 0, o[-3000:]
    env = dict(os.environ, VERIF_REPO=repo)
    try:
        for f in files:
            lines, ms = mutants(f, rnd)
            rnd.shuffle(ms)
            done = 0
            for i, new in ms:
                if done >= n:
                    break
                if not os.path.exists(outf + '.run'):
                    return
                open(os.path.join(repo, f), 'w').write('\n'.join(lines[:i] + [new] + lines[i + 1:]))
                rc, o = sh('ninja -C %s' % b) if not f.endswith('.py') else sh('python3 -c "import ast; ast.parse(open(\'%s\').read())"' % os.path.join(repo, f))
                if rc == 0:
                    rc, o = sh('true' if f.endswith('.py') else 'ctest --timeout 20 -j 8', cwd=b, timeout=120)
                    if rc == 0:
                        done += 1
                        res, t = [], time.time()
                        for c in anchors[f]:
                            rc, o = sh('timeout 400 python3 %s/check.py %s' % (ROOT, c), env=env)
                            res.append((c, rc))
                            if rc == 1:
                                break
                        ok = any(r == 1 for _, r in res)
                        with open(outf, 'a') as g:
                            g.write(json.dumps({'file': f, 'line': i + 1, 'old': lines[i].strip(), 'new': new.strip(), 'caught': ok, 'res': res, 's': round(time.time() - t)}) + '\n')
                open(os.path.join(repo, f), 'w').write('\n'.join(lines))
    finally:
        shutil.rmtree(d)


main()
