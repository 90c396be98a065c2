#!/usr/bin/env python3
"""catch.py [ID...]   (development aid, not a check)
Runs the check of every planted bug's property against a scratch copy of /repo with that bug and writes tools/catch.json:
which stage reports it.  With --table prints the table of DESIGN.md."""
import json, os, re, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = ROOT + '/tools/catch.json'


def main():
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    if sys.argv[1:] == ['--table']:
        for k in sorted(res):
            m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, k)))
            print('| %s | %s | %s |' % (k, m['needs'], res[k]))
        return
    for k in sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, k)))
        with tempfile.TemporaryDirectory(dir='/tmp') as d:
            r = d + '/repo'
            subprocess.run(['cp', '-a', '/repo', r], check=True)
            subprocess.run(['git', '-C', r, 'apply', '%s/seeded/%s/patch.diff' % (ROOT, k)], check=True)
            o = subprocess.run(['python3', ROOT + '/check.py', m['property']], cwd=ROOT, env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, text=True).stdout
        st = re.search(r'^  stage (\S+): (\S+)', o, re.M)
        res[k] = ('%s, %s' % (m['property'], st[1]) if st else m['property'] + ' (no stage)') if 'VIOLATION property=' + m['property'] in o else 'missed'
        print(k, res[k], flush=True)
        json.dump(res, open(OUT, 'w'), indent=0, sort_keys=True)


main()
