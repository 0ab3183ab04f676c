#!/usr/bin/env python3
"""Planted bugs.  seed.py verify [ids]   patch applies, touches original lines, tests pass, demo works
                  seed.py catch [ids]    does the quick check of its property catch it (on a copy)
                  seed.py make FILE      write seeded/<id>/ from python definitions (BUGS list)"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '1205164'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', NUMBA_NUM_THREADS='1')
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=ENV, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True,
                          timeout=timeout)


def copy(i):
    d = '/tmp/seedwt_' + i
    shutil.rmtree(d, ignore_errors=True)
    sh('git -C /repo archive HEAD | (mkdir -p %s && tar x -C %s)' % (d, d))
    sh('git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x', cwd=d)
    return d


def make(fn):
    ns = {}
    exec(open(fn).read(), ns)
    ids = []
    for b in ns['BUGS']:
        d = copy(b['id'])
        for f, old, new in b['edits']:
            p = d + '/src/lop/' + f
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(b['id'], 'OLD TEXT FOUND', n, 'TIMES in', f)
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            o = V + '/seeded/' + b['id']
            os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(sh('git diff', cwd=d).stdout)
            open(o + '/demo.sh', 'w').write(DEMO)
            os.chmod(o + '/demo.sh', 0o755)
            open(o + '/demo.py', 'w').write(b['demo'].strip() + '\n')
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']),
                      open(o + '/meta.json', 'w'), indent=1)
            ids.append(b['id'])
        shutil.rmtree(d)
    return ids


def verify(i):
    o = V + '/seeded/' + i
    d = copy(i)
    try:
        r = sh('bash %s/demo.sh' % o, cwd=d, timeout=300)
        msg = []
        if r.returncode:
            msg.append('DEMO FAILS CLEAN: ' + (r.stdout + r.stderr)[-400:])
        r = sh('git apply %s/patch.diff' % o, cwd=d)
        if r.returncode:
            return i + ' PATCH DOES NOT APPLY ' + r.stderr
        base = {}
        cur = None
        for l in open(o + '/patch.diff'):
            if l.startswith('--- a/'):
                cur = l[6:].strip()
                base[cur] = sh('git -C /repo show %s:%s' % (BASE, cur)).stdout.split('\n')
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
                if l[1:].rstrip('\n') not in base[cur]:
                    msg.append('not an original line: ' + l.strip())
        r = sh('bash %s/demo.sh' % o, cwd=d, timeout=300)
        if r.returncode == 0:
            msg.append('DEMO PASSES WITH BUG')
        demo = (r.stdout + r.stderr).strip().split('\n')[-1][:150]
        env = dict(ENV, PYTHONPATH=d + '/src')
        r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 2 --timeout=300 -p randomly '
               '--randomly-seed=0 --randomly-dont-reorganize --ignore=tests/active_learning/'
               'test_bayes_info_gain.py --continue-on-collection-errors tests 2>&1 | tail -15',
               cwd=d, env=env)
        t = r.stdout.strip().split('\n')[-1]
        m = re.search(r'(\d+) passed', t)
        if not m or int(m.group(1)) < 180:
            msg.append('TESTS ' + r.stdout[-800:])
        return '%s %s [%s] %s' % (i, 'ok' if not msg else 'BAD', demo, '\n   '.join(msg))
    finally:
        shutil.rmtree(d)


def catch(i, tier='quick', extra=''):
    o = V + '/seeded/' + i
    prop = json.load(open(o + '/meta.json'))['property']
    d = copy(i + '_c')
    try:
        sh('git apply %s/patch.diff' % o, cwd=d)
        env = dict(ENV, VERIF_LOP_SRC=d + '/src', VERIF_ALLOW_OTHER_TREE='1',
                   VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        r = sh('%s/check.sh %s %s %s' % (V, prop, tier, extra), env=env)
        line = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or l.startswith('  ')][:2]
        return '%s %s rc=%d %s' % (i, prop, r.returncode, ' | '.join(line)[:300])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
    if sys.argv[1] == 'make':
        ids = make(sys.argv[2])
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(verify, ids):
                print(r, flush=True)
    elif sys.argv[1] == 'verify':
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(verify, ids):
                print(r, flush=True)
    else:
        for i in ids:
            print(catch(i), flush=True)
