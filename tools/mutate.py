#!/usr/bin/env python3
"""Mutation sweep: mutate.py OUT N SEED [file substring ...]
Small changes to /repo/src/lop, in scratch copies: does any relevant quick check see those that the
stable tests let through?"""
import ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading, time
V = os.environ.get('MUT_VERIF', '/tmp/vv')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', HOME='/root',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', NUMBA_NUM_THREADS='1', MKL_NUM_THREADS='1')
REL = {
 'kernels/': ['C09', 'C10', 'C04', 'C11', 'C12'],
 'probits/PreferenceProbit': ['C07', 'C08', 'C03', 'C01', 'C11', 'C16'],
 'probits/OrdinalProbit': ['C07', 'C08', 'C03', 'C11'],
 'probits/AbsBoundProbit': ['C07', 'C08', 'C03', 'C11', 'C16'],
 'probits/ProbitBase': ['C07', 'C08', 'C03', 'C11'],
 'models/GP.py': ['C12'],
 'models/Model.py': ['C14', 'C12', 'C06'],
 'models/PreferenceGP': ['C03', 'C04', 'C06', 'C05', 'C11', 'C01', 'C02', 'C14'],
 'models/PreferenceModel': ['C01', 'C02', 'C03', 'C06', 'C07', 'C11', 'C13', 'C05'],
 'models/PreferenceLinear': ['C13', 'C06', 'C01'],
 'active_learning/ActiveLearner': ['C14', 'C15', 'C24', 'C16'],
 'active_learning/UCB': ['C15', 'C14'], 'active_learning/GV_UCB': ['C15', 'C14'],
 'active_learning/Best': ['C15', 'C14'], 'active_learning/Random': ['C15', 'C14'],
 'active_learning/Mutual': ['C24', 'C14'], 'active_learning/BayesInfoGain': ['C24', 'C14'],
 'active_learning/Acquisition': ['C16', 'C14'], 'active_learning/AbsAcq': ['C16', 'C14'],
 'active_learning/Mixed': ['C17'], 'active_learning/RateChoose': ['C17'],
 'utilities/pareto': ['C18'], 'utilities/human_choice': ['C19'], 'utilities/HumanChoice': ['C19'],
 'utilities/synthetic': ['C19'], 'utilities/preference_pairs': ['C20', 'C01'],
 'utilities/training': ['C21', 'C20'], 'utilities/Fake': ['C22'], 'utilities/mcmc': ['C23'],
 'utilities/sample': ['C23', 'C16'], 'utilities/gamma': ['C23', 'C10'], 'utilities/prob': ['C23'],
}
SKIPF = ('AbsBayesInfo', 'ProbabilityLearner', '__init__')
SKIPFN = ('plot', '__str__', 'FakeIntegrate')


def mutants(path):
    src = open(path).read()
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    tree = ast.parse(src)
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, kind):
        s, e = pos(n)
        out.append((s, e, new, kind, n.lineno))

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()
    CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'],
           ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'],
           ast.Is: ['is not'], ast.IsNot: ['is']}
    BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*'],
           ast.BitOr: ['-'], ast.MatMult: []}
    SW = {'max': 'min', 'min': 'max', 'argmax': 'argmin', 'argmin': 'argmax', 'fmax': 'fmin',
          'fmin': 'fmax', 'sum': 'mean', 'mean': 'sum', 'prod': 'sum', 'ones': 'zeros', 'zeros': 'ones',
          'copy': 'asarray', 'log2': 'log', 'union': 'intersection', 'hstack': 'vstack'}

    def visit(n, skip=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if any(k in n.name for k in SKIPFN):
                return
            body = n.body
            for d in n.decorator_list:
                pass
            if isinstance(n, ast.FunctionDef):
                for x in n.args.defaults:
                    visit(x)
            for x in body:
                visit(x)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            return
        if isinstance(n, ast.Expr):
            s = seg(n)
            if isinstance(n.value, ast.Constant) or s.startswith(('print', 'pdb', 'plt', 'super')):
                return
            if '\n' not in s:
                add(n, 'pass', 'delete')
        if isinstance(n, ast.If) and 'debug' in seg(n.test):
            return
        if isinstance(n, (ast.Assign, ast.AugAssign)) and '\n' not in seg(n):
            add(n, 'pass', 'delete')
        if isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                add(n.test, 'True', 'cond')
            add(n.test, 'False', 'cond')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '%s %s %s' % (l, o, r), 'cmp')
        if isinstance(n, ast.BinOp):
            l, r = n.left, n.right
            s0, e0 = pos(l)
            s1, e1 = pos(r)
            mid = b[e0:s1].decode()
            if not isinstance(l, ast.Constant) or not isinstance(l.value, str):
                for o in BIN.get(type(n.op), []):
                    t = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**',
                         ast.BitOr: '|'}[type(n.op)]
                    if mid.count(t) == 1:
                        out.append((e0, s1, mid.replace(t, o), 'bin', n.lineno))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and \
                not isinstance(n.operand, ast.Constant):
            add(n, '(' + seg(n.operand) + ')', 'unary')
        if isinstance(n, ast.BoolOp) and len(n.values) == 2:
            s0, e0 = pos(n.values[0])
            s1, e1 = pos(n.values[1])
            mid = b[e0:s1].decode()
            a, c = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if mid.count(a) == 1:
                out.append((e0, s1, mid.replace(a, c), 'bool', n.lineno))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), 'const')
            elif isinstance(v, int):
                add(n, str(v + 1), 'const')
                if v > 0:
                    add(n, str(v - 1), 'const')
            elif isinstance(v, float):
                add(n, repr(v * 1.3 + (0.1 if v == 0 else 0)), 'const')
        if isinstance(n, ast.Attribute) and n.attr in SW and isinstance(n.value, ast.Name) and n.value.id == 'np':
            add(n, 'np.' + SW[n.attr], 'func')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'transpose') \
                and n.args and isinstance(n.func.value, ast.Name):
            add(n, seg(n.args[0]), 'alias')
        if isinstance(n, ast.Attribute) and n.attr == 'T':
            add(n, '(' + seg(n.value) + ')', 'noT')
        if isinstance(n, ast.AugAssign) and '\n' not in seg(n):
            t = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}.get(type(n.op))
            if t:
                add(n, seg(n.target) + ' ' + t + ' ' + seg(n.value), 'aug')
                add(n, seg(n.target) + ' = ' + seg(n.value), 'aug')
        for x in ast.iter_child_nodes(n):
            visit(x)
    visit(tree)
    return b, [m for m in out if m[2] != b[m[0]:m[1]].decode()]


def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, 'timeout'


TEST = ('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=120 -p randomly --randomly-seed=0 '
        '--randomly-dont-reorganize --ignore=tests/active_learning/test_bayes_info_gain.py '
        '--deselect tests/active_learning/test_abs_bayes_info.py --deselect tests/active_learning/test_rate_choose.py::DESEL '
        'tests 2>&1 | tail -4; exit ${PIPESTATUS[0]}')
local = threading.local()
cnt = [0]


def wd():
    if not hasattr(local, 'd'):
        cnt[0] += 1
        d = '/tmp/mut/w%d' % cnt[0]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True)
        local.d = d
    return local.d


def one(job):
    f, (s, e, new, kind, line), b = job
    d = wd()
    p = d + '/src/lop/' + f
    try:
        open(p, 'wb').write(b[:s] + new.encode() + b[e:])
        old = b[s:e].decode()
        L = b.decode().split('\n')[line - 1].strip()
        rec = dict(f=f, line=line, kind=kind, old=old[:120], new=new[:120], text=L[:140])
        try:
            compile(open(p).read(), p, 'exec')
        except SyntaxError:
            rec['res'] = 'syntax'
            return rec
        env = dict(ENV, PYTHONPATH=d + '/src')
        rc, o = sh(TESTCMD, d, env, 240)
        if rc != 0:
            rec['res'] = 'tests'
            return rec
        chk = next((v for k, v in REL.items() if f.startswith(k)), [])
        env = dict(ENV, VERIF_LOP_SRC=d + '/src', VERIF_ALLOW_OTHER_TREE='1', VERIF_SEED='1')
        for c in chk:
            rc, o = sh('%s/check.sh %s quick --scale %s' % (V, c, os.environ.get('SCALE', '0.25')), d, env, 900)
            if rc == 1:
                rec['res'] = 'caught ' + c
                m = re.search(r'(?m)^(C\d\d/.*)$', o)
                rec['msg'] = m.group(1)[:200] if m else ''
                return rec
            if rc != 0:
                rec['res'] = 'odd %s rc=%d' % (c, rc)
                rec['msg'] = o[-300:]
                return rec
        rec['res'] = 'SURVIVED'
        return rec
    finally:
        open(p, 'wb').write(b)


def main():
    global TESTCMD
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pats = sys.argv[4:]
    desel = json.load(open('/tmp/out.json'))['failed']
    TESTCMD = open('/tmp/mut_test.sh').read().strip()
    jobs = []
    for r, _, fs in os.walk('/repo/src/lop'):
        for x in sorted(fs):
            p = os.path.join(r, x)
            f = os.path.relpath(p, '/repo/src/lop')
            if not x.endswith('.py') or any(k in x for k in SKIPF):
                continue
            if pats and not any(k in f for k in pats):
                continue
            b, ms = mutants(p)
            jobs += [(f, m, b) for m in ms]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r['f'], r['line'], r['kind'], r['old'], r['new']))
    random.Random(seed).shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    jobs = [j for j in jobs if (j[0], j[1][4], j[1][3], j[2][j[1][0]:j[1][1]].decode()[:120], j[1][2][:120]) not in done][:n]
    with cf.ThreadPoolExecutor(int(os.environ.get('W', '7'))) as ex, open(out, 'a') as fo:
        for r in (x.result() for x in cf.as_completed([ex.submit(one, j) for j in jobs])):
            fo.write(json.dumps(r) + '\n')
            fo.flush()


main()
