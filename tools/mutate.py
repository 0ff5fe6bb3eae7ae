"""Small systematic changes of /repo's sources: which pass the tests, and which of those no check notices?

  python3 tools/mutate.py survivors OUT.json [file substring]   lists every mutant the test suite passes
  python3 tools/mutate.py checks OUT.json                       runs the checks on them (each in a mount namespace of its own with the mutant bound on /repo)

Development aid: not part of any check, and everything happens in scratch copies under /tmp/mut."""
import ast
import json
import os
import shutil
import subprocess
import sys
import concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('MUT_SRC', '/repo')
W = '/tmp/mut'
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!=', '<=', '>='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
CMPTXT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.Mod: ['//'], ast.Pow: ['*'], ast.Div: ['*'], ast.FloorDiv: ['*']}
BINTXT = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Mod: '%', ast.Pow: '**', ast.Div: '/', ast.FloorDiv: '//'}


def files():
    for d, _, fs in os.walk(SRC + '/asn1PERser'):
        if '/test' in d or '__pycache__' in d:
            continue
        for f in sorted(fs):
            if f.endswith('.py'):
                yield os.path.relpath(os.path.join(d, f), SRC)


def mutants(rel):
    s = open(os.path.join(SRC, rel)).read()
    lines = s.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))

    def pos(l, c):
        return off[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = set()

    def put(a, b, new):
        if s[a:b] != new:
            out.add((a, b, new))
    tree = ast.parse(s)
    log = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'logger':
            log.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in log or isinstance(n, ast.Expr) and id(n.value) in log:
            continue
        if isinstance(n, ast.Compare):
            prev = n.left
            for op, c in zip(n.ops, n.comparators):
                a, b = span(prev)[1], span(c)[0]
                t = CMPTXT.get(type(op))
                for new in CMP.get(type(op), []):
                    mid = s[a:b]
                    if t in mid:
                        put(a, b, mid.replace(t, new, 1))
                prev = c
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            if BINTXT[type(n.op)] in s[a:b]:
                for new in BIN[type(n.op)]:
                    put(a, b, s[a:b].replace(BINTXT[type(n.op)], new, 1))
        elif isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                a, b = span(x)[1], span(y)[0]
                o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                put(a, b, s[a:b].replace(o, w, 1))
            for x in n.values:
                a, b = span(x)
                put(a, b, 'True')
                put(a, b, 'False')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            o = span(n.operand)
            put(a, b, '(' + s[o[0]:o[1]] + ')')
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            if n.value is True or n.value is False:
                put(a, b, str(not n.value))
            elif isinstance(n.value, int):
                put(a, b, str(n.value + 1))
                put(a, b, '(%d)' % (n.value - 1))
            elif n.value is None and False:
                pass
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = span(n.test)
            put(a, b, 'True')
            put(a, b, 'False')
        if 'asn_definitions' in rel:
            continue
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            a, b = span(n)
            put(a, b, 'pass')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'deepcopy', 'copy', 'set', 'int', 'abs', 'min', 'max', 'reversed', 'str', 'len') and len(n.args) >= 1:
            a, b = span(n)
            o = span(n.args[0])
            put(a, b, '(' + s[o[0]:o[1]] + ')')
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add):
            for x in (n.value.left, n.value.right):
                o = span(x)
                put(*span(n.value), s[o[0]:o[1]])
        if isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    put(*span(x), '')
    return s, sorted(out)


def test(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d)
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'no:xdist', '-W', 'ignore', '--tb=no', 'asn1PERser/test',
                            '--deselect', 'asn1PERser/test/per/decoder/test_per_decode_sequence_of.py::test_no_constrains_sequence_of_integer_can_be_decoded[schema0-00-value0]'],
                           cwd=d, env=env, capture_output=True, text=True, timeout=90)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def prep(k):
    d = '%s/t%d' % (W, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['bash', '-c', 'git -C /repo archive HEAD | tar x -C ' + d if SRC == '/repo' else 'cp -a %s/. %s' % (SRC, d)], check=True)
    return d


def job(arg):
    rel, s, a, b, new = arg
    d = '%s/t%d' % (W, os.getpid())
    if not os.path.isdir(d):
        prep(os.getpid())
    p = os.path.join(d, rel)
    t = s[:a] + new + s[b:]
    try:
        compile(t, rel, 'exec')
    except SyntaxError:
        return None
    open(p, 'w').write(t)
    try:
        ok = test(d)
    finally:
        open(p, 'w').write(s)
    return dict(file=rel, line=s.count('\n', 0, a) + 1, old=s[a:b], new=new, a=a, b=b, text=s.splitlines()[s.count('\n', 0, a)].strip()) if ok else None


def survivors(out, sub=''):
    os.makedirs(W, exist_ok=True)
    jobs = []
    for rel in files():
        if sub in rel:
            s, ms = mutants(rel)
            jobs += [(rel, s) + m for m in ms]
    print(len(jobs), 'mutants', flush=True)
    res = []
    with cf.ProcessPoolExecutor(8) as ex:
        for i, r in enumerate(ex.map(job, jobs, chunksize=4)):
            if r:
                res.append(r)
            if i % 100 == 0:
                print(i, len(res), flush=True)
                json.dump(res, open(out, 'w'), indent=1)
    json.dump(res, open(out, 'w'), indent=1)
    print(len(res), 'survive')


ORDER = {'encoder': 'C01 C02 C17 C08 C12 C11 C10 C09', 'decoder': 'C03 C04 C06 C07 C05 C17 C11 C09 C10', 'constraint': 'C08 C01 C06 C13 C04', 'data/builtin': 'C12 C02 C04 C08 C09 C17',
         'types/type': 'C02 C04 C12 C09 C08 C17', '': 'C17 C13 C14 C16 C15 C08'}


SCREEN = [('C17', 40), ('C02', 40), ('C01', 40), ('C04', 30), ('C03', 40), ('C08', 30), ('C13', 20), ('C18', 60), ('C06', 80), ('C07', 40), ('C12', 30), ('C09', 40), ('C14', 20), ('C15', 60)]


def screen_one(r):
    pid = os.getpid()
    d, v = '%s/t%d' % (W, pid), '%s/v%d' % (W, pid)
    if not os.path.isdir(d):
        prep(pid)
    if not os.path.isdir(v):
        shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns('seeded', '.git', '__pycache__', 'evidence'))
    p = os.path.join(d, r['file'])
    s = open(os.path.join(SRC, r['file'])).read()
    open(p, 'w').write(s[:r['a']] + r['new'] + s[r['b']:])
    r['by'] = None
    order = SCREEN if 'codec' in r['file'] or 'data' in r['file'] else sorted(SCREEN, key=lambda x: x[0] not in ('C17', 'C13', 'C18', 'C14'))
    for c, n in order:
        env = dict(os.environ, MC_FAST='1', VERIF_TIER='quick', MC_SAMPLE=str(n))
        try:
            x = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && exec bash %s/check.sh %s --jobs 1' % (d, v, c)], env=env, capture_output=True, text=True, timeout=240)
            rc = x.returncode
        except subprocess.TimeoutExpired:
            rc = 99
        if rc:
            r['by'] = c if rc == 1 else '%s!%d' % (c, rc)
            break
    open(p, 'w').write(s)
    return r


def screen(out):
    """one surviving mutant per line against a thin slice of every check"""
    res, seen = [], set()
    for r in json.load(open(out)):
        if (r['file'], r['line']) not in seen:
            seen.add((r['file'], r['line']))
            res.append(r)
    done = []
    with cf.ProcessPoolExecutor(8) as ex:
        for r in ex.map(screen_one, res):
            done.append(r)
            json.dump(done, open(out + '.screen', 'w'), indent=1)
            print(r['by'] or 'MISSED', r['file'].split('/')[-1], r['line'], repr(r['old'][:50]), '->', repr(r['new'][:50]), '|', r['text'][:110], flush=True)


def checks(out):
    res = json.load(open(out))
    d = prep(0)
    v = W + '/verif'
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns('seeded', '.git', '__pycache__'))
    env = dict(os.environ, MC_FAST='1', VERIF_TIER='quick')
    for r in res:
        if 'by' in r and r['by']:
            continue
        p = os.path.join(d, r['file'])
        s = open(os.path.join(SRC, r['file'])).read()
        open(p, 'w').write(s[:r['a']] + r['new'] + s[r['b']:])
        r['by'] = None
        for key, o in ORDER.items():
            if key in r['file']:
                break
        for c in o.split():
            x = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && exec bash %s/check.sh %s' % (d, v, c)], env=env, capture_output=True, text=True)
            if x.returncode:
                r['by'] = c if x.returncode == 1 else '%s!%d' % (c, x.returncode)
                break
        open(p, 'w').write(s)
        json.dump(res, open(out, 'w'), indent=1)
        print(r['by'] or 'MISSED', r['file'].split('/')[-1], r['line'], repr(r['old'][:50]), '->', repr(r['new'][:50]), '|', r['text'][:110], flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'survivors':
        survivors(*sys.argv[2:])
    elif sys.argv[1] == 'screen':
        screen(sys.argv[2])
    else:
        checks(sys.argv[2])
