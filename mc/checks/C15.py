"""Parser: what parsing a schema gives does not depend on what was parsed (or failed to parse) before."""
import os
import pathlib
import pickle
import shutil
import tempfile
from .. import lib as L, schema as S, schemas as F, domains as D
PROPERTY = 'C15'
RULE = ('the tree of all operation sequences up to the depth bound is explored by forking the process at every node, so each sequence runs on exactly the interpreter state its prefix left; '
        'the result of every operation (generated text, file written, kind of error, bytes and values of modules generated earlier) has to equal the result of the same operation in a process '
        'that did nothing before')
ASSUMPTIONS = ['one thread', 'the fresh-process result itself is judged by C13, C14 and C17']
DEPTH = {'quick': 3, 'thorough': 4}


def BOUNDS(tier):
    return 'all sequences of up to %d operations over %d operations; all ordered pairs of schemas within families that share their names: %s; all sequences of up to two (three of a part) of %d parses into folders' % (
        DEPTH[tier], len(OPS), ', '.join('%s %d' % (k, len(v)) for k, v in sorted(families(tier).items())), len(steps()))


H = 'Mod DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND\n'
# the same names with a different meaning each time; schemas which lack a definition that another one has; ones which fail half-way
TEXT = {
    'simple': H % 'A ::= INTEGER (0..3)\nB ::= SEQUENCE { a A, b BOOLEAN OPTIONAL }\nn INTEGER ::= 5\nC ::= OCTET STRING (SIZE(1..n))\nD ::= B',
    'constructed': H % 'C ::= SEQUENCE (SIZE(0..n)) OF B\nA ::= SEQUENCE { x BOOLEAN }\nB ::= CHOICE { a A, b INTEGER (0..n) }\nn INTEGER ::= 9\nD ::= SEQUENCE { l C }',
    'enumerated': H % 'A ::= ENUMERATED {a, b, ..., c}\nB ::= SEQUENCE { a A DEFAULT b, ..., [[ c SEQUENCE { a INTEGER (0..n) } ]] }\nn A ::= c\nD ::= BIT STRING (SIZE(4))',
    'inline': H % 'B ::= SEQUENCE { a SEQUENCE { b ENUMERATED {x, y}, c SEQUENCE OF INTEGER (0..7) }, c CHOICE { d BOOLEAN, e OCTET STRING (SIZE(2)) } }\nC ::= CHOICE { b B }',
    'other': 'Other DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nX ::= INTEGER (0..255)\nB ::= SEQUENCE { x X DEFAULT 7, ... }\nA ::= SEQUENCE OF B\nEND\n',
    'undef-component': H % 'B ::= SEQUENCE { a A, b BOOLEAN }',
    'undef-alias': H % 'E ::= BOOLEAN\nB ::= A',
    'undef-element': H % 'B ::= SEQUENCE OF C',
    'undef-value-type': H % 'E ::= INTEGER\nb A ::= 3',
    'undef-size': H % 'C ::= OCTET STRING (SIZE(1..n))\nA ::= INTEGER (0..n)',
    'undef-default': H % 'B ::= SEQUENCE { a INTEGER DEFAULT n, b BOOLEAN }',
    'cut': H % 'A ::= BOOLEAN\nn INTEGER ::= 7\nB ::= SEQUENCE { a A, C',
    'twice': H % 'A ::= BOOLEAN\nn INTEGER ::= 2\nA ::= INTEGER (0..n)\nB ::= A',
    'empty': H % '',
    'garbage': 'nothing of the kind',
}
USE = {     # after parsing: value to build, its bytes
    'simple': ('B', lambda m: dict(a=2, b=True)), 'constructed': ('D', None), 'enumerated': ('B', lambda m: dict(a='a')), 'inline': ('B', None), 'other': ('B', lambda m: dict(x=9)),
}
OPS = ['parse ' + k for k in TEXT] + ['file simple', 'file constructed', 'file other', 'nofolder', 'use']


def use(name, ns):
    """encodes and decodes a value with the module generated earlier"""
    out = []
    cls = ns[USE[name][0]]
    v = cls()
    if name == 'constructed':
        e = ns['B']()
        e['b'] = 9
        v['l'].append(e)
        e = ns['B']()
        e['a']['x'] = True
        v['l'].append(e)
    elif name == 'inline':
        v['a']['b'] = 'y'
        v['a']['c'].extend([1, 7])
        v['c']['e'] = b'\x01\x02'
    else:
        for k, x in USE[name][1](ns).items():
            v[k] = x
    b = bytes(L.encode(v))
    d = L.decode(b, asn1Spec=cls())
    out.append((name, b.hex(), repr(d.to_dict()), bytes(L.encode(d)).hex()))
    return out


class World:
    def __init__(self):
        self.modules = []       # (name, namespace) in the order they were generated

    def do(self, op, folder):
        kind, _, arg = op.partition(' ')
        try:
            if kind == 'parse':
                t = L.parse_asn1_schema(TEXT[arg])
                if arg in USE:
                    self.modules.append((arg, S.load(t)))
                return ('text', t)
            if kind == 'file':
                if arg == 'constructed':            # an older, longer file of that name and a file of somebody else are there already
                    for f in ('Mod.py', 'keep.txt'):
                        with open(os.path.join(folder, f), 'w') as fh:
                            fh.write('older content\n' * 500)
                r = L.parse_asn1_schema(TEXT[arg], output_folder=folder)
                res = {}
                for f in sorted(os.listdir(folder)):
                    with open(os.path.join(folder, f)) as fh:
                        res[f] = fh.read()
                    os.unlink(os.path.join(folder, f))
                return ('files', r, res)
            if kind == 'nofolder':
                out = []
                for name, where in (('cut', folder), ('undef-alias', folder), ('simple', os.path.join(folder, 'missing'))):
                    try:
                        out.append(L.parse_asn1_schema(TEXT[name], output_folder=where))
                    except Exception as e:
                        out.append(type(e).__name__)
                left = sorted(os.listdir(folder))
                for f in left:
                    os.unlink(os.path.join(folder, f))
                return ('nofolder', out, left)
            if kind == 'use':
                return ('use', [use(n, ns) for n, ns in self.modules])
        except Exception as e:
            return ('error', type(e).__name__)
        raise AssertionError(op)


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st or not data:
        raise RuntimeError('process of the exploration ended with status %d' % st)
    return pickle.loads(data)


def baseline(folder):
    base = {}
    for op in OPS:
        if op != 'use':
            base[op] = forked(lambda: World().do(op, folder))
    for name in USE:
        def fresh():
            w = World()
            w.do('parse ' + name, folder)
            return w.do('use', folder)
        base['use ' + name] = forked(fresh)
    return base


def explore(world, path, depth, base, folder):
    """-> (nodes, outcomes, failures) of the whole subtree below path"""
    op = path[-1]
    got = world.do(op, folder)
    if op == 'use':
        if got[0] == 'error':
            want = ('use', 'no error')
        else:
            want = ('use', [base['use ' + n][1][0] for n, _ in world.modules])
    else:
        want = base[op]
    n, outs, fails = 1, {hash(repr(got))}, []
    if got != want:
        return n, outs, [(path, got, want)]
    if len(path) < depth:
        for nxt in OPS:
            if nxt == 'use' and not world.modules:
                continue
            a, b, c = forked(lambda: explore(world, path + (nxt,), depth, base, folder))
            n, outs, fails = n + a, outs | b, fails + c[:5]
    return n, outs, fails[:20]


def items(tier):
    first = [(a,) for a in OPS if a != 'use']
    two = [a + (b,) for a in first for b in OPS]
    out = [('seq.%s' % '/'.join(p), (p, DEPTH[tier])) for p in two]
    out += [('folder.%d' % i, ('folder', i, 8)) for i in range(8)]
    for fam, texts in sorted(families(tier).items()):
        out += [('pair.%s.%d' % (fam, c[0]), ('pair', fam, tuple(c), tier)) for c in D.chunks(range(len(texts)), 6)]
    return out


NAMES = ('Mod', 'My-Mod', 'My', 'M', 'MOD', 'Mod2', 'A-1-b', 'Module-With-A-Rather-Long-Name-2')
BODIES = ('A ::= BOOLEAN', 'B ::= SEQUENCE { a INTEGER (0..7) DEFAULT 3, b OCTET STRING OPTIONAL, ..., c BOOLEAN }\nA ::= CHOICE { x B }', '')
FORMS = ('absolute', 'slash', 'relative', 'here', 'Path', 'below', 'missing')


def steps():
    return [(n, b, f) for n in NAMES for b in range(len(BODIES)) for f in FORMS[:3] if b == 0 or f == 'absolute'] + [('My-Mod', 1, f) for f in FORMS[3:]]


def folders(p, ctx):
    """all sequences of up to three parses into one folder: the files are those of a plain model of it"""
    seqs = [(a,) for a in steps()] + [(a, b) for a in steps() for b in steps()]
    few = [s for s in steps() if s[0] in ('Mod', 'My-Mod', 'My') and s[2] == 'absolute']
    seqs += [(a, b, c) for a in few for b in few for c in few]
    plain = {(n, b): L.parse_asn1_schema('%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND' % (n, BODIES[b])) for n in NAMES for b in range(len(BODIES))}
    top = tempfile.mkdtemp(prefix='c15-')
    was = os.getcwd()
    try:
        os.chdir(top)
        for k, seq in enumerate(seqs):
            if k % p[2] != p[1]:
                continue
            where = os.path.join(top, 'a folder')
            os.makedirs(os.path.join(where, 'below'))
            want, rets = {}, []
            for n, b, form in seq:
                arg = {'absolute': where, 'slash': where + os.sep, 'relative': 'a folder', 'here': os.curdir, 'Path': pathlib.Path(where), 'below': os.path.join(where, 'below'),
                       'missing': os.path.join(where, 'missing')}[form]
                if form == 'here':
                    os.chdir(where)
                try:
                    r = L.parse_asn1_schema('%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND' % (n, BODIES[b]), arg)
                except Exception as e:
                    r = 'error'
                os.chdir(top)
                rets.append(r)
                if form != 'missing':
                    want[('below/' if form == 'below' else '') + n + '.py'] = plain[n, b]
            got = {}
            for d, _, fs in os.walk(where):
                for f in fs:
                    with open(os.path.join(d, f)) as fh:
                        got[os.path.relpath(os.path.join(d, f), where)] = fh.read()
            shutil.rmtree(where)
            stray = os.listdir(top)
            ctx.state(seq)
            ctx.transitions += len(seq)
            ctx.traces += 1
            ctx.outcome(tuple(sorted(got)))
            if got != want or stray or rets != ['error' if s[2] == 'missing' else None for s in seq]:
                diff = sorted(set(got) ^ set(want)) or sorted(f for f in got if got[f] != want[f])
                ctx.fail('folder|%r' % (seq,), 'parses into folders %r: returned %r, files %s, wrong or missing %s%s' % (seq, rets, sorted(got), diff, ', outside of the folder %s' % stray if stray else ''),
                         sequence=repr(seq))
            for f in stray:
                shutil.rmtree(os.path.join(top, f), ignore_errors=True)
                if os.path.exists(os.path.join(top, f)):
                    os.unlink(os.path.join(top, f))
            if ctx.cut():
                return
            ctx.sample = {'parses': repr(seq), 'files': sorted(got)}
    finally:
        os.chdir(was)
        shutil.rmtree(top)


def families(tier):
    """quick: evenly spaced members"""
    return {k: v if tier == 'thorough' else D.spread(v, 44) for k, v in F.variants().items()}


def outcome(txt):
    try:
        return L.parse_asn1_schema(txt)
    except Exception as e:
        return 'error ' + type(e).__name__


def pairs(fam, firsts, tier, ctx):
    texts = families(tier)[fam]
    base = [forked(lambda: outcome(t)) for t in texts]
    for i in firsts:
        def after():
            outcome(texts[i])
            return [(j, got) for j, got in enumerate([forked(lambda: outcome(t)) for t in texts]) if got != base[j]]
        wrong = forked(after)
        ctx.state((fam, i))
        ctx.transitions += len(texts)
        ctx.traces += len(texts)
        ctx.outcome(base[i])
        for j, got in wrong[:3]:
            ctx.fail('pair|%s|%s' % (texts[i], texts[j]), 'after parsing\n%s\nthe schema\n%s\ngives\n%s\nin a fresh process it gives\n%s' % (texts[i], texts[j], got[-600:], base[j][-600:]), first=texts[i], second=texts[j])


def run(p, ctx):
    if p[0] == 'folder':
        return folders(p, ctx)
    if p[0] == 'pair':
        return pairs(p[1], p[2], p[3], ctx)
    path, depth = p
    folder = tempfile.mkdtemp(prefix='c15-')
    try:
        base = baseline(folder)
        for op, want in (('parse simple', 'text'), ('parse constructed', 'text'), ('parse enumerated', 'text'), ('parse inline', 'text'), ('parse other', 'text'), ('file simple', 'files'),
                         ('file other', 'files')):
            if base[op][0] != want:
                ctx.fail('base|' + op, '%s in a fresh process gave %s' % (op, str(base[op])[:500]))
                return
        for name in USE:
            if base['use ' + name][0] != 'use':
                ctx.fail('base|use ' + name, 'values of schema %s cannot be encoded and decoded: %s' % (name, base['use ' + name]))
                return
        for op in ('simple', 'constructed', 'other'):       # the file is the text
            b = base['file ' + op]
            files = {('Other' if op == 'other' else 'Mod') + '.py': base['parse ' + op][1]}
            if op == 'constructed':
                files['keep.txt'] = 'older content\n' * 500
            if b[1:] != (None, files):
                ctx.fail('file|' + op, 'output_folder: wrote %s, returned %r; expected the text that parsing without output_folder returns' % (sorted(b[2]), b[1]), schema=TEXT[op])

        if base['nofolder'][2]:
            ctx.fail('file|failed', 'output_folder: schemas that cannot be parsed left the files %s' % base['nofolder'][2])

        def both():
            w = World()
            n, o, f = 0, set(), []
            for i in range(1, len(path)):               # the prefix (its own outcome is checked in the piece it is the end of, or here)
                got = w.do(path[i - 1], folder)
                if got != base[path[i - 1]]:
                    return 1, o, [(path[:i], got, base[path[i - 1]])]
            if path[-1] == 'use' and not w.modules:
                return 0, o, []
            return explore(w, path, depth, base, folder)
        n, outs, fails = forked(both)
        ctx.transitions += n
        ctx.traces += n
        ctx.nstates += n
        for o in outs:
            ctx.outcome(o)
        for path2, got, want in fails:
            ctx.fail('seq|%s' % '/'.join(path2), 'after %s, %s gave %s; in a fresh process it gives %s' % (
                ', '.join(path2[:-1]) or 'nothing', path2[-1], str(got)[:400], str(want)[:400]), path=path2)
        if ctx.sample is None and n > 20:
            ctx.sample = {'prefix': path, 'sequences': n}
    finally:
        shutil.rmtree(folder, ignore_errors=True)
