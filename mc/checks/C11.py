"""Configurations: logging set-up and the form of the input never change what is computed."""
import io
import json
import logging
import os
import shutil
import subprocess
import sys
import tempfile
from .. import domains as D, codec as K, model as M, lib as L
from ..engine import ROOT
PROPERTY = 'C11'
RULE = ('every (type, value) of the constructed space and of the primitive space (without the exhaustive number ranges): encode, decode of the '
        'message and decode of the message without its last byte, under every configuration {default, StreamHandler at DEBUG / INFO / ERROR / '
        'CRITICAL, two handlers} x {bytes, bytearray, keyword / positional arguments}: same value or same kind of failure as in the model, the '
        'input buffer is not modified, every log record can be formatted, nothing is written to stdout or stderr by the library itself; '
        'in fresh interpreters, every combination of {root logger untouched, configured by the application before / after the import} x '
        '{no set-up, handler given positionally / by keyword, two handlers, own formatter or not, default level and the five others}: a workload of encodes, '
        'decodes, failures and schemas leaves stdout, stderr and the root logger untouched, the handler gets exactly the records of its level and above')
ASSUMPTIONS = ['handlers that themselves raise are outside the property']
CONFIGS = ('default', 'debug', 'info', 'error', 'critical', 'two')


def BOUNDS(tier):
    return '%d logging configurations x 3 input forms; types and values as C12 with at most %d values per type, tier %s' % (len(CONFIGS), CAP[tier], tier)


CAP = {'quick': 6, 'thorough': 40}


def items(tier):
    out = [('p.' + l, ('p', p, tier)) for l, p, offs in D.prim_payloads('quick') if p[0] not in ('ranges', 'intall')]
    out += [('c.' + l, ('c', p, tier)) for l, p in D.con_payloads('quick', 'single')]
    for part in range(PARTS[tier]):
        for root, when in (('none', 'before'), ('debug', 'before'), ('debug', 'after')):
            out.append(('process.%s.%s.%d' % (root, when, part), ('process', (root, when, part, PARTS[tier]), tier)))
    return out


PARTS = {'quick': 4, 'thorough': 1}
LEVELS = (None, logging.DEBUG, logging.WARNING, logging.ERROR, logging.CRITICAL)


def child(tmp, **a):
    out = os.path.join(tmp, 'out.json')
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-B', '-m', 'mc.logproc', json.dumps(dict(a, out=out))], cwd=ROOT, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    try:
        with open(out) as f:
            r = json.load(f)
    except FileNotFoundError:
        r = None
    return r, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def process(pl, ctx):
    root, when, part, parts = pl
    tmp = tempfile.mkdtemp(prefix='mc-c11-')
    try:
        base = dict(root=root, when=when, part=part, parts=parts)
        silent = '' if root == 'debug' else 'the application still logs\n'       # last-resort handler of logging: the application's own record
        levels = {}
        confs = [('none', None, False), ('null', None, False), ('null', logging.DEBUG, True)]
        confs += [('memory', l, f) for l in LEVELS for f in (False, True)]
        confs += [('two', logging.DEBUG, False), ('stream', None, False), ('stream', None, True), ('arg', logging.DEBUG, False), ('arg', logging.ERROR, True)]
        for setup, level, fmt in confs:
            conf = 'root %s configured %s import, set-up %s level %s%s' % (root, when, setup, level and logging.getLevelName(level), ', own formatter' if fmt else '')
            r, out, err = child(tmp, setup=setup, level=level, formatter=fmt, **base)
            ctx.state(conf)
            ctx.traces += 1

            def bad(what, got):
                ctx.fail('process|%s|%s' % (conf, what), '%s: %s: %s' % (conf, what, K.short(got)), config=conf, part=part, parts=parts)
            if r is None:
                bad('the process failed', err[-600:])
                continue
            ctx.transitions += r['calls']
            ctx.count('records_seen', len(r['own']))
            if out:
                bad('text on stdout', out[:300])
            if setup in ('stream', 'arg'):
                if not err.endswith(silent):
                    bad('end of stderr', err[-300:])
                lines = err[:len(err) - len(silent)].splitlines()
                if (level or logging.INFO) <= logging.INFO and not lines:
                    bad('nothing is printed', '')
                if fmt and [x for x in lines if x.startswith('OWN|')][:1] != lines[:1]:
                    bad('the formatter of the handler is not used', lines[:1])
            elif err != silent:
                bad('text on stderr', err[:300])
            alien = [x for x in r['root'] if x[0] != 'application']
            if alien or len(r['root']) != (1 if root == 'debug' else 0):
                bad('records at the root logger of the application (only its own one is expected)', r['root'][:3])
            if setup in ('memory', 'two'):
                own = r['own']
                low = [x for x in own if x[1] < (level or logging.INFO)]
                if low:
                    bad('records below the level', low[:2])
                if fmt:
                    if [x for x in own if not x[3].startswith('OWN|%s|' % logging.getLevelName(x[1]))]:
                        bad('the formatter of the handler is not used', own[:1])
                levels[setup, level, fmt] = [x[1] for x in own]
                if (level or logging.INFO) <= logging.INFO and not own:
                    bad('the handler gets no record', own)
                if setup == 'two' and r['second'] != own:
                    bad('the second handler does not get the same records', [len(own), len(r['second'])])
        ref = levels.get(('memory', logging.DEBUG, False))
        for (setup, level, fmt), got in levels.items():
            if ref is not None and got != [x for x in ref if x >= (level or logging.INFO)]:
                ctx.fail('process|filter|%s|%s|%s|%s|%s' % (root, when, setup, level, fmt), 'root %s configured %s import, set-up %s level %s: %d records, '
                         '%d of the %d records at DEBUG are of that level' % (root, when, setup, level, len(got), len([x for x in ref if x >= (level or logging.INFO)]),
                                                                              len(ref)), config=repr((setup, level, fmt)))
        ctx.sample = {'config': 'root %s, configured %s import' % (root, when), 'records': {'%s %s %s' % k: len(v) for k, v in levels.items()}}
    finally:
        shutil.rmtree(tmp)


class Handler(logging.StreamHandler):
    """an ordinary stream handler that remembers records it could not write"""

    def __init__(self):
        logging.StreamHandler.__init__(self, io.StringIO())
        self.broken = None
        self.count = 0

    def emit(self, record):
        self.count += 1
        self.stream.seek(0)
        self.stream.truncate()
        logging.StreamHandler.emit(self, record)

    def handleError(self, record):
        self.broken = 'record %r args %r: %s' % (record.msg, record.args, sys.exc_info()[1])


class Config:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.root = logging.getLogger('asn1perser')
        self.saved = (list(self.root.handlers), self.root.level, self.root.propagate)
        self.h = []
        if self.name != 'default':
            level = {'debug': logging.DEBUG, 'info': logging.INFO, 'error': logging.ERROR, 'critical': logging.CRITICAL, 'two': logging.DEBUG}[self.name]
            for _ in range(2 if self.name == 'two' else 1):
                h = Handler()
                self.h.append(h)
                L.asn1PERser.asn1perser_logging_setup(h, level)
        self.out = io.StringIO()
        self.std = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self.out
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.std
        self.root.handlers[:] = self.saved[0]
        self.root.setLevel(self.saved[1])
        self.root.propagate = self.saved[2]


def run(p, ctx):
    kind, pl, tier = p
    if kind == 'process':
        return process(pl, ctx)
    pairs = [(t, D.spread(vs, CAP[tier])) for t, vs in (D.expand_prim(pl) if kind == 'p' else D.expand_con(pl))]
    records = 0
    for cfg in CONFIGS:
        with Config(cfg) as c:
            for t, vs in pairs:
                cls = L.cls_of(t)
                for v in vs:
                    one(t, v, cls, cfg, ctx)
                for h in c.h:
                    records += h.count
                    h.count = 0
                    if h.broken:
                        ctx.fail('log|%r|%s' % (t, cfg), '%s: a log record could not be written: %s' % (K.short(t), h.broken), type=repr(t), config=cfg)
                        h.broken = None
                if c.out.getvalue():
                    ctx.fail('out|%r|%s' % (t, cfg), '%s: configuration %s: text on stdout/stderr: %s' % (K.short(t), cfg, K.short(c.out.getvalue())),
                             type=repr(t), config=cfg)
                    c.out.seek(0)
                    c.out.truncate()
                if ctx.cut():
                    return
        ctx.flush_states()
    ctx.count('log_records_formatted', records)


def one(t, v, cls, cfg, ctx):
    try:
        w = M.encode_w(t, v)
    except (M.DontCare, M.Reject):
        return
    data = M.tobytes(w.value())
    want = M.norm(t, v)
    trunc = data[:-1]
    try:
        M.decode(t, trunc)
        trunc = None
    except M.Short:
        pass
    except (M.Malformed, M.DontCare):
        trunc = None
    K.count_states(ctx, t, w)
    ctx.traces += 1

    def bad(what, got):
        ctx.fail('cfg|%s|%r|%r' % (cfg, t, v), 'logging %s: %s for %s value %s gave %s' % (cfg, what, K.short(t), K.short(v), K.short(got)),
                 type=repr(t), value=repr(v), config=cfg)
    spec = cls()
    try:
        got = L.encode(L.make(t, v, cls))
        if got != data or type(got) is not bytes:
            bad('encode', got)
    except Exception as e:
        bad('encode', '%s: %s' % (type(e).__name__, e))
    buf = bytearray(data)
    for what, f in (('decode(bytes)', lambda: L.decode(data, asn1Spec=spec)), ('decode(bytearray)', lambda: L.decode(per_stream=buf, asn1Spec=spec)),
                    ('decode(positional)', lambda: L.decode(data, spec))):
        try:
            got = L.read(t, f())
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, str(e)[:200])
        if got != want:
            return bad(what, got)
    if bytes(buf) != data:
        return bad('the input buffer after decode', bytes(buf))
    if trunc is not None:
        for form in (bytes, bytearray):
            ctx.transitions += 1
            try:
                got = L.read(t, L.decode(form(trunc), asn1Spec=spec))
            except Exception as e:
                ctx.outcome(type(e).__name__)
                continue
            return bad('decode(%s without its last byte)' % form.__name__, got)
    if ctx.sample is None and cfg == 'debug':
        ctx.sample = {'type': K.short(t), 'value': K.short(v), 'bytes': K.short(data.hex()), 'config': cfg}
