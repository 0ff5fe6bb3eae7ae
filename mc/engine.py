"""Exhaustive work-item runner shared by every check.

A check is a module with
    PROPERTY = 'C01'
    def items(tier): -> list of (label, payload)        the bounded space, cut in independent pieces
    def run(payload, ctx):                              explores its piece completely; ctx collects
    RULE / ASSUMPTIONS / BOUNDS(tier)                   text for the evidence file
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.json')
ITEM_TIMEOUT = 600          # seconds; pieces take a few seconds, so only a non-terminating call reaches this


MEM = 3500 << 20            # bytes per worker process
DEADLINE = {'quick': 780, 'thorough': 6 * 3600}     # wall-clock cap; pieces not reached are reported, never counted


class Hang(BaseException):
    pass


class Ctx:
    MAXFAIL = 5

    def __init__(self):
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.fails = []
        self.nfail = 0
        self.outcomes = set()
        self.sample = None

    def state(self, *key):
        self.states.add(hash(key))

    def flush_states(self):
        """states of one piece are disjoint from those of every other: count and drop"""
        self.nstates += len(self.states)
        self.states = set()

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def outcome(self, o):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(o))

    def fail(self, key, what, **replay):
        self.nfail += 1
        if len(self.fails) < self.MAXFAIL:
            self.fails.append({'key': key, 'what': what, 'replay': replay})

    def cut(self):
        return self.nfail >= 200

    def result(self):
        self.flush_states()
        return dict(states=self.nstates, transitions=self.transitions, traces=self.traces, extra=self.extra,
                    fails=self.fails, nfail=self.nfail, outcomes=len(self.outcomes), sample=self.sample)


def _alarm(*_):
    raise Hang()


_mod = None
_known = None


def _init(modname):
    global _mod, _known
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sys.setrecursionlimit(20000)
    _mod = importlib.import_module(modname)
    _known = {k['key'] for k in load_known(_mod.PROPERTY)}


def _work(arg):
    label, payload = arg
    ctx = Ctx()
    t0 = time.time()
    real_fail = ctx.fail
    ctx.known_hits = []

    def fail(key, what, **replay):
        if key in _known:
            ctx.known_hits.append(key)
            return
        real_fail(key, what, **replay)
    ctx.fail = fail
    try:
        signal.alarm(getattr(_mod, 'ITEM_TIMEOUT', ITEM_TIMEOUT))
        _mod.run(payload, ctx)
    except Hang:
        ctx.nfail += 1
        ctx.fails.append({'key': 'hang:%s' % label, 'what': 'exploration of %s did not terminate' % label,
                          'replay': {'item': repr(payload)[:4000]}})
    except Exception as e:                       # the harness itself never raises on a correct tree
        ctx.nfail += 1
        ctx.fails.append({'key': 'crash:%s' % label, 'what': 'unexpected %s while exploring %s: %s' % (
            type(e).__name__, label, e), 'replay': {'item': repr(payload)[:4000], 'trace': traceback.format_exc()}})
    finally:
        signal.alarm(0)
    r = ctx.result()
    r['label'] = label
    r['wall'] = time.time() - t0
    r['known_hits'] = sorted(set(ctx.known_hits))
    return r


def load_known(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == prop and k.get('status') == 'known']
    except FileNotFoundError:
        return []


def main(modname, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only', help='substring of item labels (debugging)')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    items = mod.items(tier)
    if a.only:
        items = [i for i in items if a.only in i[0]]
    sample = int(os.environ.get('MC_SAMPLE', '0'))      # development aid (tools/mutate.py): every n-th piece
    if sample:
        items = items[sample // 2::sample] or items[:1]
    total = dict(states=0, transitions=0, traces=0)
    extra, fails, samples, slow, known_hits = {}, [], [], [], set()
    nfail = outcomes = 0
    mpctx = mp.get_context('fork')
    pending_labels = {l for l, _ in items}
    capped = False
    ex = cf.ProcessPoolExecutor(a.jobs, mp_context=mpctx, initializer=_init, initargs=(modname,))
    try:
        futs = [ex.submit(_work, it) for it in items]
        for f in cf.as_completed(futs, timeout=DEADLINE[tier]):
            r = f.result()
            pending_labels.discard(r['label'])
            for k in total:
                total[k] += r[k]
            for k, v in r['extra'].items():
                extra[k] = extra.get(k, 0) + v
            fails += r['fails']
            nfail += r['nfail']
            outcomes += r['outcomes']
            known_hits.update(r['known_hits'])
            if r['sample'] is not None:
                samples.append((r['label'], r['sample']))
            slow.append((r['wall'], r['label']))
            if nfail >= (1 if os.environ.get('MC_FAST') else 2000) or any(x['key'].startswith('hang:') for x in r['fails']):
                break
    except cf.process.BrokenProcessPool:
        nfail += 1
        fails.append({'key': 'crash:pool', 'what': 'a worker process died while exploring one of: %s' %
                      ', '.join(sorted(pending_labels)[:8]), 'replay': {}})
    except (cf.TimeoutError, TimeoutError):
        capped = True
    procs = list((ex._processes or {}).values())
    ex.shutdown(wait=not pending_labels, cancel_futures=True)
    if pending_labels:
        for p in procs:
            p.kill()
    samples.sort(key=lambda x: str(x[0]))
    if len(samples) > 8:
        step = len(samples) / 8.0
        samples = [samples[int(i * step)] for i in range(8)]
    slow.sort(reverse=True)
    wall = time.time() - t0
    cov = dict(total)
    cov['traces_validated_against_impl'] = cov.pop('traces')
    cov['samples'] = [{'piece': l, 'case': s} for l, s in samples]
    cov['distinct_outcomes'] = outcomes
    cov['pieces'] = len(items)
    cov['rule'] = mod.RULE
    cov['bounds'] = mod.BOUNDS(tier) if callable(getattr(mod, 'BOUNDS', None)) else getattr(mod, 'BOUNDS', '')
    cov['exhaustive'] = nfail == 0 and not a.only and not sample and not capped
    if capped:
        cov['not_reached'] = sorted(pending_labels)
    cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=nfail)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    for k in load_known(prop):
        if k['key'] in known_hits:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s: states=%d transitions=%d traces=%d outcomes=%d pieces=%d violations=%d wall=%.1fs' % (
        prop, tier, total['states'], total['transitions'], total['traces'], outcomes, len(items), nfail, wall))
    if capped:
        print('%s: wall-clock cap reached, %d of %d pieces not explored' % (prop, len(pending_labels), len(items)))
    if a.verbose:
        for w, l in slow[:10]:
            print('   %6.2fs %s' % (w, l))
        print('  ', {k: v for k, v in extra.items()})
    if nfail:
        seen = set()
        fails.sort(key=lambda f: (len(f['what']), f['what']))
        for f in fails:
            if len(seen) >= 10:
                break
            path = os.path.join(EVID, 'replay', '%s-%d.json' % (prop, len(seen)))
            if f['key'] in seen:
                continue
            seen.add(f['key'])
            with open(path, 'w') as fh:
                json.dump(dict(property=prop, module=modname, **f), fh, indent=1, default=str)
            print('  %s' % f['what'][:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0
