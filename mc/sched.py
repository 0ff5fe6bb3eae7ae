"""Controlled scheduler: two real threads, exactly one running, switched at chosen trace events of the code under test.

A schedule is a list of segments (thread, number of events or None = to its end).  Every line (or byte code) executed in a
file of the code under test is one event, so a schedule is exactly "thread 0 runs n0 events, then thread 1 runs n1, ..."."""
import os
import sys
import threading

from . import lib as L

PKG = os.path.realpath(os.path.join(L.REPO, 'asn1PERser')) + os.sep
PYASN1 = os.path.realpath(os.path.dirname(os.path.dirname(L.pyasn1.__file__) + os.sep)) + os.sep
_memo = {}


def _ours(code, deep):
    k = (code, deep)
    r = _memo.get(k)
    if r is None:
        f = os.path.realpath(code.co_filename)
        r = _memo[k] = f.startswith(PKG) or (deep and f.startswith(PYASN1))
    return r


class _T:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.go = threading.Semaphore(0)
        self.done = False
        self.n = 0                      # events so far
        self.limit = None               # switch when n reaches this
        self.out = None


class Run:
    BLOCKED = 0.25                      # s without progress while holding the baton: waiting for a lock of the other thread

    def __init__(self, fns, segments, opcodes=False, deep=False):
        self.ts = [_T(i, f) for i, f in enumerate(fns)]
        self.segs = list(segments)
        self.opcodes, self.deep = opcodes, deep
        self.main = threading.Semaphore(0)
        self.switches = 0

    def _next(self):
        """hand the baton to the thread of the next feasible segment; None when all are done"""
        while self.segs:
            i, n = self.segs.pop(0)
            t = self.ts[i]
            if not t.done:
                t.limit = None if n is None else t.n + n
                return t
        for t in self.ts:
            if not t.done:
                t.limit = None
                return t
        return None

    def _event(self, me):
        me.n += 1
        if me.limit is not None and me.n >= me.limit:
            me.limit = None
            nxt = self._next()
            if nxt is None or nxt is me:
                return
            self.switches += 1
            nxt.go.release()
            seen = nxt.n
            while not me.go.acquire(timeout=self.BLOCKED):
                if nxt.done or nxt.n != seen:
                    seen = nxt.n
                    continue
                return                  # the other one waits for a lock this one holds: such a switch cannot happen

    def _body(self, me):
        me.go.acquire()

        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self._event(me)
            return local

        def tr(frame, event, arg):
            if event == 'call' and _ours(frame.f_code, self.deep):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        sys.settrace(tr)
        try:
            me.out = ('ok', me.fn())
        except Exception as e:
            me.out = ('raised', type(e).__name__)
        finally:
            sys.settrace(None)
        me.done = True
        nxt = self._next()
        if nxt is None:
            self.main.release()
        else:
            nxt.go.release()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.ts]
        for t in ths:
            t.start()
        self._next().go.release()
        self.main.acquire()
        for t in ths:
            t.join()
        return [t.out for t in self.ts], [t.n for t in self.ts]


def length(fn, opcodes=False, deep=False):
    """number of events of fn alone, and its outcome"""
    r = Run([fn], [(0, None)], opcodes, deep)
    out, n = r.run()
    return n[0], out[0]
