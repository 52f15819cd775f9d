"""Sessions, scenarios and obligation bookkeeping for the property rules."""
from __future__ import annotations
import multiprocessing
import os
import pickle
import resource
import signal
import sys
import time
import traceback
from . import terms as tm
from . import pit
from .interp import Interp
from .values import *

MAX_KB = 900 * 1024       # size above which an analysis worker is replaced

HERE = os.path.dirname(os.path.abspath(__file__))


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


class Run:
    """one run of the rules of one property"""

    def __init__(self, prop, tier, root="/repo"):
        self.prop, self.tier, self.root = prop, tier, root
        self.obls = []
        self.analysed = set()
        self.callsites = set()
        self.unsup = {}
        self.scenarios = 0
        self.notes = []
        self.errors = []
        self.jobs = []
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def session(self, *harness):
        I = Interp(self.root)
        I.load("simcats")
        mods = {}
        for h in harness:
            mods[h] = self.load_harness(I, h)
        I.hmods = mods
        return I

    def load_harness(self, I, h):
        path = os.path.join(HERE, "harness", h + ".py")
        if h not in I.packages:
            I.packages = tuple(I.packages) + (h,)
        return I.load_source(h, path, open(path).read())

    def collect(self, I):
        self.analysed |= {q for q in I.analysed if q.startswith("simcats")}
        self.callsites |= {c for c in I.callsites if "simcats" in str(c)}
        for k, v in I.unsup.items():
            self.unsup[k] = self.unsup.get(k, 0) + v
        self.obls.extend(I.obls)
        I.obls = []
        I.analysed = set()
        I.callsites = set()
        I.unsup = {}

    def scene(self, I, mod, fname, args=(), limit=120, label=None, keep=False, post=None, raises=True):
        """analyse one harness function; returns (value, alive) with the state left in I unless keep is False"""
        self.scenarios += 1
        m = I.hmods[mod]
        f = I.mod_attr(m, fname)
        base = I.snapshot()
        ranks, lo, hi = dict(I.ranks), dict(I.lo), dict(I.hi)
        I.decmemo.clear()       # the same atom may be bounded differently elsewhere
        I.scene = label or fname
        I.entries = []
        n0 = len(I.obls)
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        nframes = len(I.frames)
        nsinks = len(I.sinks)
        v, alive = None, False
        try:
            v, alive, entries = I.scope(lambda: I.call(f, list(args), {}))
            signal.alarm(0)
            for e in entries:
                if isinstance(e.exit, RaiseX):
                    x = e.exit.exc
                    if not raises and (e.snap[1] or e.snap[2]):
                        continue
                    w = pit.feasible(I, e.snap[1], e.snap[2]) if (e.snap[1] or e.snap[2]) else "definite"
                    if w is None:
                        continue
                    if x.name in ("NameError", "ImportError", "ModuleNotFoundError") and "/harness/" in str(x.loc):
                        w = "unknown"       # the harness uses a private name that is gone
                    msg = x.args[0] if x.args and isinstance(x.args[0], str) else (
                        tm.show(I.vn(x.args[0])) if x.args else "")
                    self.add(I, "unexpected " + x.name, "undecided" if w == "unknown" else "violated", "raising path",
                             "%s: %s (at %s) when %s" % (x.name, msg[:300], x.loc,
                                                         "; ".join(tm.show(c)[:200] for c in e.snap[2]) or "always"), x.loc)
            if post is not None:
                signal.alarm(limit)
                post(I, v, alive)
                signal.alarm(0)
        except Timeout:
            self.errors.append((I.scene, "time limit"))
            self.add(I, "scenario", "undecided", "analysis time limit", "")
        except RecursionError:
            self.errors.append((I.scene, "recursion"))
            self.add(I, "scenario", "undecided", "analysis recursion limit", "")
        except (AnalysisError, Exception) as e:
            signal.alarm(0)
            tb = traceback.format_exc()
            self.errors.append((I.scene, tb))
            self.add(I, "scenario", "undecided", "analysis error: %s" % e, tb[-600:])
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            del I.frames[nframes:]
            del I.sinks[nsinks:]
        self.collect(I)
        if not keep:
            I.restore(base)
            I.ranks, I.lo, I.hi = ranks, lo, hi
        return v, alive

    def defer(self, I, *a, **kw):
        """queues an independent scenario; the queue is analysed by flush() in forked workers"""
        self.jobs.append((I, a, kw))

    def _supervise(self, jobs, nxt):
        """runs jobs in forked children; a child that has grown large hands over to a fresh one"""
        out = {}
        while nxt.value < len(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    data = pickle.dumps(self._work(jobs, nxt))
                except BaseException:
                    data = pickle.dumps({"error": traceback.format_exc()})
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            d = pickle.loads(data) if data else {"lost": True}
            if "error" in d:
                return pickle.dumps(d)
            d.pop("lost", None)
            out.update(d)
        return pickle.dumps(out)

    def _work(self, jobs, nxt):
        done = {}
        while not done or resource.getrusage(resource.RUSAGE_SELF).ru_maxrss < MAX_KB:
            with nxt.get_lock():
                n = nxt.value
                nxt.value += 1
            if n >= len(jobs):
                break
            I, a, kw = jobs[n]
            self.obls, self.analysed, self.callsites, self.unsup, self.errors = [], set(), set(), {}, []
            self.scenarios = 0
            self.scene(I, *a, **kw)
            for o in self.obls:
                o["loc"] = o["loc"] if o["loc"] is None or isinstance(o["loc"], tuple) else str(o["loc"])
                o["stack"] = []
            done[n] = (self.obls, self.analysed, {str(c) for c in self.callsites}, self.unsup, self.errors, self.scenarios)
            if os.environ.get("SA_TRACE"):
                print(n, a[1:2], resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024, "MB", file=sys.stderr)
        return done

    def flush(self, workers=None):
        jobs, self.jobs = self.jobs, []
        workers = min(len(jobs), workers or int(os.environ.get("SA_JOBS", "0") or 0) or os.cpu_count() or 1)
        if workers <= 1:
            for I, a, kw in jobs:
                self.scene(I, *a, **kw)
            return
        nxt = multiprocessing.Value("i", 0)
        procs = []
        for _ in range(workers):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                data = self._supervise(jobs, nxt)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            procs.append((pid, r))
        out = {}
        for pid, r in procs:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            d = pickle.loads(data) if data else {"error": "worker died"}
            if "error" in d:
                self.errors.append(("worker", d["error"]))
                continue
            out.update(d)
        for n in range(len(jobs)):
            if n not in out:
                I, a, kw = jobs[n]
                I.scene = kw.get("label") or a[1]
                I.entries = []
                self.add(I, "scenario", "undecided", "analysis worker failed")
                self.collect(I)
                continue
            obls, an, cs, un, er, sc = out[n]
            self.obls.extend(obls)
            self.analysed |= an
            self.callsites |= cs
            for k, v in un.items():
                self.unsup[k] = self.unsup.get(k, 0) + v
            self.errors.extend(er)
            self.scenarios += sc

    def add(self, I, rule, status, how, detail="", loc=None):
        I.obls.append(dict(rule=I.scene + ":" + rule, status=status, how=how, detail=detail, loc=loc, stack=[],
                             entries=["%s (line %d)" % e for e in I.entries[-3:]]))

    def flat_events(self, I, log=None):
        from .npfuncs import _side_events
        out = []
        _side_events(I.log if log is None else log, None, out)
        return out


def scenes(R, I, mod, skip=(), helpers=(), only=None, **kw):
    """analyse every zero-argument function of a harness module as one scenario"""
    m = I.hmods[mod]
    env = I.heap[m.env.id].vars
    n = 0
    for name, v in list(env.items()):
        v = I.res(v)
        if not isinstance(v, Fn) or v.module is not m or name in skip or name in helpers or name.startswith("_"):
            continue
        a = v.node.args
        if a.args or a.vararg or a.kwonlyargs:
            continue
        if only and name not in only:
            continue
        R.defer(I, mod, name, **kw)
        n += 1
    return n


def cases(R, I, mod, fname, n, **kw):
    """one scenario per case number"""
    for i in range(n):
        R.defer(I, mod, fname, args=(tm.const(i),), label="%s %d" % (fname, i), **kw)
