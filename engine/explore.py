"""Depth-first exploration of all paths of a harness entry, on several cores."""
import collections
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
from core import (Violation, PathEnd, Unsupported, OutOfFuel, Deadline, LongJmp,
                  Exit, Stats, SB, SI, SD, SG)
from gmp import GmpExecutor


class Run:
    """one exploration: an entry function with some choices preset"""

    def __init__(self, harness, entry, fixed=None, name=None, fuel=None, weight=1.0, must=(), thorough=False,
                 oom=False):
        self.harness = harness
        self.entry = entry
        self.fixed = dict(fixed or {})
        self.name = name or entry + ("" if not self.fixed else
                                     "[" + ",".join("%s=%s" % kv for kv in sorted(self.fixed.items())) + "]")
        self.fuel = fuel
        self.weight = weight
        self.must = tuple(must)      # v_reach labels that have to be reached
        self.thorough = thorough     # thorough tier only
        self.oom = oom


def run_path(ex, entry, fixed, prefix):
    """execute one path; returns the outcome label"""
    ex.fixed = fixed
    ex.new_path_state()
    ex.reset(list(prefix))
    f = ex.ns[ex.prog.entries[entry]]
    try:
        f(ex)
        out = "ok"
    except PathEnd:
        out = "infeasible"
    except Exit:
        out = "exit"
    except Unsupported as e:
        out = "unsupported"
        ex.why = str(e)
    except OutOfFuel:
        # a run that does not end within the fuel is a candidate non-termination
        out = "violation"
        ex.report("hang", "no end within the step bound", ex.witness())
    except Violation as e:
        if e.kind == "inexact-reported":
            out = "violation"
        else:
            w = ex.witness()
            if w is None:
                r, m = ex.solve([], timeout=8000)
                if r == "unsat":
                    out = "infeasible"
                else:
                    w = m
                    out = "violation"
            else:
                out = "violation"
            if out == "violation":
                ex.report(e.kind, e.msg, w)
    except TypeError as e:
        if "not subscriptable" in str(e):
            tb = traceback.extract_tb(sys.exc_info()[2])
            fn = tb[-1].name
            out = "violation"
            ex.report("null-deref", "null or invalid pointer dereferenced in " + fn, ex.witness())
        else:
            raise
    except AttributeError as e:
        if "cells" in str(e) or "live" in str(e):
            out = "violation"
            ex.report("bad-pointer", "data access through a function pointer", ex.witness())
        elif "x_" in str(e):
            out = "unsupported"
            ex.why = "no model for external " + str(e)
        else:
            raise
    except RecursionError:
        out = "unsupported"
        ex.why = "recursion"
    return out


def observe(ex, w):
    """observations of a finished path under assignment w, as text"""
    out = []
    for name, kind, v in ex.obs:
        if kind == "i":
            if v.__class__ is SI:
                v = int(ex.eval_dict(v.p, w))
            elif v.__class__ is SB:
                t = 1
                for f in v.fs:
                    x = ex.eval_dict(f, w)
                    t *= (x > 0) - (x < 0)
                from core import holds
                v = int(holds(v.op, t))
            elif v.__class__ is SG:
                t = 1
                for f in v.fs:
                    x = ex.eval_dict(f, w)
                    t *= (x > 0) - (x < 0)
                v = t
            else:
                v = int(v)
            out.append("%s %d" % (name, v))
        elif kind == "z":
            out.append("%s %d" % (name, int(ex.eval_dict(v, w))))
        elif kind == "q":
            from fractions import Fraction
            f = Fraction(ex.eval_dict(v[0], w)) / Fraction(ex.eval_dict(v[1], w))
            out.append("%s %d/%d" % (name, f.numerator, f.denominator))
        elif kind == "d":
            if v.__class__ is SD:
                v = float(ex.eval_dict(v.n, w) / ex.eval_dict(v.d, w))
            out.append("%s %s" % (name, float(v).hex()))
    return out


def worker(conn, progs, runs, seed, qt, want_traces):
    sys.setrecursionlimit(4000)
    exs = {}
    random.seed(seed)
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            ri, prefixes, slice_s, deadline = msg
            run = runs[ri]
            ex = exs.get(run.harness)
            if ex is None:
                ex = exs[run.harness] = GmpExecutor(progs[run.harness], seed)
                ex.query_timeout = qt
                ex.confirmed = set()
                ex.reached = set()
            ex.stats = Stats()
            ex.reached = set()
            ex.cov = bytearray(len(ex.prog.fnames))
            ex.max_fuel = run.fuel or 3000000
            ex.deadline = deadline
            ex.queries = []
            t0 = time.time()
            stack = list(prefixes)
            res = dict(run=ri, found=[], outcomes=collections.Counter(), why=collections.Counter(),
                       undec=collections.Counter(), traces=[], err=None, left=[], rate=0)
            n = 0
            while stack:
                now = time.time()
                if now > deadline or now - t0 > slice_s:
                    break
                prefix = stack.pop()
                try:
                    out = run_path(ex, run.entry, run.fixed, prefix)
                except Deadline:
                    stack.append(prefix)
                    break
                except Exception:
                    res["err"] = traceback.format_exc()[-3000:]
                    out = "engine-error"
                n += 1
                ex.stats.paths += 1
                res["outcomes"][out] += 1
                if out == "unsupported":
                    ex.stats.unsupported += 1
                    res["why"][ex.why] += 1
                if out == "infeasible":
                    ex.stats.infeasible += 1
                for u in ex.notes_undecided:
                    res["undec"][u] += 1
                stack.extend(ex.pending)
                if ex.found:
                    for f in ex.found:
                        f["run"] = ri
                    res["found"].extend(ex.found)
                    if len(res["found"]) > 6:
                        break
                if out == "ok" and want_traces and (n <= 2 or random.random() < 0.02) and not ex.fault_used():
                    w = ex.witness()
                    if w is not None:
                        try:
                            res["traces"].append((ex.render_inputs(w), observe(ex, w)))
                        except Exception:
                            res["why"]["trace rendering"] += 1
            res["left"] = stack
            res["stats"] = ex.stats
            res["cov"] = bytes(ex.cov)
            res["reached"] = ex.reached
            conn.send(res)
    except (EOFError, KeyboardInterrupt):
        pass


class Totals:
    def __init__(self):
        self.stats = Stats()
        self.outcomes = collections.Counter()
        self.why = collections.Counter()
        self.undec = collections.Counter()
        self.cov = {}
        self.reached = set()
        self.traces = []
        self.errors = []
        self.left = 0
        self.complete = True


def explore(progs, runs, budget_s, seed, nproc=8, qt=4000, on_found=None, want_traces=True, quiet=True,
            max_traces=40):
    """returns ([Totals per run], stopped?)"""
    t0 = time.time()
    deadline = t0 + budget_s
    tot = [Totals() for _ in runs]
    queues = [collections.deque([[]]) for _ in runs]
    spent = [0.0] * len(runs)
    ctx = mp.get_context("fork")
    procs, conns = [], []
    for k in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, progs, runs, seed, qt, want_traces), daemon=True)
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    idle = list(range(nproc))
    busy = {}
    stopped = False
    try:
        while True:
            while idle and time.time() < deadline and not stopped:
                # the run with work and the least time spent per weight
                cand = [r for r in range(len(runs)) if queues[r]]
                if not cand:
                    break
                r = min(cand, key=lambda r: spent[r] / runs[r].weight)
                q = queues[r]
                n = max(1, min(len(q) // (2 * nproc), 64))
                # oldest prefixes first: they head the largest subtrees
                batch = [q.popleft() for _ in range(n)]
                k = idle.pop()
                sl = 0.25 if len(q) < nproc else 1.5
                spent[r] += 0.3
                busy[k] = (r, time.time())
                conns[k].send((r, batch, sl, deadline))
            if not busy:
                break
            ready = mp.connection.wait([conns[k] for k in busy], timeout=1.0)
            if not ready and time.time() > deadline + 45:
                for k in busy:
                    tot[busy[k][0]].complete = False
                break
            for c in ready:
                k = conns.index(c)
                try:
                    res = c.recv()
                except EOFError:
                    r = busy.pop(k)[0]
                    tot[r].errors.append("worker died")
                    tot[r].complete = False
                    continue
                r, ts = busy.pop(k)
                spent[r] += time.time() - ts
                idle.append(k)
                t = tot[r]
                t.stats.add(res["stats"])
                t.outcomes.update(res["outcomes"])
                t.why.update(res["why"])
                t.undec.update(res["undec"])
                t.reached |= res["reached"]
                if res["err"]:
                    t.errors.append(res["err"])
                if len(t.traces) < max_traces:
                    t.traces.extend(res["traces"][:6])
                cov = res["cov"]
                prev = t.cov.get(runs[r].harness)
                t.cov[runs[r].harness] = cov if prev is None else bytes(a | b for a, b in zip(prev, cov))
                queues[r].extend(res["left"])
                if res["found"] and on_found and not stopped:
                    for f in res["found"]:
                        if on_found(f):
                            stopped = True
                            break
            if stopped and not busy:
                break
            if time.time() > deadline and not busy:
                break
    finally:
        for k, c in enumerate(conns):
            try:
                c.send(None)
            except Exception:
                pass
        for p in procs:
            p.join(0.2)
            if p.is_alive():
                p.kill()
    for r in range(len(runs)):
        tot[r].left = len(queues[r])
        tot[r].spent = spent[r]
        if queues[r]:
            tot[r].complete = False
    return tot, stopped
