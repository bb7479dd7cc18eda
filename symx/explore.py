"""Exploration of one harness: all paths, all checks, models and witnesses."""
import os
import random
import sys
import time
import traceback

import numpy as np
import z3

from symx import core
from symx.core import Engine, Infeasible, OutOfBudget, Sym, SymxSignal, UnknownResult, Unsupported
from symx.harness import TOL, SymH


def _flat_obs(obs):
    out = []
    for name, v in obs:
        if hasattr(v, "_symx_values"):
            v = v._symx_values()
        if isinstance(v, np.ndarray):
            items = list(np.ndarray.view(v, np.ndarray).flat)
        elif isinstance(v, (list, tuple)):
            items = list(v)
        else:
            items = [v]
        for i, x in enumerate(items):
            out.append(("%s[%d]" % (name, i), x))
    return out


class FuncLog:
    """Which functions of the package were executed (evidence)."""

    TOOL = 3

    def __init__(self, root):
        self.root = root
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "symx")
        except ValueError:
            return self
        m.register_callback(self.TOOL, m.events.PY_START, self._cb)
        m.set_events(self.TOOL, m.events.PY_START)
        return self

    def _cb(self, code, off):
        if code.co_filename.startswith(self.root):
            self.seen.add(code.co_filename[len(self.root):].lstrip("/") + ":" + code.co_qualname)
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        m = sys.monitoring
        try:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.PY_START, None)
            m.free_tool_id(self.TOOL)
            m.restart_events()
        except ValueError:
            pass


class Result:
    def __init__(self):
        self.status = "ok"
        self.reason = ""
        self.candidates = []  # violations to replay
        self.witnesses = []  # validated paths
        self.stats = {}
        self.notes = {}
        self.functions = []
        self.labels = {}
        self.wall = 0.0
        self.tolerance_used = {}


class Explorer:
    def __init__(self, fn, params, opts, seed=1):
        self.fn, self.params, self.opts = fn, params, dict(opts or {})
        self.n_wit = self.opts.pop("witnesses", 3)
        self.max_cand = self.opts.pop("max_candidates", 3)
        self.stop_on_violation = True
        self.seed = seed
        self.res = Result()

    def run(self):
        t0 = time.time()
        from symx import loader

        loader.install()
        e = Engine(**self.opts)
        e.pending = [[]]
        self.e = e
        rng = random.Random(self.seed)
        reservoir = []
        seen = 0
        try:
            with FuncLog(loader.REPO) as fl:
                while e.pending:
                    prefix = e.pending.pop()
                    if e.stats["paths"] + e.stats["infeasible"] >= e.max_paths:
                        raise OutOfBudget("paths > %d" % e.max_paths)
                    if time.time() - e.t0 > e.max_seconds:
                        raise OutOfBudget("time > %s s" % e.max_seconds)
                    e.reset_path(prefix)
                    core.set_engine(e)
                    h = SymH(e, self)
                    self.path_exc = None
                    try:
                        with np.errstate(all="ignore"):
                            self.fn(h, **self.params)
                    except Infeasible:
                        e.stats["infeasible"] += 1
                        if len(self.res.candidates) >= self.max_cand:
                            break
                        continue
                    except SymxSignal:
                        raise
                    except RecursionError:
                        raise Unsupported("recursion")
                    except Exception as ex:  # raised by the code under test
                        self.exception(h, ex)
                    e.stats["paths"] += 1
                    if len(self.res.candidates) >= self.max_cand:
                        break
                    # witness reservoir
                    seen += 1
                    item = (list(e.pc), list(e.lits), list(e.inputs), list(e.aux), _flat_obs(h.obs))
                    if len(reservoir) < self.n_wit * 3:
                        reservoir.append(item)
                    else:
                        k = rng.randrange(seen)
                        if k < len(reservoir):
                            reservoir[k] = item
        except SymxSignal as s:
            self.res.status = "noanswer"
            self.res.reason = "%s: %s" % (type(s).__name__, s)
            tb = traceback.extract_tb(s.__traceback__)
            for fr in reversed(tb):
                if loader.REPO in fr.filename:
                    self.res.reason += " at %s:%d" % (fr.filename, fr.lineno)
                    break
        finally:
            self.res.functions = sorted(fl.seen)
        if not self.res.candidates:
            self.make_witnesses(reservoir)
        core.set_engine(None)
        self.res.stats = dict(e.stats)
        self.res.notes = dict(e.notes)
        self.res.wall = time.time() - t0
        return self.res

    # ------------------------------------------------------------------- #
    def _inputs_of(self, m, inputs):
        out = {}
        for name, v, kind in inputs:
            val = core.model_value(m, v)
            if kind == "real":
                out[name] = float(val)
            elif kind == "bool":
                out[name] = bool(val)
            else:
                out[name] = int(val)
        return out

    def sym_check(self, h, label, cond):
        e = self.e
        L = self.res.labels.setdefault(label, dict(checked=0, discharged=0, trivial=0))
        L["checked"] += 1
        ex = cond(0)
        s = z3.simplify(ex)
        if z3.is_true(s):
            # decided by z3's simplifier
            e.stats["simplified"] = e.stats.get("simplified", 0) + 1
            L["discharged"] += 1
            L["trivial"] += 1
            return
        s0, s = s, z3.simplify(e.alg.clear(e.alg.reduce(s)))
        if z3.is_true(s):
            # an identity; have the solver confirm it where it can do so quickly
            r = e.confirm(s0)
            if r != z3.sat:
                L["discharged"] += 1
                L["trivial"] += r == z3.unknown
                return
            s = s0
        has_margin = not cond(TOL).eq(ex)
        quick = None
        if has_margin:
            quick = min(e.query_timeout, 8000)
        r, m, who = e.solve([z3.Not(s)], timeout=quick)
        if r == z3.unsat:
            L["discharged"] += 1
            e.pc.append(s)  # known from here on
            return
        if has_margin:
            rt, mt, who = e.solve([z3.Not(e.alg.clear(cond(TOL)))])
            if rt == z3.unsat:
                L["discharged"] += 1
                self.res.tolerance_used[label] = self.res.tolerance_used.get(label, 0) + 1
                return
            if rt == z3.unknown:
                e._debug("check " + label, s)
                raise UnknownResult("check %s" % label)
            r, m = rt, mt
        if r == z3.unknown:
            raise UnknownResult("check %s" % label)
        self.candidate(h, label, [z3.Not(s)] if not has_margin else [z3.Not(cond(TOL))], m,
                       z3.Not(cond(1e-2)) if has_margin else None)
        # the check failed: this path is done
        raise Infeasible()

    def nice(self, inputs):
        out = []
        for name, v, kind in inputs:
            if kind == "real":
                out.append(z3.And(v <= 50, v >= -50))
        return out

    def candidate(self, h, label, viol, m, strong):
        e = self.e
        models = []
        nice = self.nice(e.inputs)
        tries = []
        if strong is not None:
            tries += [[strong] + nice, [strong]]
        tries += [viol + nice]
        for t in tries:
            r, mm, _ = e.solve(t, timeout=5000)
            if r == z3.sat and mm is not None:
                models.append(mm)
        if m is not None:
            models.append(m)
        ins = []
        for mm in models:
            try:
                d = self._inputs_of(mm, e.inputs)
            except (Unsupported, OverflowError):
                continue
            if d not in ins:
                ins.append(d)
        ins += self.refine(viol, models[:1], e)
        if not ins:
            raise UnknownResult("no model for %s" % label)
        self.res.candidates.append(dict(label=label, inputs=ins, kind="check"))

    def refine(self, viol, models, e):
        """Further models, with transcendental values pulled towards the true
        ones (tangents are sound facts about exp)."""
        out = []
        if not e.exp_rel or not models:
            return out
        extra = []
        m = models[0]
        nice = self.nice(e.inputs)
        import math

        for _ in range(5):
            try:
                for t, ex in e.exp_rel:
                    t0 = float(core.model_value(m, t))
                    if abs(t0) > 30:
                        continue
                    v = math.exp(t0)
                    lo, hi = t0 - 0.3, t0 + 0.3
                    vl, vh = math.exp(lo), math.exp(hi)
                    extra.append(ex >= core.rv(v * (1 - 1e-12)) * (1 + t - core.rv(t0)))
                    sec = (vh - vl) / 0.6
                    extra.append(z3.Implies(z3.And(t >= core.rv(lo), t <= core.rv(hi)),
                                            ex <= core.rv(vl * (1 + 1e-12)) + core.rv(sec) * (t - core.rv(lo))))
            except (Unsupported, OverflowError):
                break
            r, mm, _ = e.solve(viol + nice + extra, timeout=5000)
            if r != z3.sat or mm is None:
                r, mm, _ = e.solve(viol + extra, timeout=5000)
            if r != z3.sat or mm is None:
                break
            m = mm
            try:
                out.append(self._inputs_of(m, e.inputs))
            except (Unsupported, OverflowError):
                break
        return out

    def exception(self, h, ex):
        """The code under test raised on this path."""
        e = self.e
        r, m, _ = e.solve([])
        if r == z3.unsat:
            e.stats["infeasible"] += 1
            raise_infeasible = True
            return
        from symx import loader

        tb = traceback.extract_tb(ex.__traceback__)
        if isinstance(ex, (AttributeError, TypeError, NameError, ImportError)) and not any(
                fr.filename.startswith(loader.REPO) for fr in tb):
            raise Unsupported("harness error: %r at %s:%d" % (ex, tb[-1].filename, tb[-1].lineno))
        where = ""
        for fr in reversed(tb):
            where = "%s:%d" % (os.path.basename(fr.filename), fr.lineno)
            break
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exception(ex)
        if r == z3.unknown:
            raise UnknownResult("exception path %r" % ex)
        L = self.res.labels.setdefault("no exception", dict(checked=0, discharged=0, trivial=0))
        L["checked"] += 1
        self.candidate(h, "raised %s: %s (%s)" % (type(ex).__name__, str(ex)[:100], where), [], m, None)

    def guess(self, pc, lits, inputs, aux, rng):
        """a model of the conditions on the inputs alone that, evaluated with
        the true functions, also meets the others"""
        names = {v.decl().name() for _, v, _ in inputs}
        plain = [c for c in pc if core.free_names(c) <= names]
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(plain)
        for _ in range(20):
            s.push()
            for n, v, k in inputs:
                if k == "real":
                    c = core.rv(round(rng.uniform(-2, 2), 3))
                    s.push()
                    s.add(v >= c if rng.random() < 0.5 else v <= c)
                    with core.watched(2000):
                        if s.check() != z3.sat:
                            s.pop()
            with core.watched(2000):
                r = s.check()
            m = s.model() if r == z3.sat else None
            s.reset()
            s.add(plain)
            if m is None:
                continue
            try:
                ins = self._inputs_of(m, inputs)
                ev = core.Evaluator({v.decl().name(): ins[n] for n, v, k in inputs}, aux)
                if all(ev.ev(c) for c in lits):
                    return m
            except Exception:
                continue
        return None

    def make_witnesses(self, reservoir):
        e = self.e
        rng = random.Random(self.seed)
        rng.shuffle(reservoir)
        self.res.reachable = False
        for pc, lits, inputs, aux, obs in reservoir:
            if len(self.res.witnesses) >= self.n_wit:
                break
            nice = [z3.And(v <= 50, v >= -50) for n, v, k in inputs if k == "real"]
            spread = []
            for n, v, k in inputs:
                if k == "real":
                    c = core.rv(round(rng.uniform(-5, 5), 2))
                    spread.append(v >= c)
            m = None
            for extra in (nice + spread, nice, []):
                r, m, _ = core.solve_portfolio(pc + extra, 4000) if True else None
                if r == z3.sat:
                    break
            if r != z3.sat or m is None:
                m = self.guess(pc, lits, inputs, aux, rng)
            if m is None:
                continue
            self.res.reachable = True
            try:
                ins = self._inputs_of(m, inputs)
            except (Unsupported, OverflowError):
                continue
            env = {}
            for n, v, k in inputs:
                env[v.decl().name()] = ins[n]
            ev = core.Evaluator(env, aux)
            ok = True
            for c in lits:
                try:
                    if not ev.ev(c):
                        ok = False
                        break
                except Exception:
                    ok = False
                    break
            expect = []
            if ok:
                for name, x in obs:
                    try:
                        if isinstance(x, Sym):
                            val = ev.ev(x.t)
                        else:
                            val = x
                        if isinstance(val, (bool, np.bool_)):
                            val = bool(val)
                        elif isinstance(val, (int, np.integer)):
                            val = int(val)
                        elif isinstance(val, (float, np.floating)):
                            val = float(val)
                        else:
                            val = str(val)
                        expect.append((name, val))
                    except Exception:
                        expect.append((name, None))
            self.res.witnesses.append(dict(inputs=ins, expect=expect, exact=ok, tie=ev.tie))
