"""Exploration of one contract driver: all paths, all obligations."""
from __future__ import annotations

import time
from time import perf_counter
import traceback

import z3

from . import values as V
from .ctx import AssumeFailed, Budget, CheckFailed, ConcCtx, Restart, SymCtx
from .values import EngineSignal, PathEnd, ProgExc, SBool, SEnum, Unsupported, force, set_cur


class Ob:
    def __init__(self, label, inv=False):
        self.label, self.inv = label, inv
        self.count = self.trivial = self.by_z3 = self.by_cvc5 = 0
        self.refuted = []
        self.unknown = 0
        self.solver_s = 0.0

    @property
    def discharged(self):
        return self.trivial + self.by_z3 + self.by_cvc5


def cvc5_unsat(pc, neg, timeout_ms=10000):
    """Second back end: True when cvc5 proves pc and neg unsatisfiable."""
    try:
        import cvc5
    except ImportError:
        return False
    try:
        s = z3.Solver()
        s.add(*pc)
        s.add(neg)
        txt = s.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(timeout_ms))
        slv.setOption("strings-exp", "true")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "vc")
        sm = p.getSymbolManager()
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            r = cmd.invoke(slv, sm)
            r = str(r).strip()
            if r == "unsat":
                return True
            if r in ("sat", "unknown"):
                return False
    except Exception:
        return False
    return False


class Session:
    def __init__(self, driver, opts=None):
        opts = opts or {}
        self.driver = driver
        self.max_paths = opts.get("max_paths", 6000)
        self.max_steps = opts.get("max_steps", 60000)
        self.time_limit = opts.get("time_limit", 240)
        self.feas_timeout = opts.get("feas_timeout", 4000)
        self.ob_timeout = opts.get("ob_timeout", 20000)
        self.abstract = opts.get("abstract", False)
        if self.abstract:
            from .abstract import Abstraction

            self.abstraction = Abstraction()
        self.log_mode = opts.get("log", "off")  # off | on | both
        self.second = opts.get("second", False)
        self.texts = opts.get("texts", False)  # interpret __str__ and __repr__ of the code's objects within f-strings
        self.max_models = opts.get("max_models", 400)
        self.functions = set()
        self.contracts = {}
        self.cut_loops = set()
        self.loops = {}
        self.ufs = {}
        from .interp import Interp

        self.interp = Interp(self)
        self.restarts = 0
        self.solver_s = 0.0
        self.queries = 0
        self.unknown_feas = 0
        self.t0 = perf_counter()
        self.reset()

    def reset(self):
        self.obs = {}
        self.work = []
        self.paths = 0
        self.complete = 0
        self.covers = set()
        self.unsupported = {}
        self.unsup_paths = 0
        self.path_models = []

    # hooks used by the context
    def push(self, prefix):
        self.work.append(list(prefix))

    def tick(self, c):
        if perf_counter() - self.t0 > self.time_limit:
            raise Budget("time limit")

    def step(self, c):
        c.steps += 1
        if c.steps > self.max_steps:
            raise Unsupported("step budget of one path exhausted")

    def log_enabled(self, c):
        if self.log_mode == "off":
            return False
        if self.log_mode == "on":
            return True
        if "log" not in c.notes:
            c.notes["log"] = c.choose_index("log_enabled", 2) == 0
        return c.notes["log"]

    def obligation(self, c, label, cond, detail="", inv=False):
        ob = self.obs.setdefault(label, Ob(label, inv))
        ob.count += 1
        cond = force(cond)
        if not isinstance(cond, (bool, SBool)):
            raise Unsupported(f"obligation {label} is not boolean")
        t = perf_counter()
        try:
            if cond is True:
                ob.trivial += 1
                return
            neg = z3.BoolVal(True) if cond is False else z3.Not(cond.e)
            s = c.solver
            if c.asolver is not None and c.asolver.unsat(neg):
                self.queries += 1
                ob.by_z3 += 1
                return
            if c.asolver is not None and len(ob.refuted) + ob.unknown >= 3:
                ob.unknown += 1  # enough evidence that this one is not provable
                return
            s.set("timeout", min(self.ob_timeout, 6000) if c.asolver is not None else self.ob_timeout)
            s.push()
            s.add(neg)
            r = s.check()
            self.queries += 1
            model = None
            if r == z3.sat:
                model = s.model()
            s.pop()
            s.set("timeout", self.feas_timeout)
            if r == z3.unsat:
                ob.by_z3 += 1
                if self.second:
                    pass
                return
            if r == z3.unknown:
                if cvc5_unsat(c.pc, neg):
                    ob.by_cvc5 += 1
                    return
                ob.unknown += 1
                return
            wit = witness(c, model)
            if len(ob.refuted) < 8:
                ob.refuted.append({"witness": wit, "cut": c.cut, "detail": str(detail() if callable(detail) else detail)[:2000],
                                   "decisions": list(c.decisions), "trace": [repr(x) for x in c.trace][-30:]})
            else:
                ob.refuted.append(None)
        finally:
            dt = perf_counter() - t
            ob.solver_s += dt
            self.solver_s += dt

    def run(self):
        while True:
            self.reset()
            try:
                self._explore()
                break
            except Restart:
                self.restarts += 1
                if self.restarts > 60:
                    self.unsupported["loop inference does not stabilise"] = 1
                    break
            except Budget as b:
                self.unsupported[str(b)] = 1
                break
        self.wall = perf_counter() - self.t0
        return self

    def _explore(self):
        self.work = [[]]
        while self.work:
            if self.paths >= self.max_paths:
                raise Budget("path budget")
            prefix = self.work.pop()
            c = SymCtx(self, prefix)
            set_cur(c)
            self.paths += 1
            try:
                self.driver(c)
                self.complete += 1
                self.model_of(c)
            except (Restart, Budget):
                raise
            except PathEnd:
                pass
            except Unsupported as u:
                self.unsup(str(u))
            except ProgExc as p:
                self.unsup(f"driver: {type(p.exc).__name__}: {p.exc!r}"[:300])
            except EngineSignal as e:
                self.unsup(f"signal {type(e).__name__}")
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:  # noqa: BLE001 - engine limitation, not a verdict
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.unsup(f"engine: {type(e).__name__}: {str(e)[:200]} at {tb.filename.split('/')[-1]}:{tb.lineno}")
            finally:
                c.unpatch()
                set_cur(None)
            self.covers |= c.covers

    def model_of(self, c):
        """A concrete input following this path, for the CPython cross-check."""
        if c.cut or self.abstract or len(self.path_models) >= self.max_models:
            return
        if c.solver.check() == z3.sat:
            self.path_models.append(witness(c, c.solver.model()))

    def unsup(self, why):
        self.unsup_paths += 1
        self.unsupported[why] = self.unsupported.get(why, 0) + 1


def witness(c, model):
    w = {}
    for name, occ, kind, e in c.draws:
        key = f"{name}#{occ}"
        try:
            w[key] = e if kind == "choice" else pyval(model, kind, e)
        except Exception:
            pass
    return w


def pyval(model, kind, e):
    v = model.eval(e, model_completion=True)
    if kind == "int":
        return v.as_long()
    if kind == "real":
        if z3.is_algebraic_value(v):
            v = v.approx(12)
        return float(v.as_fraction())
    if kind == "bool":
        return z3.is_true(v)
    if kind == "str":
        return V.pystr(v)
    if kind == "bytes":
        n = model.eval(z3.Length(e), model_completion=True).as_long()
        return bytes(model.eval(e[i], model_completion=True).as_long() for i in range(min(n, 4096)))
    if isinstance(kind, tuple) and kind[0] == "enum":
        i = v.as_long()
        for m in kind[1]:
            if SEnum.key(m) == i:
                return m
    raise ValueError(kind)
