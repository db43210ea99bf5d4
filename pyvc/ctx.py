"""The two contexts a contract driver runs in: symbolic (proof) and concrete (replay, search).

A driver is one Python function ``driver(c)``.  It builds arbitrary inputs from ``c``, states preconditions with
``c.assume``, runs the real function with ``c.call`` and states postconditions with ``c.check``.  In symbolic mode the
inputs are solver terms, ``c.call`` symbolically executes the function's current source and every ``c.check`` on every
path is a proof obligation.  In concrete mode the same driver runs the real function under CPython.
"""
from __future__ import annotations

import asyncio
import inspect
import random
import time
from datetime import datetime, timedelta
from time import monotonic as MONOTONIC
from time import perf_counter

import z3

from . import times
from . import values as V
from .abstract import AbstractSolver
from .values import (
    SBool, SBytes, SDict, SEnum, SFloat, SInt, SMap, SSeq, SStr, SUnion, SVal,
    EngineSignal, PathEnd, ProgExc, Unsupported, force, mkbool, s_and, s_ite, s_not, s_or, s_implies, zi, zr,
)


class Restart(EngineSignal):
    """Loop information changed: explore the driver again."""


class Budget(EngineSignal):
    """Path, step or time budget exhausted."""


class CheckFailed(BaseException):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


class AssumeFailed(BaseException):
    pass


class NoValue(Exception):
    """The contract uses the value of a call which raised (args[0])."""


class Outcome:
    """How a call ended."""

    __slots__ = ("_value", "exc")

    def __init__(self, value=None, exc=None):
        self._value, self.exc = value, exc

    @property
    def value(self):
        if self.exc is not None:
            raise NoValue(self.exc)
        return self._value

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *classes):
        return self.exc is not None and isinstance(self.exc, classes)

    def exactly(self, *classes):
        return self.exc is not None and type(self.exc) in classes

    def __repr__(self):
        return f"returned {self.value!r}" if self.ok else f"raised {type(self.exc).__name__}({', '.join(map(repr, self.exc.args))})"


def deep_eq(a, b):
    """Structural equality as one (possibly symbolic) boolean, no forking on leaves."""
    a, b = force(a), force(b)
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a.keys()), list(b.keys())
        if any(isinstance(k, SVal) for k in ka + kb):
            if len(ka) != len(kb):
                return False
            return s_and(*[s_and(deep_eq(x, y), deep_eq(a[x], b[y])) for x, y in zip(ka, kb)])
        if set(ka) != set(kb):
            return False
        return s_and(*[deep_eq(a[k], b[k]) for k in ka])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
            return False
        return s_and(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, SVal) or isinstance(b, SVal):
        r = a == b
        return False if r is NotImplemented else r
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


class CtxBase:
    symbolic = False

    and_ = staticmethod(s_and)
    or_ = staticmethod(s_or)
    not_ = staticmethod(s_not)
    implies = staticmethod(s_implies)
    ite = staticmethod(s_ite)
    same = staticmethod(deep_eq)
    force = staticmethod(force)

    def __init__(self):
        self.trace = []
        self.ghosts = {}
        self._patches = []
        self.covers = set()
        self.notes = {}

    # -- patches -----------------------------------------------------------------
    def patch(self, obj, name, value):
        """Replace obj.name for this run (real module, class or object), in both modes."""
        missing = object()
        if isinstance(obj, dict):
            old = obj.get(name, missing)
            obj[name] = value
            self._patches.append((obj, name, old, missing))
            return
        old = obj.__dict__.get(name, missing) if hasattr(obj, "__dict__") else getattr(obj, name)
        if old is missing and not hasattr(obj, name):
            raise Unsupported(f"patch target {obj!r}.{name} does not exist")
        setattr(obj, name, value)
        self._patches.append((obj, name, old, missing))

    def unpatch(self):
        while self._patches:
            obj, name, old, missing = self._patches.pop()
            if isinstance(obj, dict):
                if old is missing:
                    del obj[name]
                else:
                    obj[name] = old
            elif old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

    # -- ghosts ------------------------------------------------------------------
    def ghost(self, name, value=0):
        self.ghosts[name] = value

    def bump(self, name, by=1):
        self.ghosts[name] = self.ghosts[name] + by

    def event(self, *ev):
        self.trace.append(ev)

    # -- derived inputs -------------------------------------------------------------
    def pick(self, name, options):
        options = list(options)
        return options[self.choose_index(name, len(options))]

    def maybe(self, name):
        return self.choose_index(name, 2) == 0

    def num(self, name, lo=None, hi=None):
        return self.int(name, lo, hi) if self.maybe(name + ".isint") else self.real(name, lo, hi)

    def tidy(self, v):
        return v

    def union(self, name, **alts):
        """One of several kinds of value, decided up front."""
        k = self.pick(name + ".kind", list(alts))
        v = alts[k]
        return v() if callable(v) else v

    def eq(self, a, b):
        return deep_eq(a, b)

    def moment(self, name, tz=None, lo=0, hi=4_000_000_000):
        """A whole second of the wall clock in the time zone."""
        n = self.int(name, lo, hi)
        if isinstance(n, SVal):
            return times.SDatetime.of(n.e * 1_000_000, tz, known=True)
        return (times.EPOCH + timedelta(seconds=n)).replace(tzinfo=tz)

    def date(self, name, tz=None):
        """(a date and time of the calendar, its fields)"""
        ps = {f: self.int(f"{name} {f}", lo, hi) for f, lo, hi in (("year", 1971, 2400), ("month", 1, 12), ("day", 1, 31), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 59))}
        if isinstance(ps["year"], SVal):
            self.add(times.valid(*ps.values()))
            return times.SDatetime.of(times.civil(*ps.values()), tz, {**ps, "microsecond": 0}, known=True), ps
        try:
            return datetime(*ps.values(), tzinfo=tz), ps
        except ValueError:
            ps["day"] = 28
            return datetime(*ps.values(), tzinfo=tz), ps

    def obj(self, cls, **attrs):
        """A bare instance of (a concrete subclass of) a real class with the given attributes."""
        if inspect.isabstract(cls):
            cls = type(cls.__name__, (cls,), {"__abstractmethods__": frozenset(), "__module__": cls.__module__})
            cls.__abstractmethods__ = frozenset()
        o = object.__new__(cls)
        for k, v in attrs.items():
            object.__setattr__(o, k, v)
        return o


class SymCtx(CtxBase):
    symbolic = True

    def __init__(self, session, prefix):
        super().__init__()
        self.S = session
        self.prefix = prefix
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set("timeout", session.feas_timeout)
        self.asolver = AbstractSolver(session.abstraction, 2000) if session.abstract else None
        self.pc = []
        self.counts = {}
        self.draws = []
        self.cut = False  # path went through a havocked loop head
        self.steps = 0
        self.ndec = 0
        self.ufs = session.ufs
        self.writes = []
        self.user_invs = {}
        self.cand_invs = []
        self.sums = {}  # what the sums over symbolic sequences add up
        self.labels = []

    # -- solver --------------------------------------------------------------------
    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)
        if self.asolver is not None:
            self.asolver.add(e)

    def once(self, key, keep=None):
        """True the first time on this path (to add a definition once)."""
        d = self.notes.setdefault("once", {})
        if key in d:
            return False
        d[key] = keep
        return True

    def axiom(self, e):
        self.add(e)

    def _feasible(self, e):
        t = perf_counter()
        if self.asolver is not None:
            u = self.asolver.unsat(e)
            self.S.solver_s += perf_counter() - t
            self.S.queries += 1
            return not u
        r = self.solver.check(e)
        dt = perf_counter() - t
        self.S.solver_s += dt
        self.S.queries += 1
        if r == z3.unknown:
            self.S.unknown_feas += 1
            return True
        return r == z3.sat

    def decide(self, conds, what=""):
        """Fork over z3 conditions (None: no condition); returns the index taken."""
        pos = len(self.decisions)
        if pos < len(self.prefix):
            i = self.prefix[pos]
            self.decisions.append(i)
            if conds[i] is not None:
                self.add(conds[i])
            return i
        self.S.tick(self)
        feas = []
        for i, cnd in enumerate(conds):
            if cnd is None:
                feas.append(i)
            elif i == len(conds) - 1 and not feas and len(conds) == 2:
                feas.append(i)  # the other side is infeasible, so this one is the whole path
            elif self._feasible(cnd):
                feas.append(i)
        if not feas:
            raise PathEnd()
        for i in reversed(feas[1:]):
            self.S.push(self.decisions + [i])
        i = feas[0]
        self.decisions.append(i)
        self.ndec += len(feas) > 1
        if conds[i] is not None:
            self.add(conds[i])
        return i

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.decide([e, z3.Not(e)], "branch") == 0

    def choose_index(self, name, n):
        occ = self._occ(name)
        if n == 1:
            return 0
        i = self.decide([None] * n, name)
        self.draws.append((name, occ, "choice", i))
        return i

    def _occ(self, name):
        k = self.counts.get(name, 0)
        self.counts[name] = k + 1
        return k

    def fresh_int(self, name):
        k = self._occ("!" + name)
        return z3.Int(f"{name}!{k}")

    def uf(self, name, *sorts):
        if name not in self.ufs:
            self.ufs[name] = z3.Function(name, *sorts)
        return self.ufs[name]

    # -- inputs ----------------------------------------------------------------------
    def _var(self, name, kind, mk):
        occ = self._occ(name)
        e = mk(f"{name}#{occ}" if occ else name)
        self.draws.append((name, occ, kind, e))
        return e

    def int(self, name, lo=None, hi=None, pool=()):
        e = self._var(name, "int", z3.Int)
        if lo is not None:
            self.add(e >= zi(lo))
        if hi is not None:
            self.add(e <= zi(hi))
        return SInt(e)

    def real(self, name, lo=None, hi=None, pool=()):
        e = self._var(name, "real", z3.Real)
        if lo is not None:
            self.add(e >= zr(lo))
        if hi is not None:
            self.add(e <= zr(hi))
        return SFloat(e)

    def bool(self, name):
        return SBool(self._var(name, "bool", z3.Bool))

    def str(self, name, pool=(), nonempty=False):
        e = self._var(name, "str", z3.String)
        if nonempty:
            self.add(z3.Length(e) > 0)
        return SStr(e)

    def bytes(self, name, n=None, lo=0, hi=None):
        e = self._var(name, "bytes", lambda nm: z3.Const(nm, V.BYTES))
        if n is not None:
            self.add(z3.Length(e) == zi(n))
            if isinstance(n, int):
                V.set_len(e, n)
        else:
            if lo:
                self.add(z3.Length(e) >= lo)
            if hi is not None:
                self.add(z3.Length(e) <= hi)
        return SBytes(e)

    def enum(self, name, cls, members=None):
        e = self._var(name, "enum:" + cls.__name__, z3.Int)
        ms = list(members) if members is not None else list(cls)
        self.add(z3.Or(*[e == SEnum.key(m) for m in ms]))
        self.draws[-1] = (*self.draws[-1][:2], ("enum", cls), e)
        return SEnum(cls, e)

    def seq(self, name, elem, lo=0, hi=None, typ=list):
        """A list of unknown length with elem(k) elements."""
        n = self.int(name + ".len", lo, hi)
        return SSeq(name, n, elem, typ)

    def lazy(self, name, **alts):
        return SUnion(name, alts)

    def opendict(self, name, known=(), maybe=None, factory=None):
        return SDict(name, known, factory, maybe)

    def maxpath(self):
        return None

    def hint(self, name, fn):
        """A specification term fn(k) over the iteration number that loop variables and yields may equal."""
        self.notes.setdefault("hints", {})[name] = fn

    def byte_at(self, j):
        """Use the element-wise definitions of byte strings built from generators at index j."""
        for e, seq in self.notes.get("byte_defs", ()):
            v = zi(seq.at(j))
            self.add(z3.Implies(z3.And(zi(j) >= 0, zi(j) < zi(seq.n)), z3.BV2Int(e[zi(j)]) == v))

    # -- contracts --------------------------------------------------------------------
    def assume(self, cond):
        cond = force(cond)
        if isinstance(cond, SBool):
            self.add(cond.e)
            if not self._feasible(z3.BoolVal(True)):
                raise PathEnd()
        elif not cond:
            raise PathEnd()

    def check(self, label, cond, detail=""):
        cond = force(cond)
        if cond is NotImplemented:
            raise Unsupported(f"check {label}: incomparable")
        if not isinstance(cond, (bool, SBool)):
            cond = bool(cond)
        self.S.obligation(self, label, cond, detail)
        if isinstance(cond, SBool):
            self.add(cond.e)
            if not self._feasible(z3.BoolVal(True)):
                raise PathEnd()
        elif not cond:
            raise PathEnd()

    def cover(self, label):
        self.covers.add(label)

    def proves(self, cond):
        """True when the current path condition entails cond (no forking)."""
        if not isinstance(cond, SBool):
            return bool(cond)
        return not self._feasible(z3.Not(cond.e))

    def invariant(self, where, fn):
        """User loop invariant: fn(L) -> cond; where is a substring of 'module:qualname'."""
        self.user_invs.setdefault(where, []).append(fn)

    def try_invariant(self, where, name, fn):
        """A candidate loop invariant fn(L): used where it holds initially and is preserved, else dropped."""
        self.cand_invs.append((where, name, fn))

    def sum_of(self, v):
        """What the sum v over a sequence of unknown length adds up, by place."""
        p = self.sums.get(str(getattr(v, "e", None)))
        if p is None:
            raise Unsupported("a value that is no sum over a symbolic sequence")

        def part(k):
            ok, v = p(k)
            return force(v) if ok else 0.0

        return part

    def entries(self, d):
        """The (key, value) pairs of a dict, in order."""
        return d.entries if isinstance(d, SMap) else list(d.items())

    def call(self, fn, *args, **kw):
        it = self.S.interp
        try:
            v = it.call(fn, args, kw)
            v = it.await_if_needed(v)
            return Outcome(value=force(v))
        except ProgExc as p:
            return Outcome(exc=p.exc)

    def get(self, o, name):
        try:
            return Outcome(value=force(self.S.interp.getattr(o, name)))
        except ProgExc as p:
            return Outcome(exc=p.exc)

    def set(self, o, name, v):
        try:
            self.S.interp.setattr(o, name, v)
            return Outcome()
        except ProgExc as p:
            return Outcome(exc=p.exc)

    def eq(self, a, b):
        return deep_eq(a, b)


class ConcCtx(CtxBase):
    """Concrete mode: values come from a witness (replay) or from a seeded generator (search)."""

    def __init__(self, rng=None, witness=None, pool=None, maxpaths=None):
        super().__init__()
        self.rng = rng or random.Random(0)
        self.witness = witness or {}
        self.pool = pool or {"int": [], "str": [], "float": []}
        self.counts = {}
        self.drawn = []
        self.checked = {}
        self.failed = None

    def _draw(self, name, gen):
        occ = self.counts.get(name, 0)
        self.counts[name] = occ + 1
        key = f"{name}#{occ}"
        v = self.witness[key] if key in self.witness else gen()
        self.drawn.append((key, v))
        return v

    def choose_index(self, name, n):
        v = self._draw(name, lambda: self.rng.randrange(n))
        return v if isinstance(v, int) and 0 <= v < n else 0

    def int(self, name, lo=None, hi=None, pool=()):
        def gen():
            r = self.rng
            x = r.random()
            cands = [p for p in list(pool or ()) + self.pool["int"] if (lo is None or p >= lo) and (hi is None or p <= hi)]
            if cands and x < 0.45:
                return r.choice(cands)
            if x < 0.6 and lo is not None:
                v = lo + r.randrange(3)
            elif x < 0.75 and hi is not None:
                v = hi - r.randrange(3)
            elif x < 0.85:
                v = r.choice([0, 1, -1, 2, 3, 5, 10, 100, 255, 256, 1000, 65535])
            elif lo is not None and hi is not None:
                v = r.randint(lo, hi)
            else:
                v = r.randint(-(10 ** r.randrange(1, 7)), 10 ** r.randrange(1, 7))
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
            return v

        return self._draw(name, gen)

    def real(self, name, lo=None, hi=None, pool=()):
        def gen():
            r = self.rng
            x = r.random()
            cands = [p for p in list(pool or ()) + self.pool["float"] if (lo is None or p >= lo) and (hi is None or p <= hi)]
            if cands and x < 0.3:
                v = r.choice(cands)
            elif x < 0.6:
                v = self.__class__.int(self, name + ".i", lo, hi) + r.choice([0.0, 0.5, 0.25, 0.001])
            else:
                v = r.uniform(lo if lo is not None else -1e4, hi if hi is not None else 1e4)
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
            return float(v)

        return self._draw(name, gen)

    def bool(self, name):
        return self._draw(name, lambda: self.rng.random() < 0.5)

    def str(self, name, pool=(), nonempty=False):
        def gen():
            r = self.rng
            p = list(pool)
            if p and r.random() < 0.5:
                return r.choice(p)
            if self.pool["str"] and r.random() < 0.5:
                return r.choice(self.pool["str"])
            return "".join(r.choice("abcXYZ019 _-:.#/é\u4e2d") for _ in range(r.randrange(1 if nonempty else 0, 9)))

        v = self._draw(name, gen)
        return v or "x" if nonempty else v

    def bytes(self, name, n=None, lo=0, hi=None):
        def gen():
            r = self.rng
            k = n if n is not None else r.choice([lo, lo + 1, r.randint(lo, hi if hi is not None else lo + 40)])
            if hi is not None:
                k = min(k, hi)
            return bytes(r.randrange(256) for _ in range(k))

        return self._draw(name, gen)

    def enum(self, name, cls, members=None):
        ms = list(members) if members is not None else list(cls)
        v = self._draw(name, lambda: self.rng.choice(ms))
        return v if isinstance(v, cls) else ms[0]

    def seq(self, name, elem, lo=0, hi=None, typ=list):
        n = self.int(name + ".len", lo, min(hi, 6) if hi is not None else lo + 5)
        n = max(0, min(n, 60))
        return typ([elem(k) for k in range(n)])

    def lazy(self, name, **alts):
        k = self.pick(name + ".kind", list(alts))
        return alts[k]()

    def opendict(self, name, known=(), maybe=None, factory=None):
        d = dict(known)
        for k, mk in (maybe or {}).items():
            if self.choose_index(f"{name}.has[{k}]", 2) == 0:
                d[k] = mk()
        if factory is not None:
            for i in range(self.rng.randrange(3) if not self.witness else 0):
                d.setdefault(f"extra_{i}", factory(f"extra_{i}"))
        return d

    stopped = None  # a failed assumption or check; the code under test cannot swallow it

    def stop(self, how):
        self.stopped = self.stopped or how
        raise self.stopped

    def assume(self, cond):
        if self.stopped or not cond:
            self.stop(AssumeFailed())

    def check(self, label, cond, detail=""):
        self.checked[label] = self.checked.get(label, 0) + 1
        if self.stopped or not cond:
            self.stop(CheckFailed(label, detail() if callable(detail) else detail))

    def cover(self, label):
        self.covers.add(label)

    def invariant(self, where, fn):
        pass

    def hint(self, name, fn):
        pass

    def try_invariant(self, where, name, fn):
        pass

    def entries(self, d):
        return list(d.items())

    def byte_at(self, j):
        pass

    last = None  # how the last call failed

    def call(self, fn, *args, **kw):
        o = self._call(fn, *args, **kw)
        self.last = o.exc
        return o

    def _call(self, fn, *args, **kw):
        try:
            v = fn(*args, **kw)
            if inspect.isawaitable(v):
                v = self.run(v)
            if self.stopped:
                raise self.stopped
            return Outcome(value=v)
        except (CheckFailed, AssumeFailed):
            raise
        except EngineSignal:
            raise
        except BaseException as e:  # noqa: BLE001 - outcomes include CancelledError and the like
            if isinstance(e, KeyboardInterrupt):
                raise
            if self.stopped:
                raise self.stopped
            return Outcome(exc=e)

    def run(self, aw):
        async def main():
            try:
                return await aw, None
            except KeyboardInterrupt:
                raise
            except BaseException as e:  # noqa: BLE001
                return None, e

        loop = asyncio.new_event_loop()
        loop.time = MONOTONIC  # contracts may patch the clock
        try:
            asyncio.set_event_loop(loop)
            v, e = loop.run_until_complete(asyncio.wait_for(main(), 20))
            if e is not None:
                raise e
            return v
        finally:
            try:
                loop.close()
            finally:
                asyncio.set_event_loop(None)

    def get(self, o, name):
        return self.call(lambda: getattr(o, name))

    def set(self, o, name, v):
        return self.call(lambda: setattr(o, name, v))
