"""Symbolic interpreter of the real Python source: one path at a time, forking through the context."""
from __future__ import annotations

import ast
import asyncio
import builtins
import contextlib
import dataclasses
import datetime
from pathlib import Path
import enum
import functools
import inspect
import logging
import operator
import os
import struct
import sys
import types

import z3

from . import times
from . import values as V
from .ctx import Restart
from .values import (
    ABSENT, EngineSignal, PathEnd, Poison, ProgExc, SBool, SBytes, SDict, SEnum, SFloat, SInt, SMap, SRange, SSeq, SStr,
    SUnion, SVal, Unsupported, cur, force, has_sym, mkbool, mkint, s_and, s_not, s_or, zi, zr, zs,
)

REPO = os.environ.get("PYVC_REPO", "/repo")


VERIF = str(Path(__file__).resolve().parent.parent) + "/"


class _Ret(EngineSignal):
    def __init__(self, v):
        self.v = v


class _Brk(EngineSignal):
    pass


class _Cont(EngineSignal):
    pass


def under_repo(filename):
    return filename.startswith(REPO + "/kasa/")


def is_kasa(fn):
    """Is its source interpreted?  All of kasa, the decorators of its command line library, and what a contract marks."""
    return isinstance(fn, types.FunctionType) and (under_repo(fn.__code__.co_filename) or fn.__code__.co_filename.endswith("/asyncclick/decorators.py") or fn.__dict__.get("_pyvc_interpreted", False))


_FILES: dict[str, dict] = {}


def file_index(fname):
    """Map (lineno, name) -> function/lambda nodes of a source file."""
    if fname not in _FILES:
        src = open(fname, encoding="utf-8").read()
        tree = ast.parse(src, fname)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx.setdefault((line, n.name), []).append(n)
            elif isinstance(n, ast.Lambda):
                idx.setdefault((n.lineno, "<lambda>"), []).append(n)
        _FILES[fname] = {"tree": tree, "idx": idx, "src": src}
    return _FILES[fname]


def _compiles_to(n, code):
    """Is this lambda's own code the given one?"""
    own = compile(ast.fix_missing_locations(ast.Expression(ast.parse(ast.unparse(n), mode="eval").body)), "lambda", "eval").co_consts
    own = next((k for k in own if isinstance(k, types.CodeType)), None)
    return own is not None and (own.co_code, own.co_names, own.co_varnames, [k for k in own.co_consts if not isinstance(k, types.CodeType)]) == (
        code.co_code, code.co_names, code.co_varnames, [k for k in code.co_consts if not isinstance(k, types.CodeType)])


def node_of(fn):
    try:
        return _node_of(fn)
    except Unsupported:
        raise
    except Exception as e:  # noqa: BLE001
        raise Unsupported(f"no source for {fn!r}: {e}") from None


def _node_of(fn):
    code = fn.__code__
    idx = file_index(code.co_filename)["idx"]
    c = idx.get((code.co_firstlineno, code.co_name), [])
    if len(c) > 1 and code.co_name == "<lambda>":
        same = [n for n in c if _compiles_to(n, code)]
        if same and len({ast.unparse(n) for n in same}) == 1:
            return same[0]
        pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None]
        lo = min((p[0], p[2]) for p in pos if p[1] is not None and p[2:] != (0, 0)) if pos else None
        best = [n for n in c if (n.body.lineno, n.body.col_offset) <= lo]
        best = [n for n in best if all((n.body.end_lineno, n.body.end_col_offset) >= (p[1], p[3]) for p in pos if p[2:] != (0, 0))]
        best.sort(key=lambda n: (n.body.end_lineno, n.body.end_col_offset))
        if best:
            return best[0]
        raise Unsupported(f"ambiguous lambda at {code.co_filename}:{code.co_firstlineno}")
    if not c:
        raise Unsupported(f"no source for {fn!r}")
    return c[0]


_LOCALS: dict[int, tuple] = {}


def scope_info(node):
    """(names bound in this scope, global decls, nonlocal decls, is generator)."""
    r = _LOCALS.get(id(node))
    if r:
        return r[1:]
    names, globs, nonl = set(), set(), set()
    gen = False

    def targets_of_pattern(p):
        for x in ast.walk(p):
            if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                names.add(x.name)
            if isinstance(x, ast.MatchMapping) and x.rest:
                names.add(x.rest)

    def walk(n, top=False):
        nonlocal gen
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if not top:
                names.add(n.name)
                for d in n.decorator_list:
                    walk(d)
                return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # walrus inside comprehensions binds here; the first iterable is evaluated here
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        elif isinstance(n, ast.match_case):
            targets_of_pattern(n.pattern)
        for ch in ast.iter_child_nodes(n):
            walk(ch)

    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        names.add(p.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    for st in body:
        walk(st)
    names -= globs
    names -= nonl
    _LOCALS[id(node)] = (node, names, globs, nonl, gen)
    return names, globs, nonl, gen


class Frame:
    __slots__ = ("vars", "fn", "parent", "locals", "globs", "nonl", "name", "yields", "exc_stack", "cls", "first")

    def __init__(self, fn, parent, name, locs=(), globs=(), nonl=()):
        self.vars = {}
        self.fn = fn  # real function providing __globals__ and __closure__
        self.parent = parent
        self.locals, self.globs, self.nonl = locs, globs, nonl
        self.name = name
        self.yields = None
        self.exc_stack = []
        self.first = None


class Closure:
    """A function object created by interpreted code (nested def or lambda)."""

    def __init__(self, interp, node, frame, name, defaults, kwdefaults):
        self.interp, self.node, self.frame, self.__name__ = interp, node, frame, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__qualname__ = f"{frame.name}.<locals>.{name}"
        self.__doc__ = None

    @property
    def is_async(self):
        return isinstance(self.node, ast.AsyncFunctionDef)

    def __call__(self, *a, **k):
        try:
            r = self.interp.call(self, a, k)
        except ProgExc as p:
            raise p.exc
        return r

    def __get__(self, obj, objtype=None):
        return self if obj is None else types.MethodType(self, obj)


class SCoro:
    """An interpreted coroutine: the call is bound, the body runs when awaited."""

    def __init__(self, interp, thunk, name):
        self.interp, self.thunk, self.name = interp, thunk, name
        self.started = False

    def run(self):
        if self.started:
            raise ProgExc(RuntimeError("cannot reuse already awaited coroutine"))
        self.started = True
        return self.thunk()

    def __await__(self):
        try:
            return self.run()
        except ProgExc as p:
            raise p.exc
        yield  # pragma: no cover

    def close(self):
        self.started = True

    def send(self, v):
        try:
            r = self.run()
        except ProgExc as p:
            raise p.exc
        raise StopIteration(r)


class BMeth:
    """A method of a symbolic value or a modelled builtin."""

    def __init__(self, f, name):
        self.f, self.name = f, name

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class Opaque(SVal):
    """A value nothing is known about except its identity (an error message, say)."""

    __slots__ = ("what",)
    kind = "opaque"

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<opaque {self.what}>"

    def _no(self, *a, **k):
        raise Unsupported(f"inspection of opaque value {self.what}")

    __bool__ = _no
    __hash__ = _no

    def __eq__(self, o):
        if o is self:
            return True
        self._no()

    def __ne__(self, o):
        return not self.__eq__(o)


BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
    ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
    ast.MatMult: operator.matmul,
}
IOPS = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
    ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.BitAnd: operator.iand,
    ast.BitOr: operator.ior, ast.BitXor: operator.ixor, ast.LShift: operator.ilshift, ast.RShift: operator.irshift,
}
CMPS = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}

UNBOUND = object()

# native callables that only move values around
CONTAINER_TYPES = (list, dict, set, tuple, frozenset, types.MappingProxyType)
MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "add", "discard",
    "sort", "reverse", "__setitem__", "__delitem__",
}


class _Blank:
    """Stands for a symbolic value in str.format()."""

    def __format__(self, spec):
        return ""


class Interp:
    def __init__(self, session):
        self.S = session
        self.models = {}
        self.trusted_natives = set()
        self.handling = []
        self.depth = 0
        from . import models

        models.install(self)

    # ---------------------------------------------------------------- natives
    def native(self, f, *a, **k):
        """Run native code; its exceptions are exceptions of the program."""
        try:
            return f(*a, **k)
        except EngineSignal:
            raise
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (KeyboardInterrupt, MemoryError, RecursionError, GeneratorExit)):
                raise
            if isinstance(e, z3.Z3Exception):
                raise Unsupported(f"z3: {e}")
            raise ProgExc(e)

    def truth(self, v):
        v = force(v)
        if isinstance(v, SVal):
            return self.native(bool, v)
        if type(v).__bool__ is not None if hasattr(type(v), "__bool__") else False:
            m = self.type_lookup(type(v), "__bool__")
            if is_kasa(m):
                return self.truth(self.call_function(m, (v,), {}))
        elif hasattr(type(v), "__len__"):
            m = self.type_lookup(type(v), "__len__")
            if is_kasa(m):
                return self.truth(self.call_function(m, (v,), {}))
        return self.native(bool, v)

    # ---------------------------------------------------------------- attributes
    @staticmethod
    def type_lookup(cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def getattr(self, o, name):
        o = force(o)
        if isinstance(o, Poison):
            raise Unsupported(f"attribute of unknown value ({o.why})")
        if isinstance(o, SVal):
            return self.native(getattr, o, name)
        if isinstance(o, (type, types.ModuleType)):
            if isinstance(o, type):
                # classmethods / staticmethods / plain functions come out right natively
                meta = self.type_lookup(type(o), name)
                if isinstance(meta, property) and is_kasa(meta.fget):
                    return self.call_function(meta.fget, (o,), {})
            return self.native(getattr, o, name)
        if isinstance(o, super):
            # attribute found after __thisclass__ in the mro of the instance's type
            self_obj, start = o.__self__, o.__thisclass__
            if isinstance(self_obj, type):
                return self.native(getattr, o, name)
            mro = type(self_obj).__mro__
            for k in mro[mro.index(start) + 1 :]:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    if isinstance(d, property) and is_kasa(d.fget):
                        return self.call_function(d.fget, (self_obj,), {})
                    break
            return self.native(getattr, o, name)
        cls = type(o)
        ga = self.type_lookup(cls, "__getattribute__")
        if is_kasa(ga):
            return self.call_function(ga, (o, name), {})
        d = self.type_lookup(cls, name)
        if isinstance(d, property):
            if d.fget is not None and (is_kasa(d.fget) or isinstance(d.fget, Closure)):
                try:
                    return self.call(d.fget, (o,), {})
                except ProgExc as p:
                    if isinstance(p.exc, AttributeError):
                        gm = self.type_lookup(cls, "__getattr__")
                        if is_kasa(gm):
                            return self.call_function(gm, (o, name), {})
                    raise
        elif isinstance(d, functools.cached_property) and is_kasa(d.func):
            if name in o.__dict__:
                return o.__dict__[name]
            v = self.call_function(d.func, (o,), {})
            o.__dict__[name] = v
            return v
        elif d is None and not (hasattr(o, "__dict__") and name in o.__dict__):
            gm = self.type_lookup(cls, "__getattr__")
            if is_kasa(gm):
                return self.call_function(gm, (o, name), {})
        return self.native(getattr, o, name)

    def setattr(self, o, name, v):
        o = force(o)
        if isinstance(o, SVal):
            raise Unsupported("attribute store on a symbolic value")
        cls = type(o)
        if not isinstance(o, type):
            sa = self.type_lookup(cls, "__setattr__")
            if is_kasa(sa):
                return self.call_function(sa, (o, name, v), {})
            d = self.type_lookup(cls, name)
            if isinstance(d, property) and is_kasa(d.fset):
                return self.call_function(d.fset, (o, v), {})
        cur().writes.append((o, name))
        self.native(setattr, o, name, v)

    # ---------------------------------------------------------------- calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        f = force(f)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        try:
            m = self.models.get(f)
        except (TypeError, Unsupported):
            m = None
        if m is not None:
            return self.native_model(m, args, kwargs)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            if isinstance(fn, Closure) or is_kasa(fn):
                return self.call(fn, (f.__self__, *args), kwargs)
            m = self.models.get(fn) if isinstance(fn, types.FunctionType) else None
            if m is not None:
                return self.native_model(m, (f.__self__, *args), kwargs)
            if isinstance(fn, functools._lru_cache_wrapper) and is_kasa(fn.__wrapped__):
                return self.call(fn.__wrapped__, (f.__self__, *args), kwargs)
        if is_kasa(f):
            return self.call_function(f, args, kwargs)
        if isinstance(f, functools._lru_cache_wrapper) and is_kasa(f.__wrapped__):
            return self.call_function(f.__wrapped__, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, (*f.args, *args), {**f.keywords, **kwargs})
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, BMeth):
            return self.native(f.f, *args, **kwargs)
        if isinstance(f, SVal):
            raise Unsupported("call of a symbolic value")
        # instances with an interpreted __call__
        cm = self.type_lookup(type(f), "__call__")
        if is_kasa(cm):
            return self.call_function(cm, (f, *args), kwargs)
        slf = getattr(f, "__self__", None)
        if isinstance(slf, logging.Logger):
            return self.log_call(f.__name__, args)
        if isinstance(slf, struct.Struct) and f.__name__ in self.struct_models:
            return self.native(self.struct_models[f.__name__], self, slf.format, *args, **kwargs)
        if isinstance(slf, SVal) or isinstance(slf, BaseException):
            return self.native(f, *args, **kwargs)
        if isinstance(slf, CONTAINER_TYPES) and isinstance(f, (types.BuiltinFunctionType, types.MethodType)):
            return self.container_method(slf, f, args, kwargs)
        return self.call_native_checked(f, args, kwargs)

    def native_model(self, m, args, kwargs):
        return self.native(m, self, *args, **kwargs)

    def time_call(self, f, args, kwargs):
        """Durations and dates made of symbolic numbers; None: not one of them."""
        args, kwargs = [force(a) for a in args], {k: force(v) for k, v in kwargs.items()}
        if f is datetime.timedelta:
            return self.native(times.STimedelta.make, *args, **kwargs)
        if f is datetime.datetime:
            return self.native(times.SDatetime.make, *args, **kwargs)
        if f is datetime.timezone:
            return self.native(times.STimezone.make, *args, **kwargs)
        if getattr(f, "__self__", None) is datetime.datetime and f.__name__ == "fromtimestamp":
            return self.native(times.SDatetime.fromtimestamp, *args, **kwargs)
        slf = getattr(f, "__self__", None)
        if isinstance(slf, datetime.timezone) and f.__name__ in ("utcoffset", "tzname") and isinstance(args[0], times.SDatetime):
            return self.native(f, None)
        return None

    def call_native_checked(self, f, args, kwargs):
        mod = getattr(getattr(f, "__func__", f), "__code__", None)
        if mod is not None and mod.co_filename.startswith(VERIF):
            return self.native(f, *args, **kwargs)
        if f in self.trusted_natives:
            return self.native(f, *args, **kwargs)
        if mod is not None and mod.co_filename == functools.__file__ and mod.co_name in ("register", "<lambda>"):
            # singledispatch
            return self.native(f, *[self.models["plain"](a) for a in args], **kwargs)
        if getattr(f, "__objclass__", None) is object and f.__name__ == "__setattr__":
            # stores the value without looking at it
            return self.native(f, *args, **kwargs)
        if has_sym(args) or has_sym(kwargs):
            r = self.time_call(f, args, kwargs)
            if r is not None:
                return r
            if isinstance(getattr(f, "__self__", None), str) and f.__name__ == "format":
                text = self.format_text(f.__self__, args, kwargs)
                if text is not None:
                    return text
                # the fields must exist; the text itself is not followed
                blank = lambda v: _Blank() if isinstance(v, SVal) or has_sym(v) else v
                self.native(f, *[blank(v) for v in args], **{k: blank(v) for k, v in kwargs.items()})
                return Opaque("str.format()")
            if f == tuple.__new__ and len(args) == 2 and type(args[1]) in (tuple, list) and not kwargs:
                return self.native(f, *args)
            if getattr(f, "__name__", "").startswith("__mashumaro_from_dict") and args and type(args[-1]) is dict and not kwargs:
                return self.mashumaro(f, args)
            raise Unsupported(f"native call {getattr(f, '__qualname__', f)} with a symbolic argument")
        w = getattr(f, "__wrapped__", None)
        if is_kasa(w) and getattr(f, "__code__", None) is not None and f.__code__.co_filename == contextlib.__file__:
            # a context manager made of a generator runs natively (none of its values is looked at)
            return self.native(f, *args, **kwargs)
        if is_kasa(w):
            raise Unsupported(f"native wrapper around {w.__qualname__}")
        slf = getattr(f, "__self__", None)
        if slf is not None and has_sym(slf):
            raise Unsupported(f"native method {getattr(f, '__qualname__', f)} on symbolic content")
        return self.native(f, *args, **kwargs)

    def mashumaro(self, f, args):
        """Deserialization passes numbers and texts on without looking at them: run it on stand-ins."""
        back, names = {}, {}

        def out(v):
            if isinstance(v, SVal):
                k = {"int": 7_000_000_000_001 + len(back), "str": f"\x00stand-in {len(back)}"}.get(v.kind)
                if k is None:
                    raise Unsupported(f"deserializing a symbolic {v.kind}")
                back[k] = v
                return k
            if type(v) is dict:
                return {k: out(x) for k, x in v.items()}
            if type(v) is list:
                return [out(x) for x in v]
            if has_sym(v):
                raise Unsupported("deserializing symbolic content")
            return v

        def into(v):
            if type(v) in (int, str) and v in back:
                names[v] = 1
                return back[v]
            if type(v) is dict:
                return {k: into(x) for k, x in v.items()}
            if type(v) is list:
                return [into(x) for x in v]
            if dataclasses.is_dataclass(v):
                for fd in dataclasses.fields(v):
                    object.__setattr__(v, fd.name, into(getattr(v, fd.name)))
            return v

        data = out(args[-1])
        res = into(self.native(f, *args[:-1], data))
        if len(names) != len(back):
            raise Unsupported("deserialization that converts or drops a symbolic value")
        return res

    def log_call(self, name, args):
        if name == "isEnabledFor":
            return self.S.log_enabled(cur())
        if name == "getEffectiveLevel":
            return 10
        c = cur()
        hook = c.notes.get("log_hook")
        if hook is not None:
            hook(name, args)
        return None

    def container_method(self, slf, f, args, kwargs):
        name = f.__name__
        if name in MUTATORS:
            cur().writes.append((slf, "*"))
        if isinstance(slf, SDict):
            return self.native(f, *args, **kwargs)
        if isinstance(slf, dict) and name in ("get", "pop", "setdefault", "__getitem__", "__contains__") and args:
            k = force(args[0])
            if isinstance(k, SVal):
                hit = self.match_key(slf, k)
                if hit is not None:
                    return self.native(f, hit, *args[1:], **kwargs)
                if name == "get":
                    return args[1] if len(args) > 1 else None
                if name == "pop":
                    if len(args) > 1:
                        return args[1]
                    raise ProgExc(KeyError(k))
                raise Unsupported(f"dict.{name} with a symbolic key")
            return self.native(f, k, *args[1:], **kwargs)
        if name in ("extend", "update", "union", "join") and args and isinstance(force(args[0]), (SSeq, SRange)):
            raise Unsupported(f"{name} with a symbolic sequence")
        if isinstance(slf, list) and name == "sort":
            raise Unsupported("list.sort") if has_sym(slf) else None
        return self.native(f, *args, **kwargs)

    def match_key(self, d, k):
        """The key of native dict/set d equal to symbolic k on this path (forks), or None."""
        keys = list(d)
        c = cur()
        conds = []
        for x in keys:
            r = k == x
            if r is True:
                return x
            conds.append(r.e if isinstance(r, SBool) else z3.BoolVal(False))
        keep = [(x, e) for x, e in zip(keys, conds) if not z3.is_false(z3.simplify(e))]
        none = z3.And(*[z3.Not(e) for _, e in keep]) if keep else z3.BoolVal(True)
        i = c.decide([e for _, e in keep] + [none], "key")
        return keep[i][0] if i < len(keep) else None

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, enum.Enum):
            return self.enum_call(cls, args, kwargs)
        if cls is super:
            return self.native(super, *args)
        if issubclass(cls, BaseException):
            init = self.type_lookup(cls, "__init__")
            if is_kasa(init):
                o = self.native(cls.__new__, cls, *args, **kwargs)
                self.call_function(init, (o, *args), kwargs)
                return o
            return self.native(cls, *args, **kwargs)
        new = self.type_lookup(cls, "__new__")
        new_fn = new.__func__ if isinstance(new, staticmethod) else new
        init = self.type_lookup(cls, "__init__")
        if is_kasa(new_fn):
            o = self.call_function(new_fn, (cls, *args), kwargs)
            if isinstance(o, cls) and is_kasa(init):
                self.call_function(init, (o, *args), kwargs)
            return o
        if is_kasa(init):
            if inspect.isabstract(cls):
                raise ProgExc(TypeError(f"Can't instantiate abstract class {cls.__name__}"))
            if cls.__new__ is not object.__new__:
                o = self.native(cls.__new__, cls, *args, **kwargs)
            else:
                o = object.__new__(cls)
            self.call_function(init, (o, *args), kwargs)
            return o
        if dataclasses.is_dataclass(cls) and under_repo(getattr(sys.modules.get(cls.__module__), "__file__", "") or ""):
            return self.dataclass_new(cls, args, kwargs)
        if issubclass(cls, tuple) and cls is not tuple and hasattr(cls, "_fields"):
            return self.native(cls, *args, **kwargs)
        if issubclass(cls, dict) and cls is not dict and type(cls).__name__ == "_TypedDictMeta":
            return self.native(dict, *args, **kwargs)
        if issubclass(cls, dict) and cls is not dict and init is dict.__init__ and new_fn is dict.__new__:
            src = force(args[0]) if len(args) == 1 else {}
            if len(args) < 2 and isinstance(src, dict) and not isinstance(src, SVal) and not any(isinstance(k, SVal) for k in dict.keys(src)):
                o = dict.__new__(cls)
                for k in dict.keys(src):
                    dict.__setitem__(o, k, dict.__getitem__(src, k))
                dict.update(o, kwargs)
                return o
        if is_kasa(init) is False and cls.__module__.split(".")[0] == "kasa" and init is object.__init__:
            return self.native(cls, *args, **kwargs)
        return self.call_native_checked(cls, args, kwargs)

    def dataclass_new(self, cls, args, kwargs):
        params = getattr(cls, "__dataclass_params__", None)
        if params is not None and not params.init:
            raise Unsupported(f"dataclass {cls.__name__} without generated init")
        sig = inspect.signature(cls.__init__)
        o = object.__new__(cls)
        b = self.native(sig.bind, o, *args, **kwargs)
        vals = dict(b.arguments)
        initvars = []
        for f in dataclasses.fields(cls):
            if f.init and f.name in vals:
                v = vals[f.name]
            elif f.default is not dataclasses.MISSING:
                v = f.default
            elif f.default_factory is not dataclasses.MISSING:
                v = self.call(f.default_factory, (), {})
            else:
                continue
            object.__setattr__(o, f.name, v)
        for n, f in getattr(cls, "__dataclass_fields__").items():
            if f._field_type is dataclasses._FIELD_INITVAR:
                initvars.append(vals.get(n, f.default))
        post = self.type_lookup(cls, "__post_init__")
        if post is not None:
            self.call(types.MethodType(post, o), tuple(initvars), {})
        return o

    def enum_call(self, cls, args, kwargs):
        v = force(args[0]) if args else None
        if len(args) != 1 or not isinstance(v, SVal):
            miss = cls.__dict__.get("_missing_")
            return self.native(cls, *args, **kwargs)
        if isinstance(v, SEnum):
            if v.cls is cls:
                return v
            v = v.value
        conds = []
        for m in cls:
            r = v == m.value
            conds.append(z3.BoolVal(r) if isinstance(r, bool) else r.e)
        c = cur()
        hit = z3.simplify(z3.Or(*conds))
        ok = c.branch(hit)
        if ok:
            if SEnum.keyed(cls) and zi(v) is not None:
                return SEnum(cls, zi(v))
            i = c.decide(conds, f"enum {cls.__name__}")
            return list(cls)[i]
        miss = cls._missing_
        fn = getattr(miss, "__func__", None)
        if is_kasa(fn):
            r = self.call_function(fn, (cls, v), {})
            if isinstance(r, cls) or isinstance(r, SEnum):
                return r
        raise ProgExc(ValueError(f"<symbolic> is not a valid {cls.__name__}"))

    _sigs: dict = {}

    def call_function(self, fn, args, kwargs):
        node = node_of(fn)
        sig = self._sigs.get(fn)
        if sig is None:
            sig = self._sigs[fn] = inspect.signature(fn, follow_wrapped=False)
        b = self.native(sig.bind, *args, **kwargs)
        b.apply_defaults()
        self.S.functions.add(f"{fn.__module__}:{fn.__qualname__}")
        key = f"{fn.__module__}:{fn.__qualname__}"
        con = self.S.contracts.get(fn)
        if con is not None:
            return self.native(con, *args, **kwargs)

        def run():
            return self.run_body(node, fn, None, dict(b.arguments), key)

        if isinstance(node, ast.AsyncFunctionDef):
            if scope_info(node)[3]:
                return AsyncGen(self, run, key)
            return SCoro(self, run, key)
        return run()

    def call_closure(self, c, args, kwargs):
        node = c.node
        a = node.args
        vars_ = self.bind_args(a, c.defaults, c.kwdefaults, args, kwargs, c.__name__)

        def run():
            return self.run_body(node, c.frame.fn, c.frame, vars_, c.__qualname__)

        if c.is_async:
            if scope_info(node)[3]:
                return AsyncGen(self, run, c.__qualname__)
            return SCoro(self, run, c.__qualname__)
        return run()

    def bind_args(self, a, defaults, kwdefaults, args, kwargs, name):
        P = inspect.Parameter
        params = []
        pos = a.posonlyargs + a.args
        nd = len(pos) - len(defaults)
        for i, p in enumerate(pos):
            d = defaults[i - nd] if i >= nd else P.empty
            params.append(P(p.arg, P.POSITIONAL_ONLY if i < len(a.posonlyargs) else P.POSITIONAL_OR_KEYWORD, default=d))
        if a.vararg:
            params.append(P(a.vararg.arg, P.VAR_POSITIONAL))
        for p, d in zip(a.kwonlyargs, kwdefaults):
            params.append(P(p.arg, P.KEYWORD_ONLY, default=P.empty if d is UNBOUND else d))
        if a.kwarg:
            params.append(P(a.kwarg.arg, P.VAR_KEYWORD))
        sig = inspect.Signature(params)
        b = self.native(sig.bind, *args, **kwargs)
        b.apply_defaults()
        return dict(b.arguments)

    def run_body(self, node, fn, parent, vars_, name):
        c = cur()
        self.depth += 1
        if self.depth > 90:
            self.depth = 0
            raise Unsupported("recursion too deep")
        try:
            if isinstance(node, ast.Lambda):
                fr = Frame(fn, parent, name, *scope_info(node)[:3])
                fr.vars.update(vars_)
                return self.ev(node.body, fr)
            locs, globs, nonl, gen = scope_info(node)
            fr = Frame(fn, parent, name, locs, globs, nonl)
            fr.vars.update(vars_)
            allargs = node.args.posonlyargs + node.args.args
            if allargs:
                fr.first = allargs[0].arg
            if gen:
                fr.yields = []
            try:
                self.block(node.body, fr)
                rv = None
            except _Ret as r:
                rv = r.v
            if gen:
                return fr.yields if isinstance(node, ast.AsyncFunctionDef) or isinstance(fr.yields, SVal) else iter(fr.yields)
            return rv
        finally:
            self.depth -= 1

    # ---------------------------------------------------------------- awaiting
    def await_if_needed(self, v):
        v = force(v)
        if isinstance(v, SCoro) or inspect.isawaitable(v):
            return self.await_(v)
        return v

    def await_(self, v):
        v = force(v)
        if isinstance(v, SCoro):
            return v.run()
        if inspect.iscoroutine(v):
            return self.drive(v)
        if isinstance(v, SVal):
            raise Unsupported("await of a symbolic value")
        m = self.type_lookup(type(v), "__await__")
        if m is not None:
            it = self.native(v.__await__)
            try:
                self.native(next, it)
            except ProgExc as p:
                if isinstance(p.exc, StopIteration):
                    return p.exc.value
                raise
            raise Unsupported("suspension in native awaitable")
        raise ProgExc(TypeError(f"object {type(v).__name__} can't be used in 'await' expression"))

    def drive(self, co):
        try:
            self.native(co.send, None)
        except ProgExc as p:
            if isinstance(p.exc, StopIteration):
                return p.exc.value
            raise
        co.close()
        raise Unsupported("native coroutine suspended")

    # ---------------------------------------------------------------- names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.globs:
                break
            if name in f.vars:
                return f.vars[name]
            if name in f.locals and name not in f.nonl:
                if f is fr:
                    raise ProgExc(UnboundLocalError(f"cannot access local variable '{name}' where it is not associated with a value"))
                raise ProgExc(NameError(f"cannot access free variable '{name}'"))
            f = f.parent
        fn = fr.fn
        if fn.__closure__ and name in fn.__code__.co_freevars:
            cell = fn.__closure__[fn.__code__.co_freevars.index(name)]
            return self.native(lambda: cell.cell_contents)
        g = fn.__globals__
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise ProgExc(NameError(f"name '{name}' is not defined"))

    def store(self, name, v, fr):
        f = fr
        if name in f.globs:
            raise Unsupported("store to a module global")
        if name in f.nonl:
            f = f.parent
            while f is not None and not (name in f.locals and name not in f.nonl):
                f = f.parent
            if f is None:
                fn = fr.fn
                if fn.__closure__ and name in fn.__code__.co_freevars:
                    fn.__closure__[fn.__code__.co_freevars.index(name)].cell_contents = v
                    return
                raise Unsupported("nonlocal store")
        elif getattr(f, "locals", None) is not None and name not in f.locals and f.parent is not None:
            # comprehension scope: walrus target binds in the enclosing function
            while f.parent is not None and name not in f.locals:
                f = f.parent
        f.vars[name] = v

    # ---------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.ex(s, fr)

    def ex(self, n, fr):
        self.S.step(cur())
        return getattr(self, "ex_" + type(n).__name__, self.no_stmt)(n, fr)

    def no_stmt(self, n, fr):
        raise Unsupported(f"statement {type(n).__name__} (line {n.lineno})")

    def ex_Expr(self, n, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, fr)

    def ex_Pass(self, n, fr):
        pass

    def ex_Return(self, n, fr):
        raise _Ret(self.ev(n.value, fr) if n.value is not None else None)

    def ex_Break(self, n, fr):
        raise _Brk()

    def ex_Continue(self, n, fr):
        raise _Cont()

    def ex_Global(self, n, fr):
        pass

    ex_Nonlocal = ex_Global

    def ex_Import(self, n, fr):
        for a in n.names:
            m = self.native(__import__, a.name)
            if a.asname:
                self.store(a.asname, sys.modules[a.name], fr)
            else:
                self.store(a.name.split(".")[0], m, fr)

    def ex_ImportFrom(self, n, fr):
        import importlib

        base = "." * n.level + (n.module or "")
        pkg = fr.fn.__globals__.get("__package__")
        mod = self.native(importlib.import_module, base, pkg)
        for a in n.names:
            try:
                v = getattr(mod, a.name)
            except AttributeError:
                v = self.native(importlib.import_module, base + "." + a.name, pkg)
            self.store(a.asname or a.name, v, fr)

    def ex_Assign(self, n, fr):
        v = self.ev(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def ex_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, fr), fr)

    def ex_AugAssign(self, n, fr):
        t = n.target
        rhs_first = False
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            v = self.iop(n.op, old, self.ev(n.value, fr))
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            v = self.iop(n.op, old, self.ev(n.value, fr))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            old = self.getitem(o, k)
            v = self.iop(n.op, old, self.ev(n.value, fr))
            self.setitem(o, k, v)
        else:
            raise Unsupported("augmented target")

    def iop(self, op, a, b):
        a, b = force(a), force(b)
        if isinstance(a, (list, dict, set)) and not isinstance(a, SVal):
            cur().writes.append((a, "*"))
            if isinstance(b, (SSeq, SRange)) or isinstance(a, SDict):
                raise Unsupported("in-place operation with a symbolic container")
            return self.native(IOPS[type(op)], a, b)
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        a, b = force(a), force(b)
        if isinstance(op, ast.Mod) and isinstance(a, (str, bytes)) and has_sym(b):
            return Opaque("% formatting")
        if isinstance(op, ast.BitOr) and isinstance(a, dict) and isinstance(b, dict):
            if isinstance(a, SDict):
                a.settle()
            if isinstance(b, SDict):
                b.settle()
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(op, ast.Add):
                return Opaque("concat")
        # kasa-defined operators
        ma = self.type_lookup(type(a), _OPN.get(type(op), "")) if not isinstance(a, SVal) else None
        if is_kasa(ma):
            r = self.call_function(ma, (a, b), {})
            if r is not NotImplemented:
                return r
        if isinstance(a, SSeq) or isinstance(b, SSeq):
            raise Unsupported("operator on a symbolic sequence")
        return self.native(BINOPS[type(op)], a, b)

    def ex_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.vars:
                    raise ProgExc(UnboundLocalError(t.id))
                del fr.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = force(self.ev(t.value, fr))
                k = force(self.ev_slice(t.slice, fr))
                cur().writes.append((o, "*"))
                if isinstance(k, SVal):
                    if isinstance(o, dict) and not isinstance(o, SDict):
                        hit = self.match_key(o, k)
                        if hit is None:
                            raise ProgExc(KeyError(k))
                        k = hit
                    else:
                        raise Unsupported("del with a symbolic key")
                self.native(operator.delitem, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                cur().writes.append((o, t.attr))
                self.native(delattr, o, t.attr)
            else:
                raise Unsupported("del target")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = force(v)
            if isinstance(v, (SSeq, SRange, SStr, SBytes)):
                raise Unsupported("unpacking a symbolic sequence")
            vals = self.native(list, self.iter_native(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ProgExc(ValueError("not enough values to unpack"))
                vals = vals[:i] + [vals[i : len(vals) - after]] + vals[len(vals) - after :]
                elts = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
            else:
                elts = t.elts
                if len(vals) != len(elts):
                    raise ProgExc(ValueError("wrong number of values to unpack"))
            for x, y in zip(elts, vals):
                self.assign(x, y, fr)
        else:
            raise Unsupported("assignment target")

    def iter_native(self, v):
        v = force(v)
        if isinstance(v, SVal):
            raise Unsupported(f"iteration of symbolic {v.kind}")
        m = self.type_lookup(type(v), "__iter__")
        if is_kasa(m):
            return self.call_function(m, (v,), {})
        return self.native(iter, v)

    def ex_If(self, n, fr):
        if self.truth(self.ev(n.test, fr)):
            self.block(n.body, fr)
        else:
            self.block(n.orelse, fr)

    def ex_Assert(self, n, fr):
        if not self.truth(self.ev(n.test, fr)):
            raise ProgExc(AssertionError())

    def ex_Raise(self, n, fr):
        if n.exc is None:
            f = fr
            while f is not None:
                if f.exc_stack:
                    raise ProgExc(f.exc_stack[-1])
                f = f.parent
            if self.handling:  # that of a caller
                raise ProgExc(self.handling[-1])
            raise ProgExc(RuntimeError("No active exception to reraise"))
        e = force(self.ev(n.exc, fr))
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, (), {})
        if not isinstance(e, BaseException):
            raise ProgExc(TypeError("exceptions must derive from BaseException"))
        if n.cause is not None:
            ca = self.ev(n.cause, fr)
            if isinstance(ca, type) and issubclass(ca, BaseException):
                ca = self.call(ca, (), {})
            self.native(setattr, e, "__cause__", ca)
        raise ProgExc(e)

    def ex_Try(self, n, fr):
        try:
            try:
                self.block(n.body, fr)
            except ProgExc as p:
                for h in n.handlers:
                    if h.type is None:
                        match = True
                    else:
                        tt = self.ev(h.type, fr)
                        match = self.native(isinstance, p.exc, tt)
                    if match:
                        if h.name:
                            self.store(h.name, p.exc, fr)
                        fr.exc_stack.append(p.exc)
                        self.handling.append(p.exc)
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.exc_stack.pop()
                            self.handling.pop()
                            if h.name:
                                fr.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(n.orelse, fr)
        except (ProgExc, _Ret, _Brk, _Cont) as sig:
            self.block(n.finalbody, fr)
            raise sig
        except EngineSignal:
            raise
        else:
            self.block(n.finalbody, fr)

    def ex_With(self, n, fr, is_async=False):
        self.with_items(n.items, n.body, fr, is_async)

    def ex_AsyncWith(self, n, fr):
        self.with_items(n.items, n.body, fr, True)

    def with_items(self, items, body, fr, is_async):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        cm = force(self.ev(it.context_expr, fr))
        en, exn = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
        enter, exit_ = self.getattr(cm, en), self.getattr(cm, exn)
        v = self.call(enter, (), {})
        if is_async:
            v = self.await_(v)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)

        def leave(a):
            r = self.call(exit_, a, {})
            return self.await_(r) if is_async else r

        try:
            self.with_items(items[1:], body, fr, is_async)
        except ProgExc as p:
            if not self.truth(leave((type(p.exc), p.exc, None))):
                raise
        except (_Ret, _Brk, _Cont) as sig:
            leave((None, None, None))
            raise sig
        else:
            leave((None, None, None))

    def ex_FunctionDef(self, n, fr):
        f = self.mk_closure(n, fr, n.name)
        for d in reversed(n.decorator_list):
            f = self.call(self.ev(d, fr), (f,), {})
        self.store(n.name, f, fr)

    ex_AsyncFunctionDef = ex_FunctionDef

    def ex_ClassDef(self, n, fr):
        """A class made of plain assignments."""
        if n.decorator_list or not all(isinstance(st, (ast.Assign, ast.AnnAssign, ast.Pass)) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) for st in n.body):
            raise Unsupported(f"local class {n.name} with methods (line {n.lineno})")
        bases = tuple(force(self.ev(b, fr)) for b in n.bases)
        kw = {k.arg: force(self.ev(k.value, fr)) for k in n.keywords}
        names = {t.id for st in n.body if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Name)}
        names |= {st.target.id for st in n.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)}
        inner = Frame(fr.fn, fr, n.name, names, (), ())
        self.block(n.body, inner)
        ns = {"__module__": fr.fn.__module__, "__qualname__": f"{fr.name}.<locals>.{n.name}", **inner.vars}
        self.store(n.name, self.native(types.new_class, n.name, bases, kw, lambda d: d.update(ns)), fr)

    def mk_closure(self, n, fr, name):
        a = n.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [UNBOUND if d is None else self.ev(d, fr) for d in a.kw_defaults]
        return Closure(self, n, fr, name, defaults, kwd)

    def ex_Match(self, n, fr):
        subj = force(self.ev(n.subject, fr))
        for case in n.cases:
            if self.pattern(case.pattern, subj, fr) and (case.guard is None or self.truth(self.ev(case.guard, fr))):
                self.block(case.body, fr)
                return

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.cmp_eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, fr):
                return False
            if p.name:
                self.store(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(x, v, fr) for x in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.call(isinstance, (v, self.ev(p.cls, fr)), {}))
        raise Unsupported("match pattern")

    # ---------------------------------------------------------------- loops
    def ex_For(self, n, fr):
        it = force(self.ev(n.iter, fr))
        if isinstance(it, SymIter):
            it = it.src if it.mk is None else it
        if isinstance(it, (SRange, SSeq, SBytes, SymIter)):
            from .loops import cut_for

            return cut_for(self, n, fr, it)
        itr = self.iter_native(it)
        while True:
            try:
                v = self.native(next, itr)
            except ProgExc as p:
                if isinstance(p.exc, StopIteration):
                    break
                raise
            self.assign(n.target, v, fr)
            try:
                self.block(n.body, fr)
            except _Brk:
                return
            except _Cont:
                continue
        self.block(n.orelse, fr)

    def ex_AsyncFor(self, n, fr):
        it = force(self.ev(n.iter, fr))
        ai = self.call(self.getattr(it, "__aiter__"), (), {})
        nxt = self.getattr(ai, "__anext__")
        while True:
            try:
                v = self.await_(self.call(nxt, (), {}))
            except ProgExc as p:
                if isinstance(p.exc, StopAsyncIteration):
                    break
                raise
            self.assign(n.target, v, fr)
            try:
                self.block(n.body, fr)
            except _Brk:
                return
            except _Cont:
                continue
        self.block(n.orelse, fr)

    def ex_While(self, n, fr):
        from .loops import cut_while

        c = cur()
        key = (fr.fn.__code__.co_filename, n.lineno)
        if key in self.S.cut_loops:
            return cut_while(self, n, fr)
        rounds = 0
        nd0 = c.ndec
        while True:
            t = force(self.ev(n.test, fr))
            if isinstance(t, SVal) and not isinstance(t, SEnum):
                # symbolic guard: cut at the loop head
                self.S.cut_loops.add(key)
                raise Restart()
            if not self.truth(t):
                break
            rounds += 1
            if rounds > 12 and c.ndec > nd0:
                self.S.cut_loops.add(key)
                raise Restart()
            if rounds > 5000:
                raise Unsupported("while loop does not terminate concretely")
            try:
                self.block(n.body, fr)
            except _Brk:
                return
            except _Cont:
                continue
        self.block(n.orelse, fr)

    # ---------------------------------------------------------------- expressions
    def ev(self, n, fr):
        return getattr(self, "ev_" + type(n).__name__, self.no_expr)(n, fr)

    def no_expr(self, n, fr):
        raise Unsupported(f"expression {type(n).__name__} (line {n.lineno})")

    def ev_Constant(self, n, fr):
        return n.value

    def ev_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def ev_Attribute(self, n, fr):
        attr = n.attr
        return self.getattr(self.ev(n.value, fr), attr)

    def ev_slice(self, n, fr):
        if isinstance(n, ast.Slice):
            return slice(
                *[force(self.ev(x, fr)) if x is not None else None for x in (n.lower, n.upper, n.step)]
            )
        return self.ev(n, fr)

    def ev_Slice(self, n, fr):
        return self.ev_slice(n, fr)

    def ev_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.ev_slice(n.slice, fr))

    def getitem(self, o, k):
        o, k = force(o), force(k)
        if isinstance(o, SVal):
            return self.native(operator.getitem, o, k)
        m = self.type_lookup(type(o), "__getitem__")
        if is_kasa(m):
            return self.call_function(m, (o, k), {})
        if getattr(type(o), "symbolic_lookup", False):
            return m(o, k)
        if isinstance(k, SVal) or (isinstance(k, slice) and any(isinstance(x, SVal) for x in (k.start, k.stop, k.step))):
            if isinstance(k, slice):
                return self.slice_native(o, k)
            if isinstance(o, SDict):
                raise Unsupported("symbolic key in an open dict")
            if isinstance(o, dict):
                hit = self.match_key(o, k)
                if hit is None:
                    raise ProgExc(KeyError(k))
                return o[hit] if isinstance(o, SymKeyDict) else dict.__getitem__(o, hit)
            if isinstance(o, (list, tuple)):
                i = zi(k)
                if i is None:
                    raise ProgExc(TypeError("list indices must be integers or slices"))
                n = len(o)
                conds = [z3.Or(i == j, i == j - n) for j in range(n)]
                conds.append(z3.Or(i >= n, i < -n))
                j = cur().decide(conds, "index")
                if j == n:
                    raise ProgExc(IndexError("list index out of range"))
                return o[j]
            if isinstance(o, str):
                return self.native(operator.getitem, SStr(zs(o)), k)
            if isinstance(o, bytes):
                return self.native(operator.getitem, SBytes(V.zbytes(o)), k)
            if isinstance(o, type) and issubclass(o, enum.Enum):
                names = list(o.__members__)
                conds = [zs(k) == zs(x) for x in names]
                conds.append(z3.Not(z3.Or(*conds)))
                i = cur().decide(conds, "enum name")
                if i == len(names):
                    raise ProgExc(KeyError(k))
                return o.__members__[names[i]]
            raise Unsupported(f"symbolic index into {type(o).__name__}")
        return self.native(operator.getitem, o, k)

    def slice_native(self, o, k):
        if isinstance(o, str):
            return SStr(zs(o))[k]
        if isinstance(o, bytes):
            return SBytes(V.zbytes(o))[k]
        if isinstance(o, (list, tuple)) and (k.step is None):
            n = len(o)
            lo, hi = V.slice_bounds(k, z3.IntVal(n))
            c = cur()
            i = c.decide([lo == j for j in range(n + 1)], "slice lo")
            j = c.decide([hi == j for j in range(n + 1)], "slice hi")
            return o[i:j]
        raise Unsupported("symbolic slice")

    def setitem(self, o, k, v):
        o, k = force(o), force(k)
        if isinstance(o, SVal):
            raise Unsupported("item store on a symbolic value")
        m = self.type_lookup(type(o), "__setitem__")
        if is_kasa(m):
            return self.call_function(m, (o, k, v), {})
        cur().writes.append((o, "*"))
        if isinstance(k, SVal):
            if isinstance(o, dict) and not isinstance(o, SDict):
                hit = self.match_key(o, k)
                if hit is not None:
                    o[hit] = v
                    return
                raise Unsupported("new symbolic key in a dict")
            raise Unsupported("item store with a symbolic key")
        self.native(operator.setitem, o, k, v)

    def ev_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        return self.binop(n.op, a, self.ev(n.right, fr))

    def ev_UnaryOp(self, n, fr):
        v = force(self.ev(n.operand, fr))
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return s_not(v)
            return not self.truth(v)
        return self.native({ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(n.op)], v)

    def ev_BoolOp(self, n, fr):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if t != is_and:
                # a symbolic value whose truth is now decided
                if isinstance(force(v), SBool):
                    return t
                return v
        return v

    def ev_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.store(n.target.id, v, fr)
        return v

    def ev_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def ev_List(self, n, fr):
        return list(self.elts(n.elts, fr))

    def ev_Set(self, n, fr):
        return self.native(set, self.elts(n.elts, fr))

    def elts(self, xs, fr):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.native(list, self.iter_native(self.ev(x.value, fr))))
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_Dict(self, n, fr):
        d = {}
        base = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = force(self.ev(v, fr))
                if not isinstance(src, dict) and not hasattr(src, "keys"):
                    raise ProgExc(TypeError("not a mapping"))
                if isinstance(src, SDict):
                    if src.factory is not None or src.maybe:
                        if d:
                            src.settle()
                        else:
                            # copy of an open dict: same unknowns on both sides
                            for key in list(src.maybe):
                                src._resolve(key)
                            if src.factory is not None:
                                raise Unsupported("copy of an open dict")
                    d.update(dict.items(src))
                else:
                    d.update(self.native(dict, src))
            else:
                kk = force(self.ev(k, fr))
                vv = self.ev(v, fr)
                if isinstance(kk, SVal):
                    if not d and len(n.keys) == 1:
                        d = SymKeyDict(kk, vv)
                        return d
                    if isinstance(kk, SEnum):
                        kk = kk.concretise()
                    else:
                        raise Unsupported("symbolic key in a dict display")
                try:
                    d[kk] = vv
                except TypeError as e:
                    raise ProgExc(e)
        return d

    def ev_Lambda(self, n, fr):
        return self.mk_closure(n, fr, "<lambda>")

    def ev_Await(self, n, fr):
        return self.await_(self.ev(n.value, fr))

    def ev_Yield(self, n, fr):
        f = fr
        while f.yields is None:
            f = f.parent
        f.yields.append(self.ev(n.value, fr) if n.value is not None else None)
        return None

    def ev_YieldFrom(self, n, fr):
        fr.yields.extend(self.native(list, self.iter_native(self.ev(n.value, fr))))

    def ev_Starred(self, n, fr):
        raise Unsupported("starred expression")

    def ev_JoinedStr(self, n, fr):
        parts = []
        opaque = False
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
                continue
            v = force(self.ev(x.value, fr))
            spec = self.ev(x.format_spec, fr) if x.format_spec is not None else ""
            if isinstance(v, SVal) or has_sym(v) or isinstance(spec, SVal):
                if isinstance(v, SStr) and x.conversion in (-1, 115) and spec == "":
                    parts.append(v)
                elif isinstance(v, SEnum) and v.strlike and spec == "":
                    parts.append(v.concretise().value)
                elif isinstance(v, SInt) and x.conversion in (-1, 115) and spec == "":
                    parts.append(self.int_to_str(v))
                else:
                    opaque = True
            else:
                r = self.str_of(v, x.conversion, spec)
                if isinstance(r, Opaque):
                    opaque = True
                else:
                    parts.append(r)
        if opaque:
            return Opaque("f-string")
        r = ""
        for p in parts:
            r = r + p if not isinstance(r, SVal) else self.native(operator.add, r, p)
        return r

    def format_text(self, template, args, kwargs):
        """template.format(...) of strings and numbers, with plain fields only; else None."""
        import string

        r, i = "", 0
        for text, field, spec, conv in string.Formatter().parse(template):
            parts = [text]
            if field is not None:
                if spec or conv or not (field == "" or field.isdigit() or field in kwargs):
                    return None
                v = force(kwargs[field] if field in kwargs else args[int(field) if field else i] if (int(field) if field else i) < len(args) else None)
                i += field == ""
                if isinstance(v, SInt) and not isinstance(v, bool):
                    v = self.int_to_str(v)
                elif isinstance(v, SEnum) and v.strlike:
                    v = v.concretise().value
                elif not isinstance(v, (SStr, str, int)) or isinstance(v, (bool, enum.Enum)):
                    return None
                parts.append(v if isinstance(v, (SStr, str)) else str(v))
            for x in parts:
                r = r + x if not isinstance(r, SVal) and not isinstance(x, SVal) else self.native(operator.add, r, x)
        return r

    def int_to_str(self, v):
        return SStr(cur().uf("int_str", z3.IntSort(), z3.StringSort())(zi(v)))

    def str_of(self, v, conv=-1, spec=""):
        """str()/format() of a concrete-looking value; objects with interpreted __str__ or symbolic state are opaque."""
        t = type(v)
        if isinstance(v, BaseException):
            return Opaque("message") if any(isinstance(a, SVal) for a in v.args) or is_kasa(self.type_lookup(t, "__str__")) or is_kasa(self.type_lookup(t, "__repr__")) else self.native(format, v if conv == -1 else repr(v) if conv == 114 else str(v), spec)
        for nm in ("__str__", "__repr__", "__format__"):
            m = self.type_lookup(t, nm)
            if is_kasa(m) and not isinstance(v, enum.Enum):
                if cur().S.texts and nm != "__format__" and spec == "" and (nm == "__repr__" or conv != 114):
                    return self.call(m, (v,), {})
                return Opaque("str(object)")
        if hasattr(v, "__dict__") and t.__module__.split(".")[0] == "kasa" and not isinstance(v, (enum.Enum, type)):
            return Opaque("repr(object)")
        if conv == 114:
            v = self.native(repr, v)
        elif conv == 115:
            v = self.native(str, v)
        elif conv == 97:
            v = self.native(ascii, v)
        return self.native(format, v, spec)

    def ev_FormattedValue(self, n, fr):
        return self.ev_JoinedStr(ast.JoinedStr(values=[n]), fr)

    def ev_Call(self, n, fr):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f.parent is not None and f.first is None:
                f = f.parent
            cls = self.lookup("__class__", f)
            return super(cls, f.vars[f.first])
        f = self.ev(n.func, fr)
        args = self.elts(n.args, fr)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                src = force(self.ev(k.value, fr))
                if isinstance(src, SDict):
                    src.settle()
                kw.update(src)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if f is locals or f is globals or f is eval or f is exec or f is vars and not args:
            raise Unsupported(f"{f.__name__}()")
        return self.call(f, tuple(args), kw)

    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(rn, fr)
            r = self.compare(op, left, right)
            if i == len(n.ops) - 1:
                if res is True:
                    return r
                return r
            if not self.truth(r):
                return False if isinstance(r, (bool, SBool)) else r
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return s_not(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return s_not(r) if isinstance(op, ast.NotIn) else r
        a, b = force(a), force(b)
        if isinstance(op, ast.Eq):
            return self.cmp_eq(a, b)
        if isinstance(op, ast.NotEq):
            for x, y in ((a, b), (b, a)):
                m = self.type_lookup(type(x), "__ne__") if not isinstance(x, SVal) else None
                if is_kasa(m):
                    return self.call_function(m, (x, y), {})
            r = self.cmp_eq(a, b)
            return s_not(r)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison of opaque values")
        return self.native(CMPS[type(op)], a, b)

    def cmp_eq(self, a, b):
        a, b = force(a), force(b)
        if a is b and isinstance(a, (list, dict, tuple, SSeq)):
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SVal):
                continue
            m = self.type_lookup(type(x), "__eq__")
            if is_kasa(m):
                r = self.call_function(m, (x, y), {})
                if r is not NotImplemented:
                    return r
        if isinstance(a, (list, tuple, dict)) and has_sym(a) or isinstance(b, (list, tuple, dict)) and has_sym(b):
            from .ctx import deep_eq

            return deep_eq(a, b)
        return self.native(operator.eq, a, b)

    def is_(self, a, b):
        a, b = force(a), force(b)
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Poison):
                raise Unsupported(f"identity of unknown value ({x.why})")
            if isinstance(x, SBool) and isinstance(y, (bool, SBool)):
                return x == y
            if isinstance(x, SEnum) and isinstance(y, (enum.Enum, SEnum)):
                return x == y if (y.cls if isinstance(y, SEnum) else type(y)) is x.cls else False
            if isinstance(x, SVal):
                if y is None or isinstance(y, (bool, type)):
                    return False
                if isinstance(y, SVal) or isinstance(y, (int, str, bytes, float)):
                    if not isinstance(x, Opaque) and getattr(x, "pytype", None) is not (y.pytype if isinstance(y, SVal) else type(y)):
                        return False
                    raise Unsupported("identity of symbolic values")
                return False
        return False

    def contains(self, c, x):
        c, x = force(c), force(x)
        if isinstance(c, SStr):
            return self.native(c.s_contains, x)
        if isinstance(c, (SDict, SMap)):
            return self.native(operator.contains, c, x)
        if isinstance(c, SVal):
            raise Unsupported(f"'in' on symbolic {c.kind}")
        m = self.type_lookup(type(c), "__contains__")
        if is_kasa(m):
            return self.truth(self.call_function(m, (c, x), {}))
        if isinstance(x, SVal):
            if getattr(type(c), "symbolic_lookup", False):
                return m(c, x)
            if isinstance(c, str):
                return self.native(SStr(zs(c)).s_contains, x)
            if isinstance(c, type) and issubclass(c, enum.Enum):
                return s_or(*[self.native(operator.eq, x, m) for m in c])
            if isinstance(c, type(SMART := {}.keys())) or isinstance(c, (list, tuple, set, frozenset, dict)) or hasattr(c, "__iter__"):
                rs = [self.native(operator.eq, x, y) for y in list(c)]
                return s_or(*[False if r is NotImplemented else r for r in rs])
            raise Unsupported(f"symbolic in {type(c).__name__}")
        if isinstance(c, (list, tuple)) and has_sym(c):
            rs = []
            for y in c:
                if y is x:
                    return True
                r = self.cmp_eq(force(y), x)
                rs.append(r)
            return s_or(*rs)
        return self.native(operator.contains, c, x)

    # ---------------------------------------------------------------- comprehensions
    def comp(self, n, fr, emit):
        def rec(i, f):
            if i == len(n.generators):
                emit(f)
                return
            g = n.generators[i]
            it = force(self.ev(g.iter, fr if i == 0 else f))
            if isinstance(it, SVal):
                raise Unsupported("comprehension over a symbolic sequence")
            if g.is_async:
                raise Unsupported("async comprehension")
            for v in self.gen_iter(it):
                self.assign(g.target, v, f)
                if all(self.truth(self.ev(t, f)) for t in g.ifs):
                    rec(i + 1, f)

        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        f = Frame(fr.fn, fr, fr.name, names)
        rec(0, f)

    def gen_iter(self, it):
        itr = self.iter_native(it)
        while True:
            try:
                v = self.native(next, itr)
            except ProgExc as p:
                if isinstance(p.exc, StopIteration):
                    return
                raise
            yield v

    def sym_comp(self, n, fr, what):
        """Pointwise map over a symbolic sequence, when there is one generator and no filter."""
        if len(n.generators) != 1 or n.generators[0].ifs:
            return None
        g = n.generators[0]
        it = force(self.ev(g.iter, fr))
        if not isinstance(it, SSeq):
            return ("iter", it)
        names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}

        def elem(k):
            f = Frame(fr.fn, fr, fr.name, names)
            self.assign(g.target, it.at(k), f)
            return self.ev(n.elt, f)

        # exceptions and side effects of the element expression: evaluate one arbitrary element now
        k = cur().fresh_int("compk")
        c = cur()
        if c.branch(zi(it.n) > 0):
            c.add(z3.And(k >= 0, k < zi(it.n)))
            elem(SInt(k))
        return ("seq", SSeq(f"map({it.name})", it.n, elem))

    def _has_symiter(self, n, fr):
        return None

    def ev_ListComp(self, n, fr):
        r = self.first_iter(n, fr)
        if isinstance(r[1], SSeq) and r[0]:
            return self.map_seq(n, fr, r[1])
        out = []
        self.comp_from(n, fr, r[1], lambda f: out.append(self.ev(n.elt, f)))
        return out

    def first_iter(self, n, fr):
        it = force(self.ev(n.generators[0].iter, fr))
        simple = len(n.generators) == 1 and not n.generators[0].ifs
        return simple, it

    def map_seq(self, n, fr, it):
        g = n.generators[0]
        names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}

        def elem(k):
            f = Frame(fr.fn, fr, fr.name, names)
            self.assign(g.target, it.at(k), f)
            return self.ev(n.elt, f)

        c = cur()
        k = c.fresh_int("compk")
        if c.branch(zi(it.n) > 0):
            c.add(z3.And(k >= 0, k < zi(it.n)))
            elem(SInt(k))
        return SSeq(f"map({it.name})", it.n, elem, root=it.root)

    def comp_from(self, n, fr, it0, emit):
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        f = Frame(fr.fn, fr, fr.name, names)

        def rec(i, it):
            g = n.generators[i]
            if isinstance(it, SVal):
                raise Unsupported(f"comprehension over a symbolic {it.kind}")
            if g.is_async:
                raise Unsupported("async comprehension")
            for v in self.gen_iter(it):
                self.S.step(cur())
                self.assign(g.target, v, f)
                if all(self.truth(self.ev(t, f)) for t in g.ifs):
                    if i + 1 == len(n.generators):
                        emit(f)
                    else:
                        rec(i + 1, force(self.ev(n.generators[i + 1].iter, f)))

        rec(0, it0)

    def ev_SetComp(self, n, fr):
        out = set()
        self.comp_from(n, fr, self.first_iter(n, fr)[1], lambda f: out.add(self.ev(n.elt, f)))
        return out

    def ev_DictComp(self, n, fr):
        out = {}
        simple, it0 = self.first_iter(n, fr)
        if simple and isinstance(it0, SSeq):
            pair = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
            return SMap(self.map_seq(types.SimpleNamespace(generators=n.generators, elt=pair), fr, it0), it0)

        def emit(f):
            k = force(self.ev(n.key, f))
            v = self.ev(n.value, f)
            if isinstance(k, SEnum):
                k = k.concretise()
            if isinstance(k, SVal):
                for x in out:
                    e = self.native(operator.eq, k, x)
                    if self.truth(e):
                        out[x] = v
                        return
                out[SymKey(k)] = v
                raise Unsupported("symbolic key in a dict comprehension")
            self.native(operator.setitem, out, k, v)

        self.comp_from(n, fr, it0, emit)
        return out

    def ev_GeneratorExp(self, n, fr):
        simple, it = self.first_iter(n, fr)
        if isinstance(it, SSeq):
            return SymGen(self, n, fr, it)
        if isinstance(it, SVal):
            raise Unsupported(f"generator over a symbolic {it.kind}")
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        f = Frame(fr.fn, fr, fr.name, names)
        interp = self

        def rec(i, it):
            g = n.generators[i]
            if g.is_async:
                raise Unsupported("async generator expression")
            for v in interp.gen_iter(it):
                interp.assign(g.target, v, f)
                if all(interp.truth(interp.ev(t, f)) for t in g.ifs):
                    if i + 1 == len(n.generators):
                        yield interp.ev(n.elt, f)
                    else:
                        yield from rec(i + 1, force(interp.ev(n.generators[i + 1].iter, f)))

        return rec(0, it)


class SymGen(SVal):
    """A generator expression over a symbolic sequence."""

    __slots__ = ("interp", "node", "fr", "src")
    kind = "generator"

    def __init__(self, interp, node, fr, src):
        self.interp, self.node, self.fr, self.src = interp, node, fr, src

    def __repr__(self):
        return "<symgen>"

    def point(self, k):
        """(whether the element at k passes the filters, its value)"""
        I, n = self.interp, self.node
        g = n.generators[0]
        names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        if len(n.generators) != 1 or g.is_async:
            raise Unsupported("generator over a symbolic sequence")
        # it is looked at again later: it may only speak of the element and of globals
        parts = [x for t in (n.elt, *g.ifs) for x in ast.walk(t)]
        used = {x.id for x in parts if isinstance(x, ast.Name)} - names - {x.target.id for x in parts if isinstance(x, ast.NamedExpr)}
        up = self.fr
        while up is not None:
            if used & (set(up.locals) | set(up.vars)):
                raise Unsupported("generator over a symbolic sequence")
            up = up.parent
        f = Frame(self.fr.fn, self.fr, self.fr.name, names)
        I.assign(g.target, self.src.at(k), f)
        if not all(I.truth(I.ev(t, f)) for t in g.ifs):
            return False, None
        return True, I.ev(n.elt, f)


class SymIter(SVal):
    """enumerate()/zip()-like view of a symbolic sequence."""

    __slots__ = ("src", "mk", "name")
    kind = "iterator"

    def __init__(self, src, mk, name):
        self.src, self.mk, self.name = src, mk, name

    def __repr__(self):
        return f"<symiter {self.name}>"


class SymKey:
    def __init__(self, k):
        self.k = k


class SymKeyDict(dict):
    """A one-entry dict display whose key is symbolic (a request built around a computed name)."""

    def __init__(self, k, v):
        super().__init__()
        dict.__setitem__(self, SymKeyWrap(k), v)
        self.kv = (k, v)

    def keys(self):
        return [self.kv[0]]

    def items(self):
        return [self.kv]

    def values(self):
        return [self.kv[1]]

    def __iter__(self):
        return iter([self.kv[0]])

    def __getitem__(self, k):
        if k is self.kv[0]:
            return self.kv[1]
        r = self.kv[0] == k
        if r is True or (isinstance(r, SBool) and bool(r)):
            return self.kv[1]
        raise KeyError(k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        r = self.kv[0] == k
        return bool(r)

    def __setitem__(self, k, v):
        raise Unsupported("store into a dict with a symbolic key")


class SymKeyWrap:
    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return id(self)


class AsyncGen:
    def __init__(self, interp, run, name):
        self.interp, self.run, self.name = interp, run, name
        self.items = None

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.items is None:
            try:
                self.items = list(self.run())
            except ProgExc as p:
                raise p.exc
        if not self.items:
            raise StopAsyncIteration
        return self.items.pop(0)


_OPN = {
    ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__", ast.BitAnd: "__and__",
    ast.Mod: "__mod__", ast.Div: "__truediv__",
}
