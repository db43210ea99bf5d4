"""Models of builtins and library functions on symbolic arguments (the verifier's trusted library theory)."""
from __future__ import annotations

import asyncio
import base64
import urllib.parse
import collections
import copy
import dataclasses
import datetime
import contextlib
import enum
import functools
import hashlib
import inspect
import io
import itertools
import json as stdjson
import logging
import math
import operator
import pprint
import struct
import sys
import time
import types
import typing
import warnings

import z3

from . import values as V
from .values import (
    BYTES, EngineSignal, PathEnd, Poison, ProgExc, SBool, SBytes, SDict, SEnum, SFloat, SInt, SRange, SSeq, SStr, SUnion,
    SVal, Unsupported, cur, force, has_sym, mkbool, mkint, mkreal, mkstr, s_and, s_not, s_or, zbytes, zi, zr, zs,
)


def pytype_of(v):
    v = force(v)
    if isinstance(v, SVal):
        if v.kind == "opaque":
            raise Unsupported(f"type of opaque {v}")
        if v.kind == "unknown":
            raise Unsupported("type of unknown value")
        return v.pytype
    return type(v)


def install(it):
    from .interp import BMeth, Closure, Opaque, SCoro, SymGen, SymIter, is_kasa

    M = it.models

    def model(*fs):
        def deco(g):
            for f in fs:
                M[f] = g
            return g

        return deco

    @model(isinstance)
    def m_isinstance(I, o, cls):
        o = force(o)
        if isinstance(o, SVal):
            if isinstance(cls, tuple):
                return any(m_isinstance(I, o, c) for c in cls)
            if typing.get_origin(cls) is not None or hasattr(cls, "__args__"):
                return any(m_isinstance(I, o, c) for c in typing.get_args(cls))
            if o.kind == "opaque" and cls is str:
                return True
            return issubclass(pytype_of(o), cls)
        return isinstance(o, cls)

    @model(type)
    def m_type(I, *a):
        if len(a) == 1:
            return pytype_of(a[0])
        return type(*a)

    @model(len)
    def m_len(I, o):
        o = force(o)
        if isinstance(o, SVal):
            if hasattr(o, "s_len"):
                return o.s_len()
            raise TypeError(f"object of type '{o.kind}' has no len()")
        m = I.type_lookup(type(o), "__len__")
        if is_kasa(m):
            return I.call_function(m, (o,), {})
        return len(o)

    @model(bool)
    def m_bool(I, o=False):
        o = force(o)
        if isinstance(o, SBool):
            return o
        if isinstance(o, (SInt, SFloat)):
            return o != 0
        if isinstance(o, (SStr, SBytes)):
            return o.s_len() > 0
        return I.truth(o)

    @model(int)
    def m_int(I, o=0, base=None):
        o = force(o)
        if base is not None:
            if isinstance(o, SVal):
                raise Unsupported("int(str, base) of a symbolic string")
            return int(o, base)
        if isinstance(o, SStr):
            c = cur()
            ok = c.uf("int_parsable", z3.StringSort(), z3.BoolSort())(o.e)
            if not c.branch(ok):
                raise ValueError("invalid literal for int() with base 10")
            return SInt(c.uf("int_of_str", z3.StringSort(), z3.IntSort())(o.e))
        if isinstance(o, SFloat):
            r = o.e
            return mkint(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
        if isinstance(o, SVal):
            i = zi(o)
            if i is None:
                raise TypeError("int() argument must be a string, a bytes-like object or a real number")
            return mkint(i)
        return int(o)

    @model(float)
    def m_float(I, o=0.0):
        o = force(o)
        if isinstance(o, SStr):
            raise Unsupported("float(symbolic str)")
        if isinstance(o, SVal):
            r = zr(o)
            if r is None:
                raise TypeError("float() argument must be a string or a real number")
            return SFloat(z3.simplify(r))
        return float(o)

    @model(str)
    def m_str(I, *a, **k):
        if not a:
            return ""
        o = force(a[0])
        if len(a) > 1:
            if isinstance(o, SBytes):
                return o.decode()
            return str(*a, **k)
        if isinstance(o, SStr):
            return o
        if isinstance(o, SInt):
            return I.int_to_str(o)
        if isinstance(o, SEnum) and o.strlike:
            return o.concretise().value
        if isinstance(o, SVal) or has_sym(o):
            return Opaque("str()")
        return I.str_of(o, 115)

    @model(repr)
    def m_repr(I, o):
        o = force(o)
        if isinstance(o, SVal) or has_sym(o):
            return Opaque("repr()")
        return I.str_of(o, 114)

    @model(format)
    def m_format(I, o, spec=""):
        o = force(o)
        if isinstance(o, SVal):
            return Opaque("format()")
        return format(o, spec)

    @model(pprint.pformat)
    def m_pf(I, o, *a, **k):
        return Opaque("pformat()") if has_sym(o) else pprint.pformat(o, *a, **k)

    @model(print)
    def m_print(I, *a, **k):
        if isinstance(sys.stdout, io.StringIO) and not has_sym(a):  # a contract looks at what is printed
            print(*a, **k)

    @model(warnings.warn)
    def m_none(I, *a, **k):
        return None

    @model(getattr)
    def m_getattr(I, o, name, *d):
        name = force(name)
        if isinstance(name, SVal):
            raise Unsupported("getattr with a symbolic name")
        try:
            return I.getattr(o, name)
        except ProgExc as p:
            if d and isinstance(p.exc, AttributeError):
                return d[0]
            raise

    @model(hasattr)
    def m_hasattr(I, o, name):
        try:
            I.getattr(o, name)
            return True
        except ProgExc as p:
            if isinstance(p.exc, AttributeError):
                return False
            raise

    @model(setattr)
    def m_setattr(I, o, name, v):
        I.setattr(o, name, v)

    @model(callable)
    def m_callable(I, o):
        o = force(o)
        return False if isinstance(o, SVal) else callable(o)

    @model(range)
    def m_range(I, *a):
        a = [force(x) for x in a]
        if not any(isinstance(x, SVal) for x in a):
            return range(*a)
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        for x in (start, stop, step):
            if zi(x) is None:
                raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(step, SVal):
            return SRangeSym(start, stop, step)
        return SRange(start, stop, step)

    def SRangeSym(start, stop, step):
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        # a concrete start and stop with a small number of positions: enumerate the step's effect
        if isinstance(start, int) and isinstance(stop, int) and bool(step > 0):
            n = stop - start
            if n <= 0:
                return range(start, stop)
            if n <= 6:
                c = cur()
                conds = [zi(step) == k for k in range(1, n)] + [zi(step) >= n]
                i = c.decide(conds, "range step")
                return range(start, stop, i + 1)
        raise Unsupported("range with a symbolic step")

    @model(enumerate)
    def m_enumerate(I, x, start=0):
        x = force(x)
        if isinstance(x, SSeq):
            return SSeq(f"enumerate({x.name})", x.n, lambda k: (k + start, x.at(k)))
        if isinstance(x, SRange):
            raise Unsupported("enumerate(symbolic range)")
        return enumerate(I.iter_native(x), start)

    @model(zip)
    def m_zip(I, *xs, **k):
        xs = [force(x) for x in xs]
        if any(isinstance(x, SVal) for x in xs):
            if all(isinstance(x, SSeq) for x in xs) and len({id(x.n) for x in xs}) == 1:
                return SSeq("zip", xs[0].n, lambda kk: tuple(x.at(kk) for x in xs))
            raise Unsupported("zip of symbolic sequences")
        return zip(*[I.iter_native(x) for x in xs], **k)

    @model(list, tuple)
    def m_list(I, x=()):
        raise AssertionError

    def mk_seqctor(cls):
        def ctor(I, x=()):
            x = force(x)
            if isinstance(x, SSeq):
                return x
            if isinstance(x, SymGen):
                r = I.map_seq(x.node, x.fr, x.src) if not x.node.generators[0].ifs and len(x.node.generators) == 1 else None
                if r is None:
                    raise Unsupported("filtered generator over a symbolic sequence")
                return r
            if isinstance(x, SVal):
                raise Unsupported(f"{cls.__name__}() of a symbolic {x.kind}")
            if isinstance(x, SDict):
                return cls(x.keys())
            return cls(I.iter_native(x))

        return ctor

    M[list] = mk_seqctor(list)
    M[tuple] = mk_seqctor(tuple)
    M[set] = mk_seqctor(set)
    M[frozenset] = mk_seqctor(frozenset)

    @model(dict)
    def m_dict(I, *a, **k):
        a = [force(x) for x in a]
        for x in a:
            if isinstance(x, SDict):
                x.settle()
            if isinstance(x, SVal):
                raise Unsupported("dict() of a symbolic sequence")
        return dict(*a, **k)

    def pointwise(x):
        """(the sequence, what is at its place k: whether there is a value, and the value)"""
        if isinstance(x, SymGen):
            return x.src, x.point
        return x, lambda k: (True, x.at(k))

    def witness(I, src, holds):
        """A place where holds() does, or None and it holds nowhere."""
        c = cur()
        n = zi(src.n)
        if not c.branch(n > 0):
            return None
        e = c.fresh_int("witness")
        c.add(z3.And(e >= 0, e < n))
        try:
            if holds(SInt(e)):
                return SInt(e)
        except ProgExc as ex:
            raise Unsupported("a failing element of a symbolic sequence") from ex

        def nowhere(j):
            if holds(j):
                raise PathEnd()

        src.all_are(nowhere)
        return None

    @model(min, max)
    def m_minmax_(I, *a, **k):
        raise AssertionError

    def mk_minmax(f, op):
        def mm(I, *a, **k):
            a = [force(x) for x in a]
            if len(a) == 1 and isinstance(a[0], (SSeq, SymGen)) and not set(k) - {"default"}:
                src, point = pointwise(a[0])
                w = witness(I, src, lambda i: point(i)[0])
                if w is None:
                    return f([], **k)
                best = force(point(w)[1])

                def no_better(j):
                    ok, v = point(j)
                    if ok and I.truth(I.native(op, force(v), best)):
                        raise PathEnd()

                src.all_are(no_better)
                return best
            if len(a) == 1 and isinstance(a[0], SVal):
                raise Unsupported("min/max of a symbolic sequence")
            xs = [force(x) for x in (a[0] if len(a) == 1 else a)]
            if k.get("key") is not None:
                key = k["key"]
                if isinstance(key, Closure) or is_kasa(key):
                    kf = lambda v: I.call(key, (v,), {})
                else:
                    kf = key
                return f(xs, **{**k, "key": kf})
            if any(isinstance(x, SVal) for x in xs):
                if all(zi(x) is not None for x in xs):
                    r = zi(xs[0])
                    for x in xs[1:]:
                        y = zi(x)
                        r = z3.If(y < r, y, r) if f is min else z3.If(y > r, y, r)
                    return mkint(r)
            return f(xs, **k)

        return mm

    M[min] = mk_minmax(min, operator.lt)
    M[max] = mk_minmax(max, operator.gt)

    @model(sum)
    def m_sum(I, x, start=0):
        x = force(x)
        if isinstance(x, (SSeq, SymGen)):
            src, point = pointwise(x)
            c = cur()
            if not c.branch(zi(src.n) > 0):
                return start
            e = c.fresh_int("summand")
            c.add(z3.And(e >= 0, e < zi(src.n)))
            ok, v = point(SInt(e))
            if start != 0 or ok and not isinstance(force(v), (float, SFloat)):
                raise Unsupported("sum of a symbolic sequence")
            r = SFloat(z3.Real(f"sum!{c._occ('!sum')}"))
            c.sums[str(r.e)] = point
            return r
        r = start
        for v in I.gen_iter(x):
            r = I.native(operator.add, r, force(v))
        return r

    def quant(is_any):
        def q(I, x):
            x = force(x)
            if isinstance(x, (SSeq, SymGen)):
                src, point = pointwise(x)

                def holds(k):
                    ok, v = point(k)
                    return ok and I.truth(v) == is_any

                return (witness(I, src, holds) is not None) == is_any
            for v in I.gen_iter(x):
                t = I.truth(v)
                if t == is_any:
                    return is_any
            return not is_any

        return q

    M[any] = quant(True)
    M[all] = quant(False)

    @model(sorted)
    def m_sorted(I, x, key=None, reverse=False):
        x = force(x)
        if isinstance(x, SVal):
            raise Unsupported("sorted of a symbolic sequence")
        kf = None
        if key is not None:
            kf = lambda v: I.call(key, (v,), {})
        return sorted(list(I.iter_native(x)), key=kf, reverse=reverse)

    @model(map)
    def m_map(I, f, *xs):
        def gen():
            for t in zip(*[I.gen_iter(force(x)) for x in xs]):
                yield I.call(f, t, {})

        return gen()

    @model(filter)
    def m_filter(I, f, x):
        def gen():
            for v in I.gen_iter(force(x)):
                if I.truth(v if f is None else I.call(f, (v,), {})):
                    yield v

        return gen()

    @model(reversed)
    def m_reversed(I, x):
        x = force(x)
        if isinstance(x, SSeq):
            return SSeq(f"reversed({x.name})", x.n, lambda k: x.at(x.n - 1 - k))
        if isinstance(x, SVal):
            raise Unsupported("reversed of a symbolic value")
        return reversed(x)

    @model(next)
    def m_next(I, x, *d):
        x = force(x)
        if isinstance(x, SVal):
            raise Unsupported("next of a symbolic sequence")
        return next(x, *d)

    @model(iter)
    def m_iter(I, x, *a):
        if a:
            raise Unsupported("iter(callable, sentinel)")
        return I.iter_native(x)

    @model(round)
    def m_round(I, x, n=None):
        x = force(x)
        if isinstance(x, SVal):
            return V.s_round(x, force(n))
        return round(x, n) if n is not None else round(x)

    @model(abs)
    def m_abs(I, x):
        return abs(force(x))

    @model(pow)
    def m_pow(I, a, b, *c):
        return pow(force(a), force(b), *c)

    @model(chr)
    def m_chr(I, x):
        if isinstance(force(x), SVal):
            raise Unsupported("chr")
        return chr(x)

    @model(ord)
    def m_ord(I, x):
        if isinstance(force(x), SVal):
            raise Unsupported("ord")
        return ord(x)

    @model(hash)
    def m_hash(I, x):
        raise Unsupported("hash()")

    @model(id)
    def m_id(I, x):
        return id(x)

    @model(divmod)
    def m_divmod(I, a, b):
        return divmod(force(a), force(b))

    @model(bytes)
    def m_bytes(I, x=b"", *a):
        x = force(x)
        if isinstance(x, SBytes):
            return x
        if isinstance(x, SStr):
            return x.encode()
        if isinstance(x, SSeq):
            # an unbounded sequence of integers: a fresh byte string described element by element on demand
            c = cur()
            j = c.fresh_int("j")
            v = x.at(SInt(j))
            if zi(v) is None:
                raise TypeError("cannot convert to bytes")
            if not c.proves(mkbool(z3.Implies(z3.And(j >= 0, j < zi(x.n)), z3.And(zi(v) >= 0, zi(v) < 256)))):
                raise Unsupported("bytes() of unbounded values not known to be bytes")
            e = z3.Const(f"bytes!{c._occ('!bytesof')}", BYTES)
            c.add(z3.Length(e) == zi(x.n))
            c.notes.setdefault("byte_defs", []).append((e, x))
            return SBytes(e)
        if isinstance(x, SVal):
            raise Unsupported("bytes() of symbolic")
        if isinstance(x, (bytes, bytearray, str, int)):
            return bytes(x, *a)
        xs = list(I.iter_native(x))
        if any(isinstance(v, SVal) for v in xs):
            r = z3.Empty(BYTES)
            us = []
            for v in xs:
                b = V.as_bv8(v)
                if b is None:
                    if zi(v) is None:
                        raise TypeError("cannot convert to bytes")
                    if not mkbool(z3.And(zi(v) >= 0, zi(v) < 256)):
                        raise ValueError("bytes must be in range(0, 256)")
                    b = z3.Int2BV(zi(v), 8)
                us.append(z3.Unit(b))
            return SBytes(us[0] if len(us) == 1 else z3.Concat(*us))
        return bytes(xs)

    # -- classes / functools ------------------------------------------------------
    @model(issubclass)
    def m_issubclass(I, a, b):
        return issubclass(force(a), b)

    @model(typing.cast)
    def m_cast(I, t, v):
        return v

    @model(copy.deepcopy)
    def m_deepcopy(I, v, *a):
        return structural_copy(v)

    @model(copy.copy)
    def m_copy(I, v):
        v = force(v)
        if isinstance(v, SVal):
            return v
        if type(v) in (list, dict, set):
            return type(v)(v)
        return copy.copy(v)

    @model(functools.wraps)
    def m_wraps(I, f, *a, **k):
        return lambda g: g

    @model(dataclasses.replace)
    def m_replace(I, obj, **ch):
        cls = type(obj)
        vals = {f.name: I.getattr(obj, f.name) for f in dataclasses.fields(cls) if f.init}
        vals.update(ch)
        return I.dataclass_new(cls, (), vals)

    @model(dataclasses.asdict)
    def m_asdict(I, obj, **k):
        return {f.name: structural_copy(I.getattr(obj, f.name)) for f in dataclasses.fields(obj)}

    def plain(f):
        """A local function that uses no variable of its surroundings, as the function it is when run natively."""
        if not isinstance(f, Closure):
            return f
        codes = [f.frame.fn.__code__]
        while codes:
            k = codes.pop()
            for x in k.co_consts:
                if isinstance(x, types.CodeType):
                    if x.co_name == f.__name__ and f.node.lineno <= x.co_firstlineno + len(f.node.decorator_list) and x.co_firstlineno <= f.node.lineno and not x.co_freevars and not f.defaults:
                        return types.FunctionType(x, f.frame.fn.__globals__, f.__name__)
                    codes.append(x)
        raise Unsupported(f"local function {f.__name__} passed to native code")

    for deco in (contextlib.contextmanager, contextlib.asynccontextmanager, functools.singledispatch):
        M[deco] = lambda I, f, deco=deco: deco(plain(f))
    M["plain"] = plain
    M[asyncio.iscoroutinefunction] = lambda I, f: (
        f.is_async if isinstance(f, Closure) else inspect.iscoroutinefunction(f)
    )
    M[inspect.iscoroutinefunction] = M[asyncio.iscoroutinefunction]
    M[inspect.isawaitable] = lambda I, v: isinstance(v, SCoro) or inspect.isawaitable(force(v))
    M[asyncio.iscoroutine] = lambda I, v: isinstance(v, SCoro) or asyncio.iscoroutine(force(v))
    M[inspect.iscoroutine] = M[asyncio.iscoroutine]

    @model(math.isnan)
    def m_isnan(I, v):
        v = force(v)
        return False if isinstance(v, SVal) else math.isnan(v)

    @model(math.isfinite)
    def m_isfinite(I, v):
        v = force(v)
        return True if isinstance(v, SVal) else math.isfinite(v)

    @model(math.isinf)
    def m_isinf(I, v):
        v = force(v)
        return False if isinstance(v, SVal) else math.isinf(v)

    @model(math.floor)
    def m_floor(I, v):
        v = force(v)
        if isinstance(v, SFloat):
            return mkint(z3.ToInt(v.e))
        if isinstance(v, SVal):
            return mkint(zi(v))
        return math.floor(v)

    @model(math.ceil)
    def m_ceil(I, v):
        v = force(v)
        if isinstance(v, SFloat):
            return mkint(-z3.ToInt(-v.e))
        if isinstance(v, SVal):
            return mkint(zi(v))
        return math.ceil(v)

    @model(operator.eq)
    def m_eq(I, a, b):
        return I.cmp_eq(a, b)

    try:
        import aiohttp

        M[aiohttp.ClientTimeout] = lambda I, *a, **k: aiohttp.ClientTimeout(*a, **k)  # a plain record
    except ImportError:
        pass

    # -- bytes / hashes -------------------------------------------------------------
    def digest_model(name, n):
        def h(I, data=b"", **k):
            data = force(data)
            if not isinstance(data, SVal):
                return SHash(name, n, data)
            if not isinstance(data, SBytes):
                raise TypeError("Strings must be encoded before hashing")
            return SHash(name, n, data)

        return h

    for name, n in (("md5", 16), ("sha1", 20), ("sha256", 32)):
        M[getattr(hashlib, name)] = digest_model(name, n)

    def int_from_bytes(I, b, byteorder="big", *, signed=False):
        b = force(b)
        if not isinstance(b, SVal):
            return int.from_bytes(b, byteorder, signed=signed)
        c = cur()
        if byteorder == "big" and c.proves(mkbool(zi(b.s_len()) == 4)):
            v = c.uf(f"unpack_4_{int(signed)}", BYTES, z3.IntSort())(b.e)
            lo, hi = (-(2**31), 2**31) if signed else (0, 2**32)
            c.axiom(z3.And(v >= lo, v < hi))
            c.axiom(c.uf(f"pack_4_{int(signed)}", z3.IntSort(), BYTES)(v) == b.e)
            return SInt(v)
        raise Unsupported("int.from_bytes of unknown length")

    M[int.from_bytes] = int_from_bytes

    def pack_be(v, nbytes, signed, err):
        c = cur()
        i = zi(v)
        if i is None:
            raise err("required argument is not an integer")
        lo, hi = (-(1 << (8 * nbytes - 1)), 1 << (8 * nbytes - 1)) if signed else (0, 1 << (8 * nbytes))
        if not mkbool(z3.And(i >= lo, i < hi)):
            raise err("argument out of range")
        # functional: the same integer packs to the same bytes; the bytes themselves are only defined when looked at
        r = c.uf(f"pack_{nbytes}_{int(signed)}", z3.IntSort(), BYTES)(z3.simplify(i))
        if r.get_id() not in c.notes.setdefault("packed", {}):
            V.set_len(r, nbytes)
            c.axiom(z3.Length(r) == nbytes)
            if nbytes == 4:
                c.axiom(c.uf(f"unpack_4_{int(signed)}", BYTES, z3.IntSort())(r) == i)
            us = []

            def digits():
                if not us:
                    us.extend(z3.BitVec(f"byte!{c._occ('!byte')}", 8) for _ in range(nbytes))
                    u = z3.If(i < 0, i + (1 << (8 * nbytes)), i) if signed else i
                    c.axiom(u == z3.Sum([z3.BV2Int(b) * (256 ** (nbytes - 1 - j)) for j, b in enumerate(us)]))
                    c.axiom(r == z3.Concat(*[z3.Unit(b) for b in us]) if nbytes > 1 else r == z3.Unit(us[0]))
                return us

            c.notes["packed"][r.get_id()] = digits
        return SBytes(r)

    it.pack_be = pack_be
    FM = {">I": (4, False), "!I": (4, False), ">L": (4, False), "!L": (4, False), ">l": (4, True), ">i": (4, True),
          "!i": (4, True), "!l": (4, True), ">H": (2, False), "!H": (2, False), ">h": (2, True), "B": (1, False),
          ">B": (1, False)}

    def m_pack(I, fmt, *vals):
        vals = [force(v) for v in vals]
        if not any(isinstance(v, SVal) for v in vals):
            return struct.pack(fmt, *vals)
        if fmt in FM and len(vals) == 1:
            return pack_be(vals[0], *FM[fmt], struct.error)
        raise Unsupported(f"struct.pack {fmt}")

    M[struct.pack] = m_pack

    def m_unpack(I, fmt, b):
        b = force(b)
        if not isinstance(b, SVal):
            return struct.unpack(fmt, b)
        if fmt in FM and FM[fmt][0] == 4:
            if not (b.s_len() == 4):
                raise struct.error("unpack requires a buffer of 4 bytes")
            return (int_from_bytes(I, b, "big", signed=FM[fmt][1]),)
        raise Unsupported(f"struct.unpack {fmt}")

    M[struct.unpack] = m_unpack
    it.struct_models = {"pack": m_pack, "unpack": m_unpack}

    @model(base64.b64encode)
    def m_b64e(I, b, *a):
        b = force(b)
        if isinstance(b, SVal):
            c = cur()
            t = c.uf("b64text", BYTES, z3.StringSort())(b.e)
            r = V.utf8(t)
            if c.once(("b64", t.get_id()), t):
                c.axiom(c.uf("b64dec", BYTES, BYTES)(r.e) == b.e)
                c.axiom(z3.Length(t) == 4 * ((z3.Length(b.e) + 2) / 3))
            return r
        return base64.b64encode(b, *a)

    @model(base64.b64decode)
    def m_b64d(I, b, *a, **k):
        b = force(b)
        if isinstance(b, SStr):
            b = b.encode()
        if isinstance(b, SVal):
            return SBytes(cur().uf("b64dec", BYTES, BYTES)(b.e))
        return base64.b64decode(b, *a, **k)

    @model(urllib.parse.quote_plus)
    def m_quote_plus(I, x, *a, **k):
        x = force(x)
        if isinstance(x, SStr) and not a and not k:
            return SStr(cur().uf("quote_plus", z3.StringSort(), z3.StringSort())(x.e))
        return urllib.parse.quote_plus(x, *a, **k)

    # -- json -------------------------------------------------------------------------
    import kasa.json as kjson

    def m_dumps(I, obj, *a, **k):
        if has_sym(obj, 8):
            return SJson(obj)
        return kjson.dumps(obj)

    def m_loads(I, s, *a, **k):
        s = force(s)
        if isinstance(s, SBytes) and not isinstance(s, SJson):
            s = s.decode()
        if isinstance(s, SJson):
            return structural_copy(s.obj)
        if isinstance(s, SStr):
            for js in reversed(cur().notes.get("jsons", [])):
                if cur().proves(mkbool(s.e == js.e)):
                    return structural_copy(js.obj)
        if isinstance(s, SVal):
            raise Unsupported("json loads of a symbolic string")
        return kjson.loads(s)

    M[kjson.dumps] = m_dumps
    M[kjson.loads] = m_loads

    # -- cryptography ---------------------------------------------------------------------
    from cryptography.hazmat.primitives import padding as cpad
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    def sym(*vs):
        return any(isinstance(v, SVal) for v in vs)

    class Part:
        def __init__(self, **kw):
            self.__dict__.update(kw)

    @model(algorithms.AES)
    def m_aes(I, key):
        return Part(key=force(key)) if sym(force(key)) else algorithms.AES(key)

    @model(modes.CBC)
    def m_cbc(I, iv):
        return Part(initialization_vector=force(iv)) if sym(force(iv)) else modes.CBC(iv)

    class SCipherW:
        def __init__(self, aes, cbc):
            self.key, self.iv = aes.key, cbc.initialization_vector

        def encryptor(self):
            return Coder(lambda d: cbc_enc(self.key, self.iv, d))

        def decryptor(self):
            return Coder(lambda d: cbc_dec(self.key, self.iv, d))

    class Coder:
        """A one-shot streaming operation: the whole result comes from update, finalize adds nothing."""

        def __init__(self, f):
            self.f, self.used = f, False

        def update(self, d):
            if self.used:
                raise Unsupported("incremental cipher use")
            self.used = True
            return self.f(force(d))

        def finalize(self):
            if not self.used:
                return self.f(b"")
            return b""

    @model(Cipher)
    def m_cipher(I, aes, cbc, backend=None):
        return SCipherW(aes, cbc)

    @model(cpad.PKCS7)
    def m_pkcs7(I, n):
        if force(n) != 128:
            raise Unsupported("padding block size")
        return Part(padder=lambda: Coder(pkcs_pad), unpadder=lambda: Coder(pkcs_unpad))

    it.crypto = Part(enc=cbc_enc, dec=cbc_dec, pad=pkcs_pad, unpad=pkcs_unpad)

    # -- asyncio ------------------------------------------------------------------------
    async def sleep(t, *a):
        c = cur()
        c.event("sleep", t)
        if "sleeps" in c.ghosts:
            c.bump("sleeps")

    M[asyncio.sleep] = lambda I, t, *a: sleep(t)

    class LoopStub:
        """The running event loop as far as library code uses it directly."""

        def run_in_executor(self, ex, f, *a):
            async def g():
                return it.await_if_needed(it.call(f, a, {}))

            return g()

        def time(self):
            return it.call(time.monotonic, (), {})

    M[asyncio.get_running_loop] = lambda I: LoopStub()

    @model(asyncio.gather)
    def m_gather(I, *aws, return_exceptions=False):
        async def g():
            out = []
            for a in aws:
                try:
                    out.append(I.await_(a))
                except ProgExc as p:
                    if not return_exceptions:
                        raise p.exc
                    out.append(p.exc)
            return out

        return g()

    @model(asyncio.wait_for)
    def m_wait_for(I, aw, timeout=None):
        async def g():
            st = cur().notes.setdefault("deadlines", [])
            st.append(timeout)
            try:
                return I.await_(aw)
            except ProgExc as p:
                raise p.exc
            finally:
                st.pop()

        return g()

    class STimeout:
        def __init__(self, t):
            self.t = t

        async def __aenter__(self):
            cur().notes.setdefault("deadlines", []).append(self.t)
            return self

        async def __aexit__(self, *a):
            cur().notes["deadlines"].pop()

    @model(asyncio.timeout)
    def m_timeout(I, delay):
        return STimeout(delay)

    for f in (datetime.datetime.now, ):
        pass


def _native_cbc(key, iv, d, enc):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    x = Cipher(algorithms.AES(key), modes.CBC(iv))
    x = x.encryptor() if enc else x.decryptor()
    return x.update(d) + x.finalize()


def _block_check(d):
    if (d.s_len() % 16 if isinstance(d, SVal) else len(d) % 16) != 0:
        raise ValueError("The length of the provided data is not a multiple of the block length.")


def cbc_enc(key, iv, d):
    _block_check(d)
    if not any(isinstance(v, SVal) for v in (key, iv, d)):
        return _native_cbc(key, iv, d, True)
    c = cur()
    k, i, p = zbytes(key), zbytes(iv), zbytes(d)
    ct = c.uf("aes_cbc_enc", BYTES, BYTES, BYTES, BYTES)(k, i, p)
    c.axiom(z3.Length(ct) == z3.Length(p))
    c.axiom(c.uf("aes_cbc_dec", BYTES, BYTES, BYTES, BYTES)(k, i, ct) == p)
    return SBytes(ct)


def cbc_dec(key, iv, d):
    _block_check(d)
    if not any(isinstance(v, SVal) for v in (key, iv, d)):
        return _native_cbc(key, iv, d, False)
    c = cur()
    k, i, x = zbytes(key), zbytes(iv), zbytes(d)
    p = c.uf("aes_cbc_dec", BYTES, BYTES, BYTES, BYTES)(k, i, x)
    c.axiom(z3.Length(x) == z3.Length(p))
    return SBytes(p)


def pkcs_pad(d):
    if not isinstance(d, SVal):
        from cryptography.hazmat.primitives import padding

        x = padding.PKCS7(128).padder()
        return x.update(d) + x.finalize()
    c = cur()
    p = zbytes(d)
    r = c.uf("pkcs7_pad", BYTES, BYTES)(p)
    c.axiom(z3.Length(r) == (z3.Length(p) / 16 + 1) * 16)
    c.axiom(c.uf("pkcs7_ok", BYTES, z3.BoolSort())(r))
    c.axiom(c.uf("pkcs7_unpad", BYTES, BYTES)(r) == p)
    return SBytes(r)


def pkcs_unpad(d):
    if not isinstance(d, SVal):
        from cryptography.hazmat.primitives import padding

        x = padding.PKCS7(128).unpadder()
        return x.update(d) + x.finalize()
    c = cur()
    p = zbytes(d)
    if not c.branch(c.uf("pkcs7_ok", BYTES, z3.BoolSort())(p)):
        raise ValueError("Invalid padding bytes.")
    return SBytes(c.uf("pkcs7_unpad", BYTES, BYTES)(p))


def structural_copy(v):
    v = force(v)
    if isinstance(v, SDict):
        d = SDict(v.sname, {k: structural_copy(x) for k, x in dict.items(v)}, v.factory, v.maybe)
        d.absent = set(v.absent)
        if v.factory is not None or v.maybe:
            raise Unsupported("deep copy of an open dict")
        return d
    if type(v) is dict:
        return {k: structural_copy(x) for k, x in v.items()}
    if type(v) is list:
        return [structural_copy(x) for x in v]
    if type(v) is tuple:
        return tuple(structural_copy(x) for x in v)
    if isinstance(v, SVal):
        return v
    return copy.deepcopy(v) if not has_sym(getattr(v, "__dict__", {})) else v


class SHash:
    """A hash object over symbolic data; digests are uninterpreted functions of the data."""

    def __init__(self, name, n, data):
        self.name, self.n, self.data = name, n, data

    def update(self, more):
        self.data = self.data + more

    def digest(self):
        c = cur()
        if not isinstance(self.data, SVal):
            return getattr(hashlib, self.name)(self.data).digest()
        r = c.uf(self.name, BYTES, BYTES)(zbytes(self.data))
        if V.known_len(r) is None:
            V.set_len(r, self.n)
            c.axiom(z3.Length(r) == self.n)
        return SBytes(r)

    def hexdigest(self):
        c = cur()
        d = self.digest()
        if isinstance(d, bytes):
            return d.hex()
        r = c.uf("bytes_hex", BYTES, z3.StringSort())(d.e)
        c.axiom(z3.Length(r) == 2 * self.n)
        return SStr(r)


class SJson(SStr):
    """JSON text of a value containing symbolic leaves (kept as the value; text is opaque)."""

    __slots__ = ("obj",)

    def __init__(self, obj):
        c = cur()
        self.obj = structural_copy(obj)
        self.e = z3.String(f"json!{c._occ('!json')}")
        c.notes.setdefault("jsons", []).append(self)
        c.axiom(z3.Length(self.e) > 0)

    __hash__ = SVal.__hash__

    def encode(self, *a):
        return SJsonBytes(self)


class SJsonBytes(SBytes):
    __slots__ = ("js",)

    def __init__(self, js):
        self.js = js
        self.e = V.utf8(js.e).e

    __hash__ = SVal.__hash__

    def decode(self, *a):
        return self.js
