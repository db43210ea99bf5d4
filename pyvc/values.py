"""Symbolic values. Every operator builds a z3 term; truth values fork the current path."""
from __future__ import annotations

import enum
from fractions import Fraction

import functools

import z3


class EngineSignal(BaseException):
    """Control signals of the engine, never visible to the code under verification."""


class Unsupported(EngineSignal):
    """The construct is outside the verifier's reach: the obligation stays undecided."""


class PathEnd(EngineSignal):
    """The current path ends here (assumption false, invariant cut point, infeasible)."""


class ProgExc(EngineSignal):
    """An exception raised by the code under verification, in flight in the interpreter."""

    def __init__(self, exc: BaseException):
        super().__init__(repr(type(exc)))
        self.exc = exc


_CUR = [None]


def cur():
    c = _CUR[0]
    if c is None:
        raise Unsupported("symbolic operation outside of a symbolic run")
    return c


def set_cur(c):
    _CUR[0] = c


BV8 = z3.BitVecSort(8)
BYTES = z3.SeqSort(BV8)


class SVal:
    """Base class of symbolic values."""

    __slots__ = ("e",)
    kind = "?"
    pytype: type = object

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        raise Unsupported(f"hash of a symbolic {self.kind}")

    def __str__(self):
        raise Unsupported(f"native str() of a symbolic {self.kind}")

    def __format__(self, spec):
        raise Unsupported(f"native format() of a symbolic {self.kind}")

    def __repr__(self):
        return f"<{self.kind} {self.e}>"

    def __index__(self):
        raise Unsupported(f"native index of a symbolic {self.kind}")

    def __int__(self):
        raise Unsupported(f"native int() of a symbolic {self.kind}")

    def __float__(self):
        raise Unsupported(f"native float() of a symbolic {self.kind}")

    def __iter__(self):
        raise Unsupported(f"native iteration of a symbolic {self.kind}")

    def __len__(self):
        raise Unsupported(f"native len() of a symbolic {self.kind}")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def is_num(v):
    return isinstance(v, (int, float, Fraction, SInt, SFloat, SBool)) and not isinstance(
        v, enum.Enum
    ) or (isinstance(v, SEnum) and v.intlike) or (isinstance(v, enum.Enum) and isinstance(v, int))


def zi(v):
    """z3 Int term of an int-like value."""
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, SEnum) and v.intlike:
        return v.e
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(int(v))
    return None


def zr(v):
    """z3 Real term of a number; a float is read as the decimal it prints as (0.1 means 1/10)."""
    if isinstance(v, SFloat):
        return v.e
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return z3.RealVal(str(Fraction(repr(v))))
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    i = zi(v)
    if i is not None:
        return z3.ToReal(i)
    return None


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkreal(e):
    return SFloat(z3.simplify(e))


def mkstr(e):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        return pystr(e)
    return SStr(e)


def pystr(e):
    s = e.as_string()
    # z3 escapes non printable characters as \u{hh}
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3 : j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def zstrlit(s: str):
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch != "\\":
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


def zbool(v):
    """z3 Bool of a Python/symbolic boolean (no truthiness conversion)."""
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported(f"not a boolean: {type(v).__name__}")


class SBool(SVal):
    __slots__ = ()
    kind = "bool"
    pytype = bool

    def __bool__(self):
        return cur().branch(self.e)

    __hash__ = SVal.__hash__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == zbool(o))
        return SInt(zi(self)).__eq__(o)

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.And(self.e, zbool(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Or(self.e, zbool(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Xor(self.e, zbool(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        raise Unsupported("~bool")


def s_not(v):
    if v is NotImplemented:
        return v
    if isinstance(v, SBool):
        return mkbool(z3.Not(v.e))
    return not v


def s_and(*vs):
    es = []
    for v in vs:
        if isinstance(v, SBool):
            es.append(v.e)
        elif not v:
            return False
    return mkbool(z3.And(*es)) if es else True


def s_or(*vs):
    es = []
    for v in vs:
        if isinstance(v, SBool):
            es.append(v.e)
        elif v:
            return True
    return mkbool(z3.Or(*es)) if es else False


def s_implies(a, b):
    return s_or(s_not(a), b)


def s_ite(c, a, b):
    if not isinstance(c, SBool):
        return a if c else b
    if zi(a) is not None and zi(b) is not None:
        return mkint(z3.If(c.e, zi(a), zi(b)))
    if zr(a) is not None and zr(b) is not None:
        return mkreal(z3.If(c.e, zr(a), zr(b)))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return mkstr(z3.If(c.e, zs(a), zs(b)))
    return a if c else b


def _nonfinite(o):
    return isinstance(o, float) and (o != o or o in (float("inf"), float("-inf")))


class _Num(SVal):
    __slots__ = ()

    def _bin(self, o, fi, fr, swap=False):
        if _nonfinite(o):
            raise Unsupported("arithmetic with a non-finite float")
        a, b = zi(self), zi(o)
        if a is not None and b is not None:
            return mkint(fi(b, a) if swap else fi(a, b))
        a, b = zr(self), zr(o)
        if a is None or b is None:
            return NotImplemented
        return mkreal(fr(b, a) if swap else fr(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b, True)

    def __neg__(self):
        i = zi(self)
        return mkint(-i) if i is not None else mkreal(-zr(self))

    def __pos__(self):
        i = zi(self)
        return mkint(i) if i is not None else self

    def __abs__(self):
        i = zi(self)
        if i is not None:
            return mkint(z3.If(i >= 0, i, -i))
        r = zr(self)
        return mkreal(z3.If(r >= 0, r, -r))

    def __truediv__(self, o):
        return _div(self, o)

    def __rtruediv__(self, o):
        return _div(o, self)

    def __floordiv__(self, o):
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        return _floordiv(o, self)

    def __mod__(self, o):
        return _mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("% formatting with a symbolic value")
        return _mod(o, self)

    def __divmod__(self, o):
        return (_floordiv(self, o), _mod(self, o))

    def __rdivmod__(self, o):
        return (_floordiv(o, self), _mod(o, self))

    def __pow__(self, o, m=None):
        if m is None and isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        raise Unsupported("symbolic power")

    def _cmp(self, o, op):
        if _nonfinite(o):
            if o != o:
                return False
            # compare with +-inf
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0}[op]
        a, b = zi(self), zi(o)
        if a is None or b is None:
            a, b = zr(self), zr(o)
            if a is None or b is None:
                return NotImplemented
        return mkbool(
            {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
        )

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    __hash__ = SVal.__hash__

    def __eq__(self, o):
        if _nonfinite(o):
            return False
        if not is_num(o):
            return False
        a, b = zi(self), zi(o)
        if a is None or b is None:
            a, b = zr(self), zr(o)
            if a is None or b is None:
                return False
        return mkbool(a == b)

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __bool__(self):
        i = zi(self)
        if i is not None:
            return cur().branch(i != 0)
        return cur().branch(zr(self) != 0)

    def __round__(self, n=None):
        return s_round(self, n)

    def __floor__(self):
        raise Unsupported("floor")


def _zero_check(b):
    """Fork on division by zero; returns normally when b != 0."""
    z = b == 0
    if isinstance(z, SBool):
        z = bool(z)
    if z:
        raise ZeroDivisionError("division by zero")


def _div(a, b):
    if _nonfinite(a) or _nonfinite(b):
        raise Unsupported("arithmetic with a non-finite float")
    x, y = zr(a), zr(b)
    if x is None or y is None:
        return NotImplemented
    _zero_check(b)
    return mkreal(x / y)


def _floordiv(a, b):
    if _nonfinite(a) or _nonfinite(b):
        raise Unsupported("arithmetic with a non-finite float")
    x, y = zi(a), zi(b)
    if x is None or y is None:
        x, y = zr(a), zr(b)
        if x is None or y is None:
            return NotImplemented
        _zero_check(b)
        return mkreal(z3.ToReal(z3.ToInt(x / y)))
    _zero_check(b)
    # z3 integer division is Euclidean; Python's floors
    return mkint(z3.If(y > 0, x / y, (-x) / (-y)))


def _mod(a, b):
    if _nonfinite(a) or _nonfinite(b):
        raise Unsupported("arithmetic with a non-finite float")
    x, y = zi(a), zi(b)
    if x is None or y is None:
        x, y = zr(a), zr(b)
        if x is None or y is None:
            return NotImplemented
        _zero_check(b)
        q = z3.ToReal(z3.ToInt(x / y))
        return mkreal(x - q * y)
    _zero_check(b)
    q = z3.If(y > 0, x / y, (-x) / (-y))
    return mkint(x - q * y)


def s_round(v, n=None):
    c = cur()
    if zi(v) is not None:
        if n is None or (isinstance(n, int) and n >= 0):
            return mkint(zi(v))
        raise Unsupported("round to negative digits")
    if n is None:
        scale = 1
    elif isinstance(n, int):
        scale = 10**n if n >= 0 else Fraction(1, 10**-n)
    else:
        raise Unsupported("round with symbolic digits")
    x = zr(v) * zr(scale)
    x = z3.simplify(x)
    r = c.fresh_int("round")
    c.axiom(z3.And(2 * z3.ToReal(r) >= 2 * x - 1, 2 * z3.ToReal(r) <= 2 * x + 1))
    # ties go to even
    c.axiom(z3.Implies(z3.Or(2 * z3.ToReal(r) == 2 * x - 1, 2 * z3.ToReal(r) == 2 * x + 1), r % 2 == 0))
    if n is None:
        return mkint(r)
    return mkreal(z3.ToReal(r) / zr(scale))


class SInt(_Num):
    __slots__ = ()
    kind = "int"
    pytype = int
    __hash__ = SVal.__hash__

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.e % (o + 1))
        return _bvop(self, o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return _bvop(self, o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return _bvop(self, o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, int) and 0 <= o < 256:
            return mkint(self.e * (1 << o))
        raise Unsupported("symbolic shift")

    def __rshift__(self, o):
        if isinstance(o, int) and 0 <= o < 256:
            return mkint(self.e / (1 << o))
        raise Unsupported("symbolic shift")

    def __invert__(self):
        return mkint(-self.e - 1)


def as_bv8(v):
    """8 bit vector term of a value known to be a byte, or None."""
    if isinstance(v, int) and 0 <= v < 256:
        return z3.BitVecVal(v, 8)
    if isinstance(v, SInt):
        e = v.e
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_BV2INT and e.arg(0).size() == 8:
            return e.arg(0)
    return None


def _bvop(a, b, f):
    x, y = as_bv8(a), as_bv8(b)
    if x is None or y is None:
        raise Unsupported("bit operation on unbounded symbolic integers")
    return SInt(z3.BV2Int(z3.simplify(f(x, y))))


class SFloat(_Num):
    __slots__ = ()
    kind = "float"
    pytype = float
    __hash__ = SVal.__hash__

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))


def zs(v):
    if isinstance(v, SStr):
        return v.e
    if isinstance(v, str):
        return zstrlit(v)
    return None


class SStr(SVal):
    __slots__ = ()
    kind = "str"
    pytype = str
    __hash__ = SVal.__hash__

    def __bool__(self):
        return cur().branch(z3.Length(self.e) > 0)

    def __eq__(self, o):
        if isinstance(o, SEnum) and o.strlike:
            return o.__eq__(self)
        b = zs(o)
        if b is None:
            return False
        return mkbool(self.e == b)

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __add__(self, o):
        b = zs(o)
        if b is None:
            return NotImplemented
        return mkstr(z3.Concat(self.e, b))

    def __radd__(self, o):
        b = zs(o)
        if b is None:
            return NotImplemented
        return mkstr(z3.Concat(b, self.e))

    def __lt__(self, o):
        b = zs(o)
        return NotImplemented if b is None else mkbool(self.e < b)

    def __le__(self, o):
        b = zs(o)
        return NotImplemented if b is None else mkbool(self.e <= b)

    def __gt__(self, o):
        b = zs(o)
        return NotImplemented if b is None else mkbool(b < self.e)

    def __ge__(self, o):
        b = zs(o)
        return NotImplemented if b is None else mkbool(b <= self.e)

    def __mod__(self, o):
        raise Unsupported("% on a symbolic string")

    def __rmod__(self, o):
        raise Unsupported("% formatting with a symbolic value")

    def __mul__(self, o):
        raise Unsupported("repeat of a symbolic string")

    def s_len(self):
        return mkint(z3.Length(self.e))

    def s_contains(self, x):
        b = zs(x)
        if b is None:
            raise TypeError("'in <string>' requires string as left operand")
        return mkbool(z3.Contains(self.e, b))

    def __getitem__(self, k):
        n = z3.Length(self.e)
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                raise Unsupported("slice step on a symbolic string")
            lo, hi = slice_bounds(k, n)
            return mkstr(z3.SubString(self.e, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))))
        i = zi(k)
        if i is None:
            raise TypeError("string indices must be integers")
        i = z3.If(i < 0, i + n, i)
        if not mkbool(z3.And(i >= 0, i < n)):
            raise IndexError("string index out of range")
        return mkstr(z3.SubString(self.e, i, 1))

    # methods
    def startswith(self, x, *a):
        if isinstance(x, tuple):
            return s_or(*[self.startswith(y) for y in x])
        return mkbool(z3.PrefixOf(zs(x), self.e))

    def endswith(self, x, *a):
        if isinstance(x, tuple):
            return s_or(*[self.endswith(y) for y in x])
        return mkbool(z3.SuffixOf(zs(x), self.e))

    def replace(self, a, b, *c):
        raise Unsupported("str.replace on a symbolic string")

    def encode(self, *a):
        return utf8(self.e)

    def __contains__(self, x):
        return bool(mkbool(z3.Contains(self.e, zs(x))))

    def fold(self, how):
        c = cur()
        r = c.uf(how, z3.StringSort(), z3.StringSort())(self.e)
        if c.once((how, r.get_id()), r):
            c.axiom((self.e == z3.StringVal("")) == (r == z3.StringVal(""))) if how != "str_strip" else c.axiom(z3.Length(r) <= z3.Length(self.e))
        return SStr(r)

    def upper(self):
        return self.fold("str_upper")

    def lower(self):
        return self.fold("str_lower")

    def strip(self, *a):
        if a:
            raise Unsupported("strip(chars)")
        return self.fold("str_strip")

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported(f"str.{name} on a symbolic string")
        raise AttributeError(f"'str' object has no attribute '{name}'")


def slice_bounds(k, n):
    def norm(v, dflt):
        if v is None:
            return dflt
        i = zi(v)
        if i is None:
            raise TypeError("slice indices must be integers or None")
        i = z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), z3.If(i > n, n, i))
        return z3.simplify(i)

    return norm(k.start, z3.IntVal(0)), norm(k.stop, n)


def utf8(e):
    c = cur()
    b = c.uf("utf8", z3.StringSort(), BYTES)(e)
    if c.once(("utf8", b.get_id()), b):
        c.axiom(c.uf("utf8_decode", BYTES, z3.StringSort())(b) == e)
        c.axiom(z3.Length(b) >= z3.Length(e))
    return SBytes(b)


def zbytes(v):
    if isinstance(v, SBytes):
        return v.e
    if isinstance(v, (bytes, bytearray)):
        return lit_bytes(bytes(v))
    return None


@functools.lru_cache(4096)
def lit_bytes(v):
    if len(v) == 0:
        return z3.Empty(BYTES)
    us = [z3.Unit(z3.BitVecVal(b, 8)) for b in v]
    return us[0] if len(us) == 1 else z3.Concat(*us)


def set_len(e, n):
    """Record that the byte-string term e has the constant length n."""
    cur().notes.setdefault("lens", {})[e.get_id()] = (e, n)
    return e


def parts_of(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for a in e.children() for p in parts_of(a)]
    return [e]


def known_len(e):
    hit = cur().notes.get("lens", {}).get(e.get_id())
    if hit is not None:
        return hit[1]
    if not z3.is_app(e):
        return None
    k = e.decl().kind()
    if k == z3.Z3_OP_SEQ_UNIT:
        return 1
    if k == z3.Z3_OP_SEQ_EMPTY:
        return 0
    if k == z3.Z3_OP_SEQ_CONCAT:
        ns = [known_len(a) for a in e.children()]
        return None if None in ns else sum(ns)
    return None


def join(ps):
    return SBytes(z3.Empty(BYTES) if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps))


def static_slice(e, lo, hi):
    """e[lo:hi] for constant bounds, by cutting the concatenation at parts of known length."""
    if any(b is not None and not isinstance(b, int) for b in (lo, hi)):
        return None
    lo = lo or 0
    n = known_len(e)
    if n is not None:
        lo, hi, _ = slice(lo, hi).indices(n)
    elif lo < 0 or (hi is not None and hi < 0):
        return None
    out, at = [], 0
    ps = parts_of(e)
    for j, p in enumerate(ps):
        if hi is not None and at >= hi:
            return join(out)
        m = known_len(p)
        if m is None:
            if at >= lo and hi is None:
                return join(out + ps[j:])
            return None
        a, b = max(lo - at, 0), m if hi is None else min(hi - at, m)
        if a < b:
            out.append(p if (a, b) == (0, m) else set_len(z3.SubSeq(p, a, b - a), b - a))
        at += m
    return join(out)


def static_byte(e, k):
    if k < 0:
        n = known_len(e)
        if n is None:
            return None
        k += n
    at = 0
    if k < 0:
        return None
    for p in parts_of(e):
        m = known_len(p)
        if m is None:
            return None
        if k < at + m:
            if p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                return SInt(z3.BV2Int(p.arg(0)))
            packed = cur().notes.get("packed", {}).get(p.get_id())
            if packed is not None:
                return SInt(z3.BV2Int(packed()[k - at]))
            return SInt(z3.BV2Int(p[k - at]))
        at += m
    return None


class SBytes(SVal):
    __slots__ = ()
    kind = "bytes"
    pytype = bytes
    __hash__ = SVal.__hash__

    def __bool__(self):
        return cur().branch(z3.Length(self.e) > 0)

    def __eq__(self, o):
        b = zbytes(o)
        if b is None:
            return False
        return mkbool(self.e == b)

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __add__(self, o):
        b = zbytes(o)
        if b is None:
            return NotImplemented
        return SBytes(z3.simplify(z3.Concat(self.e, b)))

    def __radd__(self, o):
        b = zbytes(o)
        if b is None:
            return NotImplemented
        return SBytes(z3.simplify(z3.Concat(b, self.e)))

    def s_len(self):
        n = known_len(self.e)
        return n if n is not None else mkint(z3.Length(self.e))

    def __getitem__(self, k):
        n = z3.Length(self.e)
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                raise Unsupported("slice step on symbolic bytes")
            r = static_slice(self.e, k.start, k.stop)
            if r is not None:
                return r
            lo, hi = slice_bounds(k, n)
            return SBytes(z3.simplify(z3.SubSeq(self.e, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0)))))
        i = zi(k)
        if i is None:
            raise TypeError("byte indices must be integers or slices")
        if isinstance(k, int):
            r = static_byte(self.e, k)
            if r is not None:
                return r
        i = z3.simplify(z3.If(i < 0, i + n, i))
        if not mkbool(z3.And(i >= 0, i < n)):
            raise IndexError("index out of range")
        return SInt(z3.BV2Int(self.e[i]))

    def hex(self):
        return SStr(cur().uf("bytes_hex", BYTES, z3.StringSort())(self.e))

    def decode(self, *a):
        parts = self.e.children() if z3.is_app_of(self.e, z3.Z3_OP_SEQ_CONCAT) else [self.e]
        flat = []
        while parts:
            p = parts.pop(0)
            if z3.is_app_of(p, z3.Z3_OP_SEQ_CONCAT):
                parts = p.children() + parts
            else:
                flat.append(p)
        if all(z3.is_app(p) and p.decl().name() == "utf8" for p in flat):
            flat = [p.arg(0) for p in flat]
            return SStr(flat[0] if len(flat) == 1 else z3.Concat(*flat))
        return SStr(cur().uf("utf8_decode", BYTES, z3.StringSort())(self.e))

    def startswith(self, x, *a):
        return mkbool(z3.PrefixOf(zbytes(x), self.e))

    def endswith(self, x, *a):
        return mkbool(z3.SuffixOf(zbytes(x), self.e))

    def __getattr__(self, name):
        if hasattr(bytes, name):
            raise Unsupported(f"bytes.{name} on symbolic bytes")
        raise AttributeError(f"'bytes' object has no attribute '{name}'")


class SEnum(SVal):
    """A symbolic member of a concrete Enum class."""

    __slots__ = ("cls",)
    kind = "enum"

    def __init__(self, cls, e):
        self.cls = cls
        self.e = e

    @property
    def pytype(self):
        return self.cls

    @property
    def intlike(self):
        return issubclass(self.cls, int)

    @property
    def strlike(self):
        return issubclass(self.cls, str)

    @staticmethod
    def keyed(cls):
        return all(isinstance(m.value, int) and not isinstance(m.value, bool) for m in cls)

    @staticmethod
    def key(m):
        """Integer key of a concrete member in the encoding of its class."""
        cls = type(m)
        if SEnum.keyed(cls):
            return int(m.value)
        return list(cls).index(m)

    @staticmethod
    def domain(cls, e):
        return z3.Or(*[e == SEnum.key(m) for m in cls])

    __hash__ = SVal.__hash__

    def __eq__(self, o):
        if isinstance(o, SEnum):
            if o.cls is self.cls:
                return mkbool(self.e == o.e)
            return False
        if isinstance(o, enum.Enum):
            if type(o) is self.cls:
                return mkbool(self.e == SEnum.key(o))
            return bool(self.intlike and isinstance(o, int)) and mkbool(self.e == int(o))
        if self.intlike and zi(o) is not None:
            return mkbool(self.e == zi(o))
        if self.strlike and zs(o) is not None:
            return s_or(*[s_and(mkbool(self.e == SEnum.key(m)), mkbool(zs(o) == zs(m.value))) for m in self.cls])
        return False

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __bool__(self):
        if self.intlike:
            return cur().branch(self.e != 0)
        return True

    def __lt__(self, o):
        return SInt(self.e) < o if self.intlike else NotImplemented

    def __le__(self, o):
        return SInt(self.e) <= o if self.intlike else NotImplemented

    def __gt__(self, o):
        return SInt(self.e) > o if self.intlike else NotImplemented

    def __ge__(self, o):
        return SInt(self.e) >= o if self.intlike else NotImplemented

    @property
    def value(self):
        if SEnum.keyed(self.cls):
            return mkint(self.e)
        return self.concretise().value

    @property
    def name(self):
        # opaque name, distinct members have distinct names
        return SStr(cur().uf(f"enum_name_{self.cls.__name__}", z3.IntSort(), z3.StringSort())(self.e))

    def concretise(self):
        """Fork over the members."""
        ms = list(self.cls)
        i = cur().decide([self.e == SEnum.key(m) for m in ms], f"enum {self.cls.__name__}")
        return ms[i]

    def __getattr__(self, name):
        return getattr(self.concretise(), name)


class SUnion(SVal):
    """A value whose kind is decided on first use (a JSON-like unknown)."""

    __slots__ = ("alts", "val", "done", "name")
    kind = "union"

    def __init__(self, name, alts):
        self.name, self.alts, self.done, self.val = name, alts, False, None

    def force(self):
        if not self.done:
            labels = list(self.alts)
            c = cur()
            i = c.choose_index(self.name + ".kind", len(labels))
            v = self.alts[labels[i]]()
            while isinstance(v, SUnion):
                v = v.force()
            self.val = v
            self.done = True
        return self.val

    def __repr__(self):
        return f"<union {self.name}>"

    __hash__ = SVal.__hash__

    def __eq__(self, o):
        return self.force() == force(o)

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __bool__(self):
        return bool(self.force())

    def __getattr__(self, name):
        return getattr(self.force(), name)

    def __getitem__(self, k):
        return self.force()[k]


def force(v):
    return v.force() if isinstance(v, SUnion) else v


class Poison(SVal):
    """A local whose value at an arbitrary loop iteration is not known."""

    __slots__ = ("why",)
    kind = "unknown"

    def __init__(self, why):
        self.why = why

    def _no(self, *a, **k):
        raise Unsupported(f"read of a value not covered by a loop invariant: {self.why}")

    __eq__ = __ne__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = _no
    __getitem__ = _no
    __hash__ = _no

    def __repr__(self):
        return f"<poison {self.why}>"


class SRange(SVal):
    """range() with symbolic bounds and a concrete non-zero step."""

    __slots__ = ("start", "stop", "step")
    kind = "range"
    pytype = range

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return f"<range {self.start} {self.stop} {self.step}>"

    def __bool__(self):
        raise Unsupported("truth of a symbolic range")

    def s_len(self):
        a, b = zi(self.start), zi(self.stop)
        d = b - a if self.step > 0 else a - b
        st = abs(self.step)
        return mkint(z3.If(d <= 0, z3.IntVal(0), (d + st - 1) / st))


class SSeq(SVal):
    """A sequence of unknown length whose k-th element is elem(k)."""

    __slots__ = ("n", "elem", "name", "typ", "memo", "root", "known")
    kind = "list"

    def __init__(self, name, n, elem, typ=list, root=None):
        self.name, self.n, self.elem, self.typ = name, n, elem, typ
        self.memo = []
        self.root = self if root is None else root  # the sequence this one is a pointwise image of
        self.known = []  # what holds of every element

    @property
    def pytype(self):
        return self.typ

    def __repr__(self):
        return f"<seq {self.name}>"

    def s_len(self):
        return self.n

    def at(self, k):
        """The element at index k: the same object for the same index term."""
        key = str(zi(k))
        for kk, v, _ in self.memo:
            if kk == key:
                return v
        v = self.elem(k)
        self.memo.append((key, v, zi(k)))
        for f in self.known:
            f(k)
        return v

    def all_are(self, f):
        """f holds at every place: at those looked at so far and those to come."""
        r = self.root
        for e in [e for _, _, e in r.memo]:
            f(SInt(e) if z3.is_expr(e) else e)
        r.known.append(f)

    def places(self):
        """The places looked at so far."""
        return [e if z3.is_expr(e) else z3.IntVal(e) for _, _, e in self.memo]

    def __getattr__(self, name):
        if hasattr(self.typ, name) and not name.startswith("__"):
            raise Unsupported(f"{self.typ.__name__}.{name} on a symbolic sequence")
        raise AttributeError(f"'{self.typ.__name__}' object has no attribute {name!r}")

    def __bool__(self):
        return bool(self.n > 0)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of symbolic sequences")

    __hash__ = SVal.__hash__

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a symbolic sequence")
        n = zi(self.n)
        i = zi(k)
        if i is None:
            raise TypeError("list indices must be integers or slices")
        i = z3.simplify(z3.If(i < 0, i + n, i))
        if not mkbool(z3.And(i >= 0, i < n)):
            raise IndexError("list index out of range")
        return self.at(mkint(i))


class SMap(SVal):
    """The dict a comprehension makes of a symbolic sequence: entries.at(k) is the k-th (key, value), later ones win."""

    __slots__ = ("entries", "src")
    kind = "dict"

    def __init__(self, entries, src):
        self.entries, self.src = entries, src

    @property
    def pytype(self):
        return dict

    def __repr__(self):
        return f"<map {self.entries.name}>"

    def __bool__(self):
        return bool(self.entries.n > 0)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of symbolic mappings")

    __hash__ = SVal.__hash__

    def s_len(self):
        raise Unsupported("length of a symbolic mapping")

    def lookup(self, k):
        """The place of key k, or None; what is known of the places already looked at is used."""
        c = cur()
        n = zi(self.entries.n)

        def key_is(j):
            r = self.entries.at(j)[0] == k
            return r.e if isinstance(r, SBool) else z3.BoolVal(bool(r))

        known = [(j, z3.And(j >= 0, j < n, key_is(SInt(j)))) for j in self.src.places()]
        if c.branch(z3.Bool(f"key!{c._occ('!mapkey')}")):
            i = c.fresh_int("mapk")
            c.add(z3.And(i >= 0, i < n, key_is(SInt(i)), *[z3.Implies(e, j <= i) for j, e in known]))
            if not c._feasible(z3.BoolVal(True)):
                raise PathEnd()
            return SInt(i)
        for _, e in known:
            c.add(z3.Not(e))
        if not c._feasible(z3.BoolVal(True)):
            raise PathEnd()
        return None

    def __getitem__(self, k):
        i = self.lookup(k)
        if i is None:
            raise KeyError(k)
        return self.entries.at(i)[1]

    def __contains__(self, k):
        return self.lookup(k) is not None

    def get(self, k, default=None):
        i = self.lookup(k)
        return default if i is None else self.entries.at(i)[1]

    def values(self):
        raise Unsupported("values of a symbolic mapping")

    def __getattr__(self, name):
        if hasattr(dict, name):
            raise Unsupported(f"dict.{name} on a symbolic mapping")
        raise AttributeError(f"'dict' object has no attribute {name!r}")


def has_sym(v, depth=6):
    if isinstance(v, SVal):
        return True
    if depth <= 0:
        return False
    t = type(v)
    if t in (list, tuple, set, frozenset) or isinstance(v, (list, tuple)):
        return any(has_sym(x, depth - 1) for x in v)
    if isinstance(v, dict):
        if isinstance(v, SDict):
            return True
        return any(has_sym(k, 1) or has_sym(x, depth - 1) for k, x in dict.items(v))
    return False


ABSENT = type("Absent", (), {"__repr__": lambda s: "ABSENT"})()


class SDict(dict):
    """A dict with some keys known, and any other (string) key unknown until looked at.

    ``dict`` part: keys known to be present.  ``absent``: keys known to be absent.  ``factory(key)``: value
    of a newly discovered key, or None when no other key can exist.
    """

    def __init__(self, name, known=(), factory=None, maybe=None):
        super().__init__(known)
        self.sname = name
        self.absent: set = set()
        self.factory = factory
        self.maybe = dict(maybe or {})  # keys that may be present -> thunk

    __hash__ = None

    def _known(self, key):
        return dict.__contains__(self, key)

    def _resolve(self, key):
        """True when present."""
        if isinstance(key, SVal):
            raise Unsupported("symbolic key in an open dict")
        if self._known(key):
            return True
        if key in self.absent:
            return False
        if key in self.maybe:
            mk = self.maybe[key]
        elif self.factory is not None:
            mk = lambda: self.factory(key)
        else:
            return False
        c = cur()
        if c.choose_index(f"{self.sname}.has[{key}]", 2) == 0:
            dict.__setitem__(self, key, mk())
            self.maybe.pop(key, None)
            return True
        self.absent.add(key)
        self.maybe.pop(key, None)
        return False

    def settle(self):
        """Decide every optional key (only when no unknown other key can exist)."""
        for k in list(self.maybe):
            self._resolve(k)
        if self.factory is not None:
            raise Unsupported(f"whole-dict operation on open dict {self.sname}")

    def __getitem__(self, key):
        if self._resolve(key):
            return dict.__getitem__(self, key)
        raise KeyError(key)

    def __contains__(self, key):
        return self._resolve(key)

    def get(self, key, default=None):
        if self._resolve(key):
            return dict.__getitem__(self, key)
        return default

    def __setitem__(self, key, v):
        if isinstance(key, SVal):
            raise Unsupported("symbolic key in an open dict")
        self.absent.discard(key)
        self.maybe.pop(key, None)
        dict.__setitem__(self, key, v)

    def __delitem__(self, key):
        if not self._resolve(key):
            raise KeyError(key)
        dict.__delitem__(self, key)
        self.absent.add(key)

    def pop(self, key, *d):
        if self._resolve(key):
            v = dict.pop(self, key)
            self.absent.add(key)
            return v
        if d:
            return d[0]
        raise KeyError(key)

    def setdefault(self, key, default=None):
        if self._resolve(key):
            return dict.__getitem__(self, key)
        self[key] = default
        return default

    def update(self, *a, **k):
        for src in a:
            if isinstance(src, SDict):
                src.settle()
            for kk, v in dict(src).items():
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def copy(self):
        d = SDict(self.sname, dict.items(self), self.factory, self.maybe)
        d.absent = set(self.absent)
        if self.factory is not None or self.maybe:
            raise Unsupported("copy of an open dict")
        return d

    def keys(self):
        self.settle()
        return dict.keys(self)

    def values(self):
        self.settle()
        return dict.values(self)

    def items(self):
        self.settle()
        return dict.items(self)

    def __iter__(self):
        self.settle()
        return dict.__iter__(self)

    def __len__(self):
        self.settle()
        return dict.__len__(self)

    def __bool__(self):
        if dict.__len__(self):
            return True
        self.settle()
        return bool(dict.__len__(self))

    def __eq__(self, o):
        self.settle()
        if isinstance(o, SDict):
            o.settle()
        return dict.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r)

    def __repr__(self):
        return f"<sdict {self.sname} {dict.__repr__(self)}>"
