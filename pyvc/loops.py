"""Loops over unbounded data: cut at the head by an invariant (user-given and automatically inferred)."""
from __future__ import annotations

import ast
import types

import z3

from . import values as V
from .ctx import Restart
from .values import (
    EngineSignal, PathEnd, Poison, ProgExc, SBool, SBytes, SDict, SEnum, SFloat, SInt, SRange, SSeq, SStr, SVal,
    Unsupported, cur, force, mkbool, s_and, zi, zr,
)


class LoopInfo:
    def __init__(self):
        self.dropped = set()  # candidate ids refuted
        self.kinds = {}  # name -> set of kinds seen
        self.attrs = set()  # (path, attr) written by the body
        self.yields = False  # the body yields (exactly once per iteration)


class LState:
    """What a user invariant may talk about."""

    def __init__(self, k, ghosts, ghosts0, vars_, vars0, n):
        self.k, self.g, self.g0, self.vars, self.vars0, self.n = k, ghosts, ghosts0, vars_, vars0, n


UNB = object()


def body_stores(stmts, extra=None):
    names = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                names.add(x.name)
            elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(x.name)
    if extra is not None:
        for x in ast.walk(extra):
            if isinstance(x, ast.Name):
                names.add(x.id)
    return names


def reach(roots):
    """id -> path for mutable objects reachable from the roots."""
    out = {}
    stack = [(n, v) for n, v in roots]
    while stack:
        path, v = stack.pop()
        if id(v) in out or isinstance(v, (type, types.ModuleType, types.FunctionType, str, bytes, int, float, bool)) or v is None:
            continue
        if isinstance(v, SVal):
            continue
        if isinstance(v, dict):
            out[id(v)] = path
            for k, x in dict.items(v):
                stack.append((f"{path}[{k!r}]", x))
        elif isinstance(v, (list, tuple, set, frozenset)):
            out[id(v)] = path
            for i, x in enumerate(v):
                stack.append((f"{path}[{i}]", x))
        elif hasattr(v, "__dict__"):
            out[id(v)] = path
            if len(path) < 120:
                for k, x in v.__dict__.items():
                    stack.append((f"{path}.{k}", x))
        if len(out) > 20000:
            break
    return out


def kind_of(v):
    v0 = v
    if v is UNB:
        return "unbound"
    if v is None:
        return "none"
    if isinstance(v, (bool, SBool)):
        return "bool"
    if isinstance(v, SEnum):
        return ("enum", v.cls)
    if isinstance(v, (int, SInt)) and zi(v) is not None and not isinstance(v, SEnum):
        import enum

        if isinstance(v, enum.Enum):
            return ("enum", type(v))
        return "int"
    if isinstance(v, (float, SFloat)):
        return "float"
    if isinstance(v, (str, SStr)):
        return "str"
    return ("other", type(v).__name__)


def fresh_of(c, kind, name, entry):
    n = c._occ("!havoc")
    if kind == "int":
        return SInt(z3.Int(f"{name}!h{n}"))
    if kind == "bool":
        return SBool(z3.Bool(f"{name}!h{n}"))
    if kind == "float":
        return SFloat(z3.Real(f"{name}!h{n}"))
    if kind == "str":
        return SStr(z3.String(f"{name}!h{n}"))
    if isinstance(kind, tuple) and kind[0] == "enum":
        e = z3.Int(f"{name}!h{n}")
        c.add(SEnum.domain(kind[1], e))
        return SEnum(kind[1], e)
    return None


CANDS = {
    "eq": lambda x0, x, k, n: x == x0,
    "eq+k": lambda x0, x, k, n: x == x0 + k,
    "eq-k": lambda x0, x, k, n: x == x0 - k,
    "ge": lambda x0, x, k, n: x >= x0,
    "le": lambda x0, x, k, n: x <= x0,
    "le+k": lambda x0, x, k, n: x <= x0 + k,
    "k0": lambda x0, x, k, n: V.s_implies(k == 0, x == x0),
}


RELS = {
    "<=": lambda x, y: x <= y,
    "<": lambda x, y: x < y,
    ">=": lambda x, y: x >= y,
    "==": lambda x, y: x == y,
}


def _cands(kind):
    if kind in ("int", "float"):
        return list(CANDS)
    if kind == "bool" or kind == "str" or (isinstance(kind, tuple) and kind[0] == "enum"):
        return ["eq", "k0"]
    return []


def cut(I, node, fr, guard, bind, key, n_term):
    """Cut a loop.  guard(k) -> condition value; bind(k) binds the target for iteration k."""
    c = cur()
    S = I.S
    info = S.loops.setdefault(key, LoopInfo())
    S.cut_loops.add(key)
    names = body_stores(node.body, getattr(node, "target", None))
    if isinstance(node, ast.While):
        names |= body_stores([ast.Expr(value=node.test)])
    tnames = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)} if isinstance(node, ast.For) else set()
    # variables live outside comprehension scopes only
    names = {x for x in names if x in fr.locals}
    entry = {x: fr.vars.get(x, UNB) for x in names}
    g0 = dict(c.ghosts)
    where = f"{fr.fn.__module__}:{fr.fn.__qualname__}"
    invs = [f for w, fs in c.user_invs.items() if w in where for f in fs]
    lname = f"{fr.fn.__qualname__}.loop"

    roots = []
    f = fr
    while f is not None:
        roots += list(f.vars.items())
        f = f.parent
    pre = reach(roots)
    byid = {}
    objs = {}
    # attributes to havoc (discovered write set)
    attr_entry = {}
    if info.attrs:
        paths = {p: i for i, p in pre.items()}
        byobj = {}

        def find(path):
            # walk again to find the object for a path
            st = list(roots)
            seen = set()
            while st:
                p, v = st.pop()
                if p == path:
                    return v
                if id(v) in seen or isinstance(v, (SVal, type, types.ModuleType, types.FunctionType)):
                    continue
                seen.add(id(v))
                if isinstance(v, dict):
                    st += [(f"{p}[{k!r}]", x) for k, x in dict.items(v)]
                elif isinstance(v, (list, tuple, set)):
                    st += [(f"{p}[{i}]", x) for i, x in enumerate(v)]
                elif hasattr(v, "__dict__") and len(p) < 120:
                    st += [(f"{p}.{k}", x) for k, x in v.__dict__.items()]
            return None

        for path, attr in sorted(info.attrs):
            o = find(path)
            if o is None:
                continue
            if attr == "*":
                raise Unsupported(f"{lname}: container {path} is modified by an unbounded loop")
            attr_entry[(path, attr)] = (o, o.__dict__.get(attr, UNB))

    hints = c.notes.get("hints", {})
    gen = fr.yields is not None
    if gen and info.yields and (isinstance(fr.yields, SSeq) or fr.yields):
        raise Unsupported(f"{lname}: values were yielded before an unbounded yielding loop")

    # 1. invariants hold on entry
    for i, inv in enumerate(invs):
        st = LState(0, g0, g0, entry, entry, n_term)
        S.obligation(c, f"{lname}/invariant[{i}]-initially", inv(st), "", inv=True)

    # 2. havoc
    c.cut = True
    k = SInt(c.fresh_int("k"))
    c.add(k.e >= 0)
    if n_term is not None:
        c.add(z3.Or(k.e == 0, k.e <= zi(n_term)))

    def havoc(name, e0):
        kinds = info.kinds.setdefault(name, {kind_of(e0)})
        kinds.add(kind_of(e0))
        ks = sorted(kinds, key=str)
        if len(ks) > 1:
            kk = ks[c.decide([None] * len(ks), f"kind {name}")]
        else:
            kk = ks[0]
        if kk == "unbound":
            return UNB
        if kk == "none":
            return None
        v = fresh_of(c, kk, name, e0)
        if v is None:
            return Poison(f"{name} at an arbitrary iteration of {lname}")
        return v

    cur_vals = {}
    hinted = []
    for x in sorted(names):
        if x in tnames:
            v = Poison(f"loop target {x}")
        else:
            v = havoc(x, entry[x])
            if kind_of(entry[x]) == "int":
                # a specification term the contract offers: holds initially, assumed here, re-proved after the body
                for h, fn in hints.items():
                    cid = (("var", x), "hint " + h)
                    if cid in info.dropped:
                        continue
                    if not c.proves(entry[x] == fn(0)):
                        info.dropped.add(cid)
                        continue
                    hinted.append((cid, x, fn))
                    if kind_of(v) == "int":
                        v = fn(k)
        if v is UNB:
            fr.vars.pop(x, None)
        else:
            fr.vars[x] = v
        cur_vals[("var", x)] = (entry[x], v)
    for (path, attr), (o, e0) in attr_entry.items():
        v = havoc(f"{path}.{attr}", e0)
        if v is UNB:
            o.__dict__.pop(attr, None)
        else:
            object.__setattr__(o, attr, v)
        cur_vals[("attr", path, attr)] = (e0, v)
    for g, e0 in g0.items():
        v = havoc(f"ghost.{g}", e0)
        c.ghosts[g] = v
        cur_vals[("ghost", g)] = (e0, v)
    c.trace.append(("<loop>", lname))
    del c.writes[:]

    def cand_list():
        for vid, (e0, v) in cur_vals.items():
            kd = kind_of(e0)
            for cn in _cands(kd):
                if (vid, cn) not in info.dropped:
                    yield vid, cn, e0

    # relations to values the loop does not change (and to the trip count): "k == 0 or x R y"
    stable = {}
    f2 = fr
    while f2 is not None:
        for x, v in f2.vars.items():
            if x not in names and kind_of(v) == "int" and not isinstance(v, Poison):
                stable.setdefault(f"var {x}", v)
        f2 = f2.parent
    if n_term is not None:
        stable["trip count"] = n_term
    rels = []
    for vid, (e0, v) in list(cur_vals.items()) + [(("k",), (0, k))]:
        if kind_of(e0) == "int" and kind_of(v) == "int":
            for y, yv in stable.items():
                for rn in RELS:
                    if (vid, rn, y) not in info.dropped:
                        rels.append((vid, rn, y, v, yv))

    def value_now(vid):
        if vid[0] == "var":
            return fr.vars.get(vid[1], UNB)
        if vid[0] == "attr":
            return attr_entry[(vid[1], vid[2])][0].__dict__.get(vid[2], UNB)
        return c.ghosts[vid[1]]

    def cond_of(cn, e0, v, kk):
        try:
            r = CANDS[cn](e0, v, kk, n_term)
        except (TypeError, ProgExc):
            return None
        return r if isinstance(r, (bool, SBool)) else None

    for vid, cn, e0 in list(cand_list()):
        v = cur_vals[vid][1]
        if kind_of(v) != kind_of(e0):
            # another kind on this fork: candidates speak about the entry kind only
            continue
        r = cond_of(cn, e0, v, k)
        if isinstance(r, SBool):
            c.add(r.e)
        elif r is False:
            raise PathEnd()
    for vid, rn, y, v, yv in rels:
        r = V.s_or(k == 0, RELS[rn](v, yv))
        if isinstance(r, SBool):
            c.add(r.e)
    for vid, (e0, v) in cur_vals.items():
        # a kind different from the entry one is only possible after an iteration
        if kind_of(v) != kind_of(e0) and not isinstance(v, Poison):
            c.add(k.e >= 1)
    if not c._feasible(z3.BoolVal(True)):
        raise PathEnd()
    for inv in invs:
        st = LState(k, dict(c.ghosts), g0, fr.vars, entry, n_term)
        r = inv(st)
        if isinstance(r, SBool):
            c.add(r.e)
        elif not r:
            raise PathEnd()

    # candidate invariants of the contract: kept while they hold initially and are preserved
    tried = []
    for w, name, fn in c.cand_invs:
        cid = ("try", name)
        if w not in where or cid in info.dropped:
            continue
        if not c.proves(V.s_implies(k == 0, fn(LState(0, g0, g0, entry, entry, n_term)))):
            info.dropped.add(cid)
            continue
        r = fn(LState(k, dict(c.ghosts), g0, fr.vars, entry, n_term))
        if isinstance(r, SBool):
            c.add(r.e)
        tried.append((cid, fn))
    from .interp import _Brk, _Cont

    go = I.truth(guard(k))
    if not go:
        for x in tnames:
            fr.vars[x] = Poison(f"loop target {x} after the loop")
        if gen and info.yields:
            alive = [h for h in hints if ("yield", h) not in info.dropped]
            if not alive:
                raise Unsupported(f"{lname}: yields not described by any specification term of the contract")
            fr.yields = SSeq(f"{lname}.yields", n_term, hints[alive[0]])
        I.block(node.orelse, fr)
        return
    if bind is not None:
        bind(k)
    ycount = len(fr.yields) if gen and not isinstance(fr.yields, SSeq) else 0
    try:
        I.block(node.body, fr)
    except _Brk:
        if gen and info.yields:
            raise Unsupported(f"{lname}: break out of a yielding loop")
        return
    except _Cont:
        pass

    # 3. preservation
    restart = False
    for vid in cur_vals:
        if vid[0] == "var" and vid[1] in tnames:
            continue
        v = value_now(vid)
        nm = {"var": lambda: vid[1], "attr": lambda: f"{vid[1]}.{vid[2]}", "ghost": lambda: f"ghost.{vid[1]}"}[vid[0]]()
        kd = kind_of(v)
        if isinstance(v, Poison):
            continue
        if kd not in info.kinds[nm]:
            info.kinds[nm].add(kd)
            restart = True
    k1 = k + 1
    if gen:
        ys = fr.yields[ycount:]
        if ys and not info.yields:
            info.yields = True
            restart = True
        if info.yields:
            if len(ys) != 1 or n_term is None:
                raise Unsupported(f"{lname}: an iteration yields {len(ys)} values")
            for h, fn in hints.items():
                if ("yield", h) not in info.dropped and not c.proves(V.force(ys[0]) == fn(k)):
                    info.dropped.add(("yield", h))
                    restart = True
    for cid, x, fn in hinted:
        v = fr.vars.get(x, UNB)
        if kind_of(v) != "int" or not c.proves(v == fn(k1)):
            info.dropped.add(cid)
            restart = True
    for vid, cn, e0 in list(cand_list()):
        v = value_now(vid)
        if kind_of(v) != kind_of(e0):
            continue
        r = cond_of(cn, e0, v, k1)
        if r is None or not c.proves(r):
            info.dropped.add((vid, cn))
            restart = True
    for vid, rn, y, _, yv in rels:
        v = k1 if vid == ("k",) else value_now(vid)
        if kind_of(v) != "int" or not c.proves(V.s_or(k1 == 0, RELS[rn](v, yv))):
            info.dropped.add((vid, rn, y))
            restart = True
    for cid, fn in tried:
        if not c.proves(fn(LState(k1, dict(c.ghosts), g0, fr.vars, entry, n_term))):
            info.dropped.add(cid)
            restart = True
    written = set()
    roots_ids = pre
    for o, attr in c.writes:
        p = roots_ids.get(id(o))
        if p is not None and (p, attr) not in info.attrs:
            written.add((p, attr))
    if written:
        info.attrs |= written
        restart = True
    if restart:
        raise Restart()
    for i, inv in enumerate(invs):
        st = LState(k1, dict(c.ghosts), g0, fr.vars, entry, n_term)
        S.obligation(c, f"{lname}/invariant[{i}]-preserved", inv(st), "", inv=True)
    raise PathEnd()


def cut_for(I, node, fr, it):
    key = (fr.fn.__code__.co_filename, node.lineno)
    if isinstance(it, SRange):
        n = it.s_len()

        def guard(k):
            return k < n

        def bind(k):
            I.assign(node.target, it.start + k * it.step, fr)

    elif isinstance(it, SSeq):
        n = it.n

        def guard(k):
            return k < n

        def bind(k):
            I.assign(node.target, it.at(k), fr)

    elif isinstance(it, SBytes):
        n = it.s_len()

        def guard(k):
            return k < n

        def bind(k):
            I.assign(node.target, SInt(z3.BV2Int(it.e[zi(k)])), fr)

    else:
        raise Unsupported("loop over a symbolic iterator")
    return cut(I, node, fr, guard, bind, key, n)


def cut_while(I, node, fr):
    key = (fr.fn.__code__.co_filename, node.lineno)

    def guard(k):
        return I.ev(node.test, fr)

    return cut(I, node, fr, guard, None, key, None)
