"""A sound abstraction of the sequence and string theories into uninterpreted functions.

Every term of sequence or string sort becomes a term of an uninterpreted sort; concatenation, extraction, length and so
on become uninterpreted functions constrained by the length laws. The abstraction only forgets facts, so what is
unsatisfiable after it was unsatisfiable before it.
"""
import z3

SORTS = {}


def sort_of(s):
    if s.kind() == z3.Z3_SEQ_SORT:
        k = str(s)
        if k not in SORTS:
            SORTS[k] = z3.DeclareSort("abs_" + "".join(ch if ch.isalnum() else "_" for ch in k))
        return SORTS[k]
    if s.kind() == z3.Z3_RE_SORT:
        if "re" not in SORTS:
            SORTS["re"] = z3.DeclareSort("abs_re")
        return SORTS["re"]
    return s


class Abstraction:
    """Shared by all paths of one exploration: terms are translated once, with the set of facts about their parts."""

    def __init__(self):
        self.memo = {}
        self.keep = []
        self.lits = {}
        self.facts = []
        self.fact_ids = {}
        self.sides = {}
        self.side = []
        self.lens = {}

    def __call__(self, e):
        stack = [e]
        while stack:
            x = stack[-1]
            if x.get_id() in self.memo:
                stack.pop()
                continue
            if z3.is_quantifier(x):
                self.put(x, z3.Bool(f"abs_q{x.get_id()}"), ())  # an unconstrained proposition: weaker
                continue
            todo = [a for a in self.kids(x) if a.get_id() not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.side = []
            v = self.one(x)
            self.put(x, v, self.kids(x))
            stack.pop()
        return self.memo[e.get_id()]

    def kids(self, x):
        """The subterms translated: a concatenation is taken as the flat list of its parts, constant bytes joined."""
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return [p for p in self.flat(x) if not isinstance(p, tuple)]
        return x.children()

    def put(self, x, v, kids):
        self.keep.append(x)
        self.memo[x.get_id()] = v
        ids = set()
        for f in self.side:
            k = f.get_id()
            if k not in self.fact_ids:
                self.fact_ids[k] = len(self.facts)
                self.facts.append(f)
            ids.add(self.fact_ids[k])
        self.sides[x.get_id()] = frozenset(ids).union(*[self.sides[a.get_id()] for a in kids])

    def length(self, v):
        k = v.get_id()
        if k not in self.lens:
            f = z3.Function("abs_len_" + v.sort().name(), v.sort(), z3.IntSort())
            self.lens[k] = (f(v), v)
            self.lens[k] = (self.lens[k][0], v, self.lens[k][0] >= 0)
        self.side.append(self.lens[k][2])
        return self.lens[k][0]

    def flat(self, x):
        out = []
        for p in self.flat0(x):
            c = self.const_byte(p)
            if c is None:
                out.append(p)
            elif out and isinstance(out[-1], tuple):
                out[-1] += (c,)
            else:
                out.append((c,))
        return out

    @staticmethod
    def const_byte(p):
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_UNIT and z3.is_bv_value(p.arg(0)):
            return p.arg(0).as_long()
        return None

    def flat0(self, x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return [p for a in x.children() for p in self.flat0(a)]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
            return []
        return [x]

    def literal(self, key, srt, n):
        """A constant of the abstract sort, different from the other constants of the same length."""
        if key not in self.lits:
            v = z3.Const(f"abs_lit{len(self.lits)}", srt)
            code = z3.Function("abs_code_" + srt.name(), srt, z3.IntSort())
            self.lits[key] = (v, [code(v) == len(self.lits)], n)
        v, facts, n = self.lits[key]
        self.side.extend(facts)
        self.side.append(self.length(v) == n)
        return v

    def one(self, x):
        d, k = x.decl(), x.decl().kind()
        srt = sort_of(x.sort())
        args = [] if k == z3.Z3_OP_SEQ_CONCAT else [self.memo[a.get_id()] for a in x.children()]
        theory = z3.is_seq(x) or any(z3.is_seq(a) or a.sort().kind() == z3.Z3_RE_SORT for a in x.children()) or x.sort().kind() == z3.Z3_RE_SORT
        if not theory:
            return d(*args) if args else x
        if z3.is_string_value(x):
            return self.literal(("str", x.as_string()), srt, z3.simplify(z3.Length(x)))
        if self.const_byte(x) is not None:
            return self.literal((srt.name(), (self.const_byte(x),)), srt, z3.IntVal(1))
        if k == z3.Z3_OP_EQ:
            return args[0] == args[1]
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*args)
        if k == z3.Z3_OP_ITE:
            return z3.If(*args)
        if k == z3.Z3_OP_SEQ_LENGTH:
            return self.length(args[0])
        if k == z3.Z3_OP_SEQ_CONCAT:
            ps = self.flat(x)
            if not ps:
                return self.one(z3.Empty(x.sort()))
            args = [self.literal((srt.name(), p), srt, z3.IntVal(len(p))) if isinstance(p, tuple) else self.memo[p.get_id()] for p in ps]
            r = args[0]
            f = z3.Function("abs_concat_" + srt.name(), srt, srt, srt)
            for a in args[1:]:
                n = f(r, a)
                self.side.append(self.length(n) == self.length(r) + self.length(a))
                r = n
            return r
        if not args:
            if k == z3.Z3_OP_SEQ_EMPTY:
                v = z3.Const("abs_empty_" + srt.name(), srt)
                self.side.append(self.length(v) == 0)
                return v
            return z3.Const("abs!" + d.name(), srt)
        f = z3.Function(f"abs_{d.name()}_{k}_" + "_".join(a.sort().name() for a in args) + "_" + srt.name(), *[a.sort() for a in args], srt)
        r = f(*args)
        if k == z3.Z3_OP_SEQ_UNIT:
            self.side.append(self.length(r) == 1)
        if k == z3.Z3_OP_SEQ_EXTRACT:
            n = self.length(args[0])
            lo, m = args[1], args[2]
            self.side.append(z3.Implies(z3.And(lo >= 0, m >= 0, lo + m <= n), self.length(r) == m))
        return r


class AbstractSolver:
    def __init__(self, ab, timeout):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout)
        self.ab = ab
        self.have = set()

    def _t(self, e):
        v = self.ab(e)
        for i in self.ab.sides[e.get_id()]:
            if i not in self.have:
                self.have.add(i)
                self.solver.add(self.ab.facts[i])
        return v

    def add(self, e):
        self.solver.add(self._t(e))

    def unsat(self, *es):
        ts = [self._t(e) for e in es]
        return self.solver.check(*ts) == z3.unsat
