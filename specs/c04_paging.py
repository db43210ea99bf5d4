"""C04: list results come back whole, whatever page sizes the device chooses."""
from kasa.protocols.smartcamprotocol import SmartCamProtocol
from kasa.protocols.smartprotocol import SmartProtocol
from pyvc.registry import contract, prop
from pyvc.values import SVal, Unsupported, mkbool, zi

from .common import StubTransport, unjson

prop("C04", assumptions=("the device returns consecutive items from the requested start index",))


class Page(SVal):
    """Symbolic mode: the items start .. start+n-1 of the device's list; growing it is checked to be contiguous."""

    kind = "list"
    pytype = list
    __slots__ = ("c", "start", "n", "name")

    def __init__(self, c, start, n, name=None):
        self.c, self.start, self.n, self.name = c, start, n, name

    @property
    def length(self):
        return self.c.ghosts["held"] if self.name else self.n

    def s_len(self):
        return self.length

    def __bool__(self):
        return bool(self.length > 0)

    def extend(self, other):
        if not isinstance(other, Page) or not self.name:
            raise Unsupported("extend of a page")
        self.c.check("a page continues exactly where the list ends", other.start == self.length)
        self.c.bump("held", other.n)

    def __iadd__(self, other):
        self.extend(other)
        return self

    def __iter__(self):
        raise Unsupported("iteration over an abstract page")

    __hash__ = None

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"<page {self.start}+{self.n}>"


def mk(c, start, n, head=False):
    if c.symbolic:
        return Page(c, start, n, "held" if head else None)
    return list(range(start, start + n))


def paging(proto, shape):
    cam = proto is SmartCamProtocol

    def driver(c):
        total = c.int("sum", 0, None if c.symbolic else 30)
        first = c.int("first", 0, None if c.symbolic else 12)
        c.ghost("held", first)
        c.ghost("gain", 1)
        c.ghost("pages", 0)
        c.ghost("empty", 0)
        c.ghost("says", c.pick("pages repeat the total", [0, 1]))
        method, other = "get_child_device_list", "get_device_info"
        params = {"childControl": {"start_index": 0}} if cam else {"start_index": 0}
        head = mk(c, 0, first, True)
        extra = {"keep": 1}
        meta = {"a": extra, "start_index": 0, "items": head, "sum": total}
        st = {"first": True}
        requests = {method: params}
        if shape != "single":
            requests = {other: {"system": {"name": "basic_info"}}, **requests} if c.pick("order", [0, 1]) else {**requests, other: {"system": {"name": "basic_info"}}}

        def one(m, p):
            if m == other:
                return {"error_code": 0, "result": {"info": 1}}
            if st["first"]:
                st["first"] = False
                return {"error_code": 0, "result": meta}
            c.check("a page request is like the first but for where it starts", p.keys() == params.keys() and (not cam or p["childControl"].keys() == {"start_index"}))
            start = p["childControl"]["start_index"] if cam else p["start_index"]
            held = c.ghosts["held"] if c.symbolic else len(head)
            c.check("the next page starts where the list ends", start == held)
            c.check("pages are requested only while items are missing", held < total)
            c.check("every page request makes progress", c.ghosts["gain"] > 0)
            c.check("nothing is requested after an empty page", c.ghosts["empty"] == 0)
            c.bump("pages")
            n = c.int("page", 0, None if c.symbolic else 12)
            c.ghosts["gain"] = n
            if n == 0:
                c.ghosts["empty"] = 1
            page = {"items": mk(c, start, n)}
            # what else a further page carries is of no account
            if c.ghosts["says"]:
                page = {"start_index": c.int("page start", 0, 50), "sum": c.int("page sum", 0, 50), **page}
            return {"error_code": 0, "result": page}

        def send(req):
            d = unjson(req)
            if d["method"] != "multipleRequest":
                return one(d["method"], d.get("params"))
            return {"error_code": 0, "result": {"responses": [{"method": r["method"], **one(r["method"], r.get("params"))} for r in d["params"]["requests"] if shape != "left_out" or r["method"] == other]}}

        p = proto(transport=StubTransport(send, batch_size=1 if shape == "unbatched" else 5))
        o = c.call(p.query, requests, 0)
        c.check("the query succeeds", o.ok)
        r = o.value[method]
        c.check("the other fields of the result are untouched", list(r) == ["a", "start_index", "items", "sum"] and r["a"] is extra and c.same(r["sum"], total))
        c.check("the result holds the accumulated list", r["items"] is head if c.symbolic else True)
        held = c.ghosts["held"] if c.symbolic else len(r["items"])
        c.check("all announced items are returned unless the device ran dry", c.or_(held >= total, c.ghosts["empty"] == 1))
        if not c.symbolic:
            c.check("the items are the device's, in order, without repeats", r["items"] == list(range(len(r["items"]))))
        if shape != "single":
            c.check("other methods of the same query are unaffected", o.value[other] == {"info": 1})
        c.cover("whole" if c.ghosts["empty"] == 0 else "dry")

    return driver


for _n, _p in (("smart", SmartProtocol), ("smartcam", SmartCamProtocol)):
    for _s in ("single", "multi", "unbatched", "left_out"):
        contract("C04", f"{_n}_{_s}", funcs=(f"{_p.__name__}._handle_response_lists",), covers=("whole", "dry"))(paging(_p, _s))


@contract("C04", funcs=("SmartProtocol._handle_response_lists",), covers=("ok",))
def not_a_list(c):
    """Results that announce no total are returned as they came, with one request."""
    st = {"n": 0}
    kind = c.pick("kind", ["nosum", "nostart", "nullsum", "empty"])
    res = {"nosum": {"start_index": 0, "items": [1]}, "nostart": {"sum": 9, "items": [1]}, "nullsum": {"start_index": 0, "sum": None, "items": [1]}, "empty": {}}[kind]
    want = {k: list(v) if isinstance(v, list) else v for k, v in res.items()}

    def send(req):
        st["n"] += 1
        return {"error_code": 0, "result": res}

    p = SmartProtocol(transport=StubTransport(send))
    o = c.call(p.query, {"get_x": {"start_index": 0}}, 0)
    c.check("returned unchanged after one request", o.ok and o.value == {"get_x": want} and st["n"] == 1)
    c.cover("ok")
