"""C20: a feature hands only acceptable values to its setter, and reads from its own container."""
from kasa import Feature
from pyvc.registry import contract, prop

prop("C20")

T = Feature.Type


class Box:
    """A device or module with one attribute and one setter."""

    def __init__(self, value=None, tag=None, fail=None):
        self.attr, self.tag, self.calls, self.fail = value, tag, [], fail

    async def setter(self, *a):
        self.calls.append(a)
        if self.fail:
            raise self.fail
        return self.tag

    @property
    def limits(self):
        return self.lim

    @property
    def names(self):
        return self.options


def feature(c, typ, dev, box, **kw):
    how = c.pick("setter", ["name", "callable", "none"])
    tgt = box if box is not None else dev
    s = {"name": "setter", "callable": tgt.setter, "none": None}[how]
    o = c.call(Feature, device=dev, id="f", name="F", type=typ, attribute_getter="attr", attribute_setter=s, container=box, **kw)
    assert o.ok, o
    return o.value, how, tgt


def done(c, o, how, tgt, other, ok, args, tag):
    if how == "none":
        c.check("a read-only feature cannot be set", o.exactly(ValueError) and not tgt.calls)
        return
    if o.ok:
        c.cover("set")
        c.check("only acceptable values are set", ok)
        c.check("the setter of the feature's own container gets exactly the value", len(tgt.calls) == 1 and len(tgt.calls[0]) == len(args) and c.and_(*[c.same(x, y) for x, y in zip(tgt.calls[0], args)]))
        c.check("its result is returned", o.value == tag)
    else:
        c.cover("refused")
        c.check("only unacceptable values are refused", c.not_(ok))
        c.check("with a ValueError and without calling the setter", o.exactly(ValueError) and not tgt.calls)
    c.check("nothing else is touched", other is None or not other.calls)


def boxes(c):
    dev = Box(tag="dev")
    box = Box(tag="box") if c.maybe("own container") else None
    return dev, box, (box or dev), (dev if box else None)


@contract("C20", "numbers", funcs=("Feature.set_value", "Feature.minimum_value", "Feature.maximum_value", "Feature.range"), covers=("set", "refused"))
def numbers(c):
    dev, box, tgt, other = boxes(c)
    lo, hi = c.int("minimum", -1000, 10**6), c.int("maximum", -1000, 10**6)
    tgt.lim = (lo, hi)
    r = c.pick("range", ["name", "callable", "none"])
    f, how, tgt = feature(c, T.Number, dev, box, range_getter={"name": "limits", "callable": lambda: (lo, hi), "none": None}[r], precision_hint=c.pick("precision", [None, 0, 1]))
    if r == "none":
        lo, hi = 0, 2**16
    kind = c.pick("value", ["int", "float", "nan", "inf", "-inf", "text", "none"])
    v = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf"), "text": "5", "none": None}.get(kind)
    ok = False
    if kind in ("int", "float"):
        v = c.int("v", pool=(0, 100, 1000, -1, 65536, 65537)) if kind == "int" else c.real("v", pool=(0.5, -0.5, 65536.5))
        ok = c.and_(v >= lo, v <= hi)
    o = c.call(f.set_value, v)
    c.check("the limits are those of the feature", c.same(c.call(getattr, f, "minimum_value").value, lo) and c.same(c.call(getattr, f, "maximum_value").value, hi) if not c.symbolic else
            c.and_(c.eq(c.call(getattr, f, "minimum_value").value, lo), c.eq(c.call(getattr, f, "maximum_value").value, hi)))
    done(c, o, how, tgt, other, ok, (v,), (box or dev).tag)


@contract("C20", "choices", funcs=("Feature.set_value", "Feature.choices"), covers=("set", "refused"))
def choices(c):
    dev, box, tgt, other = boxes(c)
    opts = [c.str(f"choice{i}", pool=("a", "b", "")) for i in range(c.pick("choices", [0, 1, 3]))]
    tgt.options = opts
    g = c.pick("getter", ["name", "callable", "none"])
    f, how, tgt = feature(c, T.Choice, dev, box, choices_getter={"name": "names", "callable": lambda: opts, "none": None}[g])
    v = c.str("v", pool=("a", "b", "", "zz"))
    o = c.call(f.set_value, v)
    done(c, o, how, tgt, other, g != "none" and c.or_(*[c.eq(v, x) for x in opts]) if opts else False, (v,), (box or dev).tag)


@contract("C20", "switches_and_actions", funcs=("Feature.set_value", "Feature.value"), covers=("set",))
def rest(c):
    dev, box, tgt, other = boxes(c)
    typ = c.pick("type", [T.Switch, T.Action, T.Unknown])
    f, how, tgt = feature(c, typ, dev, box)
    v = c.pick("v", [True, False, None, 3])
    o = c.call(f.set_value, v)
    done(c, o, how, tgt, other, True, () if typ is T.Action else (v,), (box or dev).tag)


@contract("C20", "errors_of_setters", funcs=("Feature.set_value",))
def errors(c):
    from kasa import DeviceError, KasaException

    e = c.pick("error", [KasaException("x"), DeviceError("y"), ValueError("z"), RuntimeError("r")])
    dev = Box(fail=e)
    f, how, tgt = feature(c, c.pick("type", [T.Switch, T.Action]), dev, None)
    o = c.call(f.set_value, True)
    c.check("the setter's error reaches the caller", how == "none" or o.exc is e)


@contract("C20", "values", funcs=("Feature.value", "Feature.unit", "Feature.__post_init__"))
def values(c):
    x, y = c.int("device value"), c.int("container value")
    dev, box = Box(x), Box(y) if c.maybe("own container") else None
    typ = c.pick("type", [T.Sensor, T.BinarySensor, T.Number, T.Switch, T.Action])
    g = c.pick("getter", ["name", "callable", "none"])
    st = None if not c.maybe("has setter") else "setter"
    cat = c.pick("category", [None, Feature.Category.Primary, Feature.Category.Info, Feature.Category.Config])
    o = c.call(Feature, device=dev, id="f", name="F", type=typ, attribute_getter={"name": "attr", "callable": lambda b: b.attr, "none": None}[g], attribute_setter=st, container=box,
               **({} if cat is None else {"category": cat}))
    sensor = typ in (T.Sensor, T.BinarySensor)
    if sensor and (st or cat is Feature.Category.Config):
        c.check("a sensor that could be set cannot be defined", o.exactly(ValueError))
        return
    f = o.value
    c.check("the category defaults to what the feature can do", o.ok and f.category is (cat or (Feature.Category.Config if st else Feature.Category.Info)))
    o = c.call(getattr, f, "value")
    if typ is T.Action:
        c.check("an action has no value", o.ok and o.value == "<Action>")
    elif g == "none":
        c.check("without a getter there is no value", o.exactly(ValueError))
    else:
        c.check("the value is read from the feature's own container", o.ok and c.eq(o.value, x if box is None else y))


@contract("C20", "shown", funcs=("Feature.__repr__",), covers=("value", "choice", "number", "unreadable", "bad choice"))
def shown(c):
    """A feature can always be shown: name, id and value with unit, limits or choices, or why it cannot be read."""
    from enum import Enum

    class Kind(Enum):
        One = "first"
        Two = "second"

    how = c.pick("how", ["value", "choice", "number", "unreadable", "bad choice"])
    c.cover(how)
    box = Box()
    f = lambda typ, **kw: c.call(Feature, device=box, id="fid", name="Fname", type=typ, attribute_getter="attr", **({"attribute_setter": "setter"} if typ in (T.Choice, T.Number) else {}), **kw).value
    if how == "value":
        value, prec, want = c.pick("value", [(7, None, "7"), (1.23456, 2, "1.23"), (1.25, None, "1.25"), (5, 1, "5"), (1.25, 1, f"{round(1.25, 1)}"), (2.75, 0, f"{round(2.75, 0)}"), ("text", None, "text"), (None, None, "None"), (True, None, "True"), (Kind.One, None, repr(Kind.One))])
        unit = c.pick("unit", [None, "W", "", Kind.Two])
        box.attr = value
        x = f(T.Sensor, precision_hint=prec, **({} if unit is None else {"unit_getter": lambda: unit}))
        want = f"Fname (fid): {want}" + ("" if unit is None else f" {unit!r}" if isinstance(unit, Kind) else f" {unit}")
    elif how == "number":
        box.attr, box.lim = 5, (c.pick("min", [0, -20]), c.pick("max", [5, 100]))
        x = f(T.Number, range_getter=lambda: box.lim)
        want = f"Fname (fid): 5 (range: {box.lim[0]}-{box.lim[1]})"
    elif how == "choice":
        box.attr, marked = c.pick("choice", [("a", "*a* b"), ("b", "a *b*"), ("c", "a b"), (Kind.Two, "One *Two*")])
        box.options = ["One", "Two"] if isinstance(box.attr, Kind) else ["a", "b"]
        x = f(T.Choice, choices_getter="names")
        want = f"Fname (fid): {marked}"
    elif how == "bad choice":
        box.attr = Kind.Two
        box.options = c.pick("choices", [["a"], None, ("Two",)])
        x = f(T.Choice, choices_getter=lambda: box.options)
        want = None
    else:
        x = f(T.Sensor)
        del box.attr
        want = None
    o = c.call(x.__repr__)
    if want is not None:
        c.check("it is shown with its value", o.ok and o.value == want, lambda: f"{o} instead of {want}")
    else:
        c.check("what cannot be shown properly says so", o.ok and "fid" in o.value and any(k in o.value for k in ("Unable to read", "invalid value", "improperly defined")), lambda: f"{o}")
