"""C23: a command to a legacy device is one request with one verified answer."""
from kasa.exceptions import KasaException
from kasa.iot import IotBulb, IotDevice, IotPlug, IotStrip
from kasa.iot.iotstrip import IotStripPlug
from kasa.iot.modules.usage import Usage
from pyvc.registry import contract, prop

from .devices import AnySocket, Kids, iot, socket_of_any_strip

prop("C23")


@contract("C23", "answers", funcs=("IotDevice._query_helper", "IotDevice._raw_query", "IotDevice._create_request"), covers=("answered", "refused"))
def answers(c):
    arg = c.pick("arg", [None, {}, {"x": 1}])
    kids = c.pick("child_ids", [None, ["00"], ["00", "01"]])
    inner = {"value": c.int("payload"), "text": c.str("text")}
    target, cmd = c.pick("where", [("system", "set_x"), ("smartlife.iot.common.emeter", "get_realtime")])
    other = c.pick("other", ["nothing", "other target", "other command"])
    ans, bad = {}, False
    if c.maybe("target missing"):
        bad = True
    else:
        t = ans[target] = {}
        if c.maybe("target code"):
            t["err_code"] = e = c.int("target.err_code")
            bad = c.or_(bad, e != 0)
        if c.maybe("command missing"):
            bad = True
        else:
            r = t[cmd] = dict(inner)
            if c.maybe("code"):
                r["err_code"] = e = c.int("err_code")
                bad = c.or_(bad, e != 0)
        if other == "other command":
            t["other"] = {"err_code": 0}
    if other == "other target":
        ans["elsewhere"] = {"err_code": -1}
    fail = c.pick("failure", [None, KasaException("k"), OSError("o")])

    def on(r):
        if fail:
            raise fail
        return ans

    d, p = iot(IotPlug, on)
    o = c.call(d._query_helper, target, cmd, arg, kids)
    want = {target: {cmd: arg if arg is not None else {}}}
    if kids is not None:
        want["context"] = {"child_ids": kids}
    c.check("exactly one request is sent, for this command", len(p.sent) == 1 and c.same(p.sent[0], want))
    if o.ok:
        c.cover("answered")
        c.check("only a complete answer without error code succeeds", c.and_(fail is None, c.not_(bad)))
        c.check("the answer is the command's own result", c.same(o.value, inner))
    else:
        c.cover("refused")
        c.check("only failures raise", c.or_(fail is not None, bad))
        c.check("always as a library error", isinstance(o.exc, KasaException))
        c.check("a communication failure is named as the cause", fail is None or o.exc is fail or o.exc.__cause__ is fail)


@contract("C23", "sockets", funcs=("IotStripPlug._query_helper", "IotStripPlug._create_request"))
def sockets(c):
    d, p = iot(IotStrip, sys_info={"children": [{"id": i, "state": 1, "alias": i} for i in ("00", "01", "02")]})
    me = c.pick("socket", ["00", "01", "02"])
    k = IotStripPlug("127.0.0.1", parent=d, child_id=me)
    v = c.int("v")
    p.on_query = lambda r: {t: {m: {"value": v, "err_code": 0} for m in r[t]} for t in r if t != "context"}
    what = c.pick("command", ["turn_on", "turn_off", "set_alias", "usage", "set_state"])
    name = c.str("alias")
    if what == "usage":
        u = c.call(Usage, k, "schedule").value
        o = c.call(u.call, "erase_runtime_stat")
        want = {"schedule": {"erase_runtime_stat": {}}}
    elif what == "set_alias":
        o = c.call(k.set_alias, name)
        want = {"system": {"set_dev_alias": {"alias": name}}}
    elif what == "set_state":
        on = c.bool("on")
        o = c.call(k.set_state, on)
        c.check("the state asked for is sent", len(p.sent) == 1 and c.eq(p.sent[0]["system"]["set_relay_state"]["state"] == 1, on))
        want = {"system": {"set_relay_state": {"state": p.sent[0]["system"]["set_relay_state"]["state"]}}}
    else:
        o = c.call(getattr, k, what)
        o = c.call(o.value)
        want = {"system": {"set_relay_state": {"state": 1 if what == "turn_on" else 0}}}
    c.check("a socket's command is one request", o.ok and len(p.sent) == 1)
    c.check("addressed to this socket only", c.same(p.sent[0], {"context": {"child_ids": [me]}, **want}))
    c.check("and its answer is returned", c.same(o.value, {"value": v}))


@contract("C23", "strips", funcs=("IotStrip.turn_on", "IotStrip.turn_off", "IotStrip.is_on", "IotStripPlug.is_on"), bounded="three sockets in arbitrary states")
def strips(c):
    ids = ["00", "01", "02"]
    st = {i: c.int("state." + i, 0, 1) for i in ids}
    d, p = iot(IotStrip, sys_info={"children": [{"id": i, "state": st[i], "alias": i} for i in ids]})
    for i in ids:
        d._children[i] = IotStripPlug("127.0.0.1", parent=d, child_id=i)
    o = c.call(getattr, d, "is_on")
    c.check("a strip is on when any socket is", o.ok and c.eq(o.value, c.or_(*[st[i] == 1 for i in ids])))
    p.on_query = lambda r: {t: {m: {} for m in r[t]} for t in r if t != "context"}
    on = c.maybe("turn on")
    o = c.call(d.turn_on if on else d.turn_off)
    c.check("switching works", o.ok)
    goal = 1 if on else 0
    sent = [r["context"]["child_ids"] for r in p.sent]
    c.check("only single sockets are addressed, each at most once", all(len(x) == 1 for x in sent) and len({x[0] for x in sent}) == len(sent))
    c.check("with the state asked for", all(r["system"] == {"set_relay_state": {"state": goal}} for r in p.sent))
    for i in ids:
        c.check("every socket that is not yet in that state is switched", c.implies(st[i] != goal, [i] in sent))


@contract("C23", "socket_of_any_strip", funcs=("IotStripPlug.is_on", "IotStripPlug.alias", "IotStripPlug._get_child_info", "IotStripPlug.device_id"), covers=("on", "off"))
def any_socket(c):
    """What one socket of a strip with any number of them says of itself."""
    d, k, report = socket_of_any_strip(c)
    mine = report("now")
    o = c.call(getattr, k, "is_on")
    c.check("a socket is on as the strip reports of this socket", o.ok and c.eq(o.value, mine["state"] == 1), lambda: f"{o}")
    c.cover("on" if o.ok and c.force(o.value) else "off")
    o = c.call(getattr, k, "alias")
    c.check("and has its own name", o.ok and c.eq(o.value, mine["alias"]), lambda: f"{o}")


@contract("C23", "strips_of_any_size", funcs=("IotStrip.turn_on", "IotStrip.turn_off", "IotStrip.is_on"), covers=("switched", "left"))
def any_strip(c):
    """An arbitrary socket of a strip with any number of them (sockets by the contract above)."""
    goal = 1 if c.maybe("turn on") else 0
    on = c.int("sockets", 1, None if c.symbolic else 8)
    w = c.int("watched", 0, None if c.symbolic else on - 1)
    c.assume(w < on)
    c.ghost("switched")
    if c.symbolic:
        import z3

        from pyvc.values import SBool, SInt, SSeq, zi

        state = c.uf("state", z3.IntSort(), z3.IntSort())

        def switch(k, to):
            async def f(**kw):
                c.check("with the state asked for", to == goal)
                if c.force(c.eq(k, w)):
                    c.bump("switched")
                return {}

            return f

        def socket(k):
            i = zi(k)
            c.add(z3.And(state(i) >= 0, state(i) <= 1))
            return AnySocket(k, is_on=SBool(state(i) == 1), is_off=SBool(state(i) != 1), turn_on=switch(k, 1), turn_off=switch(k, 0))

        d, p = iot(IotStrip, sys_info={"children": []})
        d._children = Kids(SSeq("sockets", on, socket))
        mine = SInt(state(zi(w)))
        d._children.seq.at(w)
        c.try_invariant("", "switched so far", lambda L: c.eq(c.ghosts["switched"], c.ite(c.and_(L.k > w, mine != goal), 1, 0)))
        c.try_invariant("", "switched so far, from the end", lambda L: c.eq(c.ghosts["switched"], c.ite(c.and_(L.k > on - 1 - w, mine != goal), 1, 0)))
    else:
        st = [c.int(f"state.{i}", 0, 1) for i in range(on)]
        d, p = iot(IotStrip, lambda r: {t: {m: {} for m in r[t]} for t in r if t != "context"}, sys_info={"children": [{"id": f"{i:02}", "state": st[i], "alias": "a"} for i in range(on)]})
        for i in range(on):
            d._children[f"{i:02}"] = IotStripPlug("127.0.0.1", parent=d, child_id=f"{i:02}")
        mine = st[w]
    o = c.call(getattr, d, "is_on")
    if o.ok and c.force(o.value):
        if c.symbolic:
            c.check("some socket is on when the strip is", c.or_(*[SBool(state(e) == 1) for e in d._children.seq.places()]))
        else:
            c.check("some socket is on when the strip is", 1 in st)
    else:
        c.check("no socket is on when the strip is off", o.ok and c.eq(mine, 0))
    o = c.call(d.turn_on if goal else d.turn_off)
    c.check("switching works", o.ok, lambda: f"{o}")
    times = c.ghosts["switched"] if c.symbolic else sum(r == {"context": {"child_ids": [f"{w:02}"]}, "system": {"set_relay_state": {"state": goal}}} for r in p.sent)
    if c.force(c.eq(mine, goal)):
        c.cover("left")
        c.check("at most once", times <= 1)
    else:
        c.cover("switched")
        c.check("a socket that is not yet in that state is switched once", c.eq(times, 1))


@contract("C23", "system_commands", funcs=("IotDevice.set_alias", "IotDevice.set_mac", "IotDevice.reboot", "IotDevice.factory_reset", "IotPlug.turn_on", "IotPlug.turn_off", "IotDevice.set_state", "IotDevice.wifi_scan", "IotDevice.wifi_join"))
def system(c):
    what = c.pick("command", ["set_alias", "set_mac", "reboot", "reboot delay", "factory_reset", "turn_on", "turn_off", "set_state", "wifi_scan", "wifi_join"])
    s, n = c.str("text"), c.int("n")
    v = c.int("v")
    old = c.maybe("netif is not supported")
    res = {"value": v}

    def on(r):
        (t, x), = r.items()
        if t == "netif" and old:
            return {"netif": {"err_code": -1, "err_msg": "module not support"}}
        m, = x
        return {t: {m: {"ap_list": [{"ssid": "s", "key_type": 3}], "err_code": 0} if m == "get_scaninfo" else {**res, "err_code": 0}}}

    d, p = iot(IotPlug, on)
    b = c.bool("on")
    kt = c.pick("keytype", ["3", "2"])
    f = {"set_alias": lambda: c.call(d.set_alias, s), "set_mac": lambda: c.call(d.set_mac, s), "reboot": lambda: c.call(d.reboot), "reboot delay": lambda: c.call(d.reboot, n),
         "factory_reset": lambda: c.call(d.factory_reset), "turn_on": lambda: c.call(d.turn_on), "turn_off": lambda: c.call(d.turn_off), "set_state": lambda: c.call(d.set_state, b),
         "wifi_scan": lambda: c.call(d.wifi_scan), "wifi_join": lambda: c.call(d.wifi_join, s, "pw", kt)}
    o = f[what]()
    sys = lambda m, a: [{"system": {m: a}}]
    join = {"set_stainfo": {"ssid": s, "password": "pw", "key_type": int(kt)}}
    net = lambda x: [{"netif": x}] + ([{"smartlife.iot.common.softaponboarding": x}] if old else [])
    want = {"set_alias": lambda: sys("set_dev_alias", {"alias": s}), "set_mac": lambda: sys("set_mac_addr", {"mac": s}), "reboot": lambda: sys("reboot", {"delay": 1}),
            "reboot delay": lambda: sys("reboot", {"delay": n}), "factory_reset": lambda: sys("reset", {}), "turn_on": lambda: sys("set_relay_state", {"state": 1}),
            "turn_off": lambda: sys("set_relay_state", {"state": 0}), "set_state": lambda: None, "wifi_scan": lambda: net({"get_scaninfo": {"refresh": 1}}), "wifi_join": lambda: net(join)}[what]()
    c.check("the command succeeds", o.ok)
    if want is None:
        c.check("the state asked for is sent, once", len(p.sent) == 1 and list(p.sent[0]) == ["system"] and list(p.sent[0]["system"]) == ["set_relay_state"]
                and c.eq(p.sent[0]["system"]["set_relay_state"]["state"] == 1, b))
    else:
        c.check("exactly the documented requests are sent", c.same(p.sent, want))
    if what in ("set_alias", "set_mac", "turn_on", "turn_off", "set_state", "wifi_join"):
        c.check("the device's answer is returned", c.same(o.value, res))
    if what == "wifi_scan":
        c.check("the networks are returned", len(o.value) == 1 and o.value[0].ssid == "s" and o.value[0].key_type == 3)
