"""Real device objects on a protocol whose answers the contract decides."""
from __future__ import annotations

import copy

from kasa.credentials import Credentials
from kasa.deviceconfig import DeviceConfig

from .common import StubTransport

IOT_SYS = {"alias": "a", "deviceId": "D", "hw_ver": "1", "mac": "00:00:00:00:00:01", "model": "HS110(EU)", "sw_ver": "1.0 B", "type": "IOT.SMARTPLUGSWITCH",
           "feature": "TIM:ENE", "relay_state": 1, "on_time": 10, "rssi": -40, "led_off": 0}


def snap(x):
    """The request as it was when it was sent."""
    return {k: snap(v) for k, v in x.items()} if type(x) is dict else [snap(v) for v in x] if type(x) is list else x


class Proto:
    """BaseProtocol whose query() outcome the contract decides."""

    def __init__(self, on_query=None):
        self._transport = StubTransport(None)
        self._transport._credentials = Credentials("u", "p")
        self.on_query, self.sent, self.closed = on_query, [], 0

    @property
    def _host(self):
        return "127.0.0.1"

    @property
    def config(self):
        return self._transport._config

    async def query(self, request, retry_count=3):
        self.sent.append(snap(request))
        return self.on_query(request)

    async def close(self):
        self.closed += 1


def iot(cls, on_query=None, sys_info=None, **last):
    """An updated legacy device (built natively; no symbolic value is inspected)."""
    p = Proto(on_query)
    d = cls("127.0.0.1", config=DeviceConfig("127.0.0.1", credentials=Credentials("u", "p")), protocol=p)
    s = {**copy.deepcopy(IOT_SYS), **(sys_info or {})}
    d._last_update = {"system": {"get_sysinfo": s}, **last}
    d._set_sys_info(s)
    return d, p


def smart(cls=None, on_query=None, info=None, components=None, **last):
    """An updated SMART device (built natively)."""
    if cls is None:
        from kasa.smart import SmartDevice as cls
    p = Proto(on_query)
    d = cls("127.0.0.1", config=DeviceConfig("127.0.0.1", credentials=Credentials("u", "p")), protocol=p)
    i = {"device_id": "D", "device_on": True, "model": "P100", "type": "SMART.TAPOPLUG", "fw_ver": "1.0 B", "hw_ver": "1", "mac": "00-00-00-00-00-01", "rssi": -40,
         "nickname": "", "ssid": "", "specs": "EU", **(info or {})}
    d._last_update = {"get_device_info": i, **last}
    d._info = i
    d._components = dict(components or {})
    return d, p


class Kids:
    """The children of a device with any number of them: to be walked through, and looked up by one id."""

    symbolic_lookup = True

    def __init__(self, seq, c=None, key=None, child=None):
        self.seq, self.c, self.key, self.child = seq, c, key, child

    def values(self):
        return self.seq

    def _no(self, *a, **k):
        from pyvc.values import Unsupported

        raise Unsupported("the children of a device with any number of them")

    __iter__ = __len__ = __bool__ = keys = items = copy = pop = update = _no

    def __contains__(self, key):
        if self.c is None or not self.c.force(self.c.eq(key, self.key)):
            self._no()
        return self.child is not None

    def __getitem__(self, key):
        if key not in self:
            raise KeyError(key)
        return self.child

    def get(self, key, default=None):
        return self.child if key in self else default


class AnySocket:
    """A socket of such a strip, at place k; what is not given here is unknown."""

    def __init__(self, k, **what):
        self.k = k
        self.__dict__.update(what)

    def __getattr__(self, name):
        from pyvc.values import Unsupported

        raise Unsupported(f"{name} of a socket of a strip of any size")


def socket_of_any_strip(c, **more):
    """(strip, one of its sockets, report): a strip with any number of sockets with different ids.

    `report(tag)`: the strip reports anew, what it says of this socket is returned. `more`: further numbers reported with their bounds."""
    from kasa.iot import IotStrip
    from kasa.iot.iotstrip import IotStripPlug

    n = c.int("sockets", 1, None if c.symbolic else 8)
    w = c.int("watched", 0, None if c.symbolic else n - 1)
    c.assume(w < n)
    if c.symbolic:
        import z3

        from pyvc.values import SInt, SSeq, SStr, zi

        z = z3.IntSort()
        ident = c.uf("id", z, z3.StringSort())
        bounds = {"state": (0, 1), **more}

        def report(tag):
            alias, nums = c.uf(f"{tag} alias", z, z3.StringSort()), {k: c.uf(f"{tag} {k}", z, z) for k in bounds}

            def entry(k):
                i = zi(k)
                c.add(z3.Implies(i != zi(w), ident(i) != ident(zi(w))))
                for x, (lo, hi) in bounds.items():
                    c.add(z3.And(nums[x](i) >= lo, nums[x](i) <= hi))
                return {"id": SStr(ident(i)), "alias": SStr(alias(i)), **{x: SInt(f(i)) for x, f in nums.items()}}

            d._sys_info["children"] = SSeq(f"{tag} sockets", n, entry)
            return entry(w)

        c.try_invariant("", "not passed the socket", lambda L: L.k <= w)
        c.try_invariant("", "not passed the socket, from the end", lambda L: L.k <= n - 1 - w)
        me = SStr(ident(zi(w)))
    else:

        def report(tag):
            seq = [{"id": f"id{i}", "alias": f"alias {i} {tag}", "state": c.pick(f"{tag} state{i}", [0, 1]), **{x: c.int(f"{tag} {x}{i}", *b) for x, b in more.items()}} for i in range(n)]
            d._sys_info["children"] = seq
            return seq[w]

        me = f"id{w}"
    d, p = iot(IotStrip, sys_info={"children": []})
    return d, IotStripPlug("127.0.0.1", parent=d, child_id=me), report
