"""C07: the connection life cycle of the legacy TCP transport."""
import asyncio
import errno
import json
import socket

from kasa.deviceconfig import DeviceConfig
from kasa.exceptions import KasaException, TimeoutError as KasaTimeoutError, _ConnectionError, _RetryableError
from pyvc.registry import contract, prop

from .c06_xor import pure
from .common import deadlines, limited

prop("C07", assumptions=("asyncio streams: open_connection yields a reader and a writer or raises; any stream operation may raise anything",
                         "readexactly(n) returns n bytes or raises", "the cipher is replaced by its contract (C06)"))


class Weird(Exception):
    pass


class Hard(BaseException):
    pass


NO_RETRY = {errno.EHOSTDOWN, errno.EHOSTUNREACH, errno.ECONNREFUSED}
CONNECT_FAULTS = {
    "timeout": (TimeoutError, KasaTimeoutError), "refused": (lambda: ConnectionRefusedError(errno.ECONNREFUSED, "x"), KasaException),
    "refused-noerrno": (ConnectionRefusedError, KasaException), "noerrno": (lambda: OSError("x"), _RetryableError), "other": (Weird, _RetryableError),
    "reset": (lambda: ConnectionResetError(errno.ECONNRESET, "x"), _RetryableError), "gai": (lambda: socket.gaierror(-2, "x"), _RetryableError),
}
IO_FAULTS = {"timeout": (TimeoutError, KasaTimeoutError), "incomplete": (lambda: asyncio.IncompleteReadError(b"", 4), _RetryableError),
             "reset": (lambda: ConnectionResetError(errno.ECONNRESET, "x"), _RetryableError), "other": (Weird, _RetryableError)}
STOP = {"cancelled": asyncio.CancelledError, "hard": Hard}


class Net:
    """The stand-in for the operating system: at most one fault, at a chosen point."""

    def __init__(self, c, cfg):
        self.c, self.cfg = c, cfg
        self.st = deadlines(c)
        self.open = []  # writers opened and not closed
        self.opened = 0
        self.fault = None
        self.want = None
        self.log = []
        c.patch(asyncio, "open_connection", self.open_connection)

    def arm(self, where, mk, want):
        self.fault, self.want = (where, mk), want

    def hit(self, where):
        self.c.check("every wait for the device is limited by the configured timeout", limited(self.c, self.st, self.cfg.timeout))
        if self.fault and self.fault[0] == where:
            e = self.raised = self.fault[1]()
            self.fault = None
            raise e

    async def open_connection(self, host=None, port=None, **kw):
        c = self.c
        c.check("the connection goes to the configured host and port", c.and_(host == "127.0.0.9", c.eq(port, self.cfg.port_override or 9999)))
        c.check("no second connection while one is open", not self.open)
        self.hit("connect")
        self.opened += 1
        w = Writer(self)
        self.open.append(w)
        return Reader(self, w), w


class Writer:
    def __init__(self, net):
        self.net = net
        self.sent = []

    def get_extra_info(self, name, default=None):
        return self.net.c.notes["sock"] if name == "socket" else default

    def write(self, data):
        self.sent.append(data)
        if self.net.fault and self.net.fault[0] == "write":
            self.net.hit("write")

    async def drain(self):
        self.net.hit("drain")

    def close(self):
        if self in self.net.open:
            self.net.open.remove(self)

    def is_closing(self):
        return self not in self.net.open

    async def wait_closed(self):
        if self.net.wait_closed_fails:
            raise Weird("wait_closed")


class Reader:
    def __init__(self, net, w):
        self.net, self.w, self.reads = net, w, []

    async def readexactly(self, n):
        c = self.net.c
        net = self.net
        self.reads.append(n)
        if len(self.reads) % 2 == 1:
            net.hit("head")
            c.check("the length prefix is read first", c.eq(n, 4))
            net.length = c.int("length", 0, 2**32 - 1)
            if c.symbolic:
                return c.notes["pack"](net.length)
            import struct

            return struct.pack(">I", net.length)
        net.hit("body")
        c.check("exactly the announced number of bytes is read", c.eq(n, net.length))
        return net.body


class Sock:
    def setsockopt(self, *a):
        pass


def setup(c):
    X = pure()
    cfg = DeviceConfig("127.0.0.9", timeout=c.int("timeout", 1, None if c.symbolic else 50))
    if c.maybe("port given"):
        cfg.port_override = c.int("port", 1, 65535)
    net = Net(c, cfg)
    c.notes["sock"] = Sock()
    if c.symbolic:
        import struct

        from pyvc import models  # noqa: F401

        c.notes["pack"] = lambda v: c.S.interp.pack_be(v, 4, False, struct.error)
    net.wait_closed_fails = c.maybe("wait_closed fails")
    net.body = b"body"
    net.reply = {"system": {"x": c.int("reply")}}
    net.decrypt_fault = None

    def enc(req):
        net.asked = req
        return b"frame:" + req.encode()

    def dec(data):
        c.check("what is decrypted is the body read", data == net.body)
        if net.decrypt_fault == "undecodable":
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "x")
        if net.decrypt_fault == "notjson":
            return "{nope"
        if c.symbolic:
            from pyvc.models import SJson

            return SJson(net.reply)
        return json.dumps(net.reply)

    c.patch(X.XorEncryption, "encrypt", staticmethod(enc))
    c.patch(X.XorEncryption, "decrypt", staticmethod(dec))
    return X.XorTransport(config=cfg), net


def good_send(c, t, net, first):
    n = net.opened
    o = c.call(t.send, "ping")
    c.check("an undisturbed send succeeds", o.ok)
    c.check("the device's answer is returned", c.eq(o.value, net.reply))
    c.check("a connection is opened exactly when none is open", net.opened == n + (1 if first else 0))
    c.check("the connection stays open", len(net.open) == 1)
    c.check("the request goes out once, as one frame, on the open connection", net.open[0].sent[-1] == b"frame:ping")


@contract("C07", funcs=("XorTransport.send", "XorTransport._connect", "XorTransport._execute_send", "XorTransport.close"),
          covers=("connect fault", "io fault", "stop", "bad answer", "recovered"))
def one_send(c):
    t, net = setup(c)
    connected = c.maybe("already connected")
    if connected:
        good_send(c, t, net, True)
        base = len(net.open[0].sent)
    kind = c.pick("fault", ["connect", "io", "stop", "answer"])
    if kind == "connect":
        if connected:
            c.assume(False)
        if c.maybe("oserror"):
            no = c.int("errno", 1, 200, pool=tuple(NO_RETRY) + (110, 104, 101))
            # ETIMEDOUT and ECONNREFUSED make Python build the matching OSError subclass
            sub = {errno.ECONNREFUSED: ConnectionRefusedError, errno.ETIMEDOUT: TimeoutError}
            exc = OSError("x")
            for k in sub:
                if c.force(no) == k:
                    exc = sub[k]("x")
            exc.errno = no
            net.arm("connect", lambda: exc, None)
            o = c.call(t.send, "ping")
            c.check("the send fails", not o.ok)
            if isinstance(exc, TimeoutError):
                c.check("a connect timeout is a timeout", o.exactly(KasaTimeoutError))
            else:
                hard = c.or_(*[c.eq(no, k) for k in NO_RETRY])
                c.check("an unreachable or refusing host is not retried, other network errors are", c.or_(
                    c.and_(hard, o.exactly(KasaException)), c.and_(c.not_(hard), o.exactly(_RetryableError))))
        else:
            mk, want = CONNECT_FAULTS[c.pick("what", list(CONNECT_FAULTS))]
            net.arm("connect", mk, want)
            o = c.call(t.send, "ping")
            c.check("a failed connect gives its documented error", o.exactly(want))
            c.check("the cause is kept", o.exc.__cause__ is net.raised)
        c.cover("connect fault")
    elif kind == "io":
        where = c.pick("where", ["write", "drain", "head", "body"])
        mk, want = IO_FAULTS[c.pick("what", list(IO_FAULTS))]
        net.arm(where, mk, want)
        o = c.call(t.send, "ping")
        c.check("a failed exchange gives its documented error", o.exactly(want))
        c.cover("io fault")
    elif kind == "stop":
        where = c.pick("where", (["connect"] if not connected else []) + ["drain", "head", "body"])
        cls = STOP[c.pick("what", list(STOP))]
        net.arm(where, cls, cls)
        o = c.call(t.send, "ping")
        c.check("a cancellation passes through unchanged", o.exactly(cls))
        c.cover("stop")
    else:
        net.decrypt_fault = c.pick("what", ["undecodable", "notjson"])
        o = c.call(t.send, "ping")
        c.check("an unintelligible answer is retryable", o.exactly(_RetryableError))
        net.decrypt_fault = None
        c.cover("bad answer")
    c.check("no connection is left open after a failure", not net.open)
    good_send(c, t, net, True)
    c.cover("recovered")


@contract("C07", funcs=("XorTransport.send", "XorTransport.close", "XorTransport.reset"), covers=("closed",))
def reuse_and_close(c):
    t, net = setup(c)
    good_send(c, t, net, True)
    good_send(c, t, net, False)
    o = c.call(c.pick("how", [t.close, t.reset]))
    c.check("closing succeeds whatever the stream does", o.ok)
    c.check("the connection is closed", not net.open)
    o = c.call(t.close)
    c.check("closing twice is harmless", o.ok and not net.open)
    good_send(c, t, net, True)
    c.cover("closed")
