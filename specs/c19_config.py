"""C19: a stored configuration connects the same way, with the credentials asked for."""
import base64
import json

from kasa.credentials import Credentials
from kasa.deviceconfig import DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.exceptions import KasaException
from kasa.transports import AesTransport, KlapTransport, KlapTransportV2, LinkieTransportV2, SslAesTransport, SslTransport, XorTransport
from pyvc.registry import contract, prop

from .common import Http

prop("C19", assumptions=("mashumaro's generated serialization passes numbers and texts on unchanged (the same for every value)",))

FAMILIES = ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", "SMART.KASAPLUG", "SMART.KASASWITCH", "SMART.TAPOPLUG", "SMART.TAPOBULB", "SMART.TAPOSWITCH", "SMART.TAPOHUB", "SMART.KASAHUB", "SMART.IPCAMERA", "SMART.TAPOROBOVAC", "SMART.TAPOCHIME", "SMART.TAPODOORBELL"]
ENCRYPTIONS = ["KLAP", "AES", "XOR"]


def parameters(c):
    fam, enc = c.pick("family", FAMILIES), c.pick("encryption", ENCRYPTIONS)
    lv, port = (c.int("login version", 0, 10) if c.pick("login version given", [True, False]) else None), (c.int("http port", 1, 65535) if c.pick("http port given", [True, False]) else None)
    https = c.pick("https", [True, False])
    return DeviceConnectionParameters(DeviceFamily(fam), DeviceEncryptionType(enc), lv, https, port), {"device_family": fam, "encryption_type": enc, "https": https, **({"login_version": lv} if lv is not None else {}), **({"http_port": port} if port is not None else {})}


def config(c, params):
    kw, exp = {"host": c.str("host")}, {}
    exp["host"] = kw["host"]
    kw["timeout"] = c.pick("timeout", [5, 17, None])
    for k, make in (("port_override", lambda: c.int("port", 1, 65535)), ("batch_size", lambda: c.int("batch", 0, 100)), ("credentials_hash", lambda: c.str("hash"))):
        if c.pick(k + " given", [True, False]):
            kw[k] = exp[k] = make()
    if kw["timeout"] is not None:
        exp["timeout"] = kw["timeout"]
    if c.pick("credentials given", [True, False]):
        u, pw = c.str("user"), c.str("password")
        kw["credentials"], exp["credentials"] = Credentials(u, pw), {"username": u, "password": pw}
    if c.pick("keys given", [True, False]):
        kw["aes_keys"] = exp["aes_keys"] = {"private": "PRIV", "public": "PUB"}
    kw["connection_type"], exp["connection_type"] = params
    return DeviceConfig(**kw, http_client=c.pick("client", [None, "a client"])), exp


SMALL = [("SMART.TAPOBULB", "KLAP", 2, True, 80), ("IOT.SMARTPLUGSWITCH", "XOR", None, False, None)]


def small(c):
    fam, enc, lv, https, port = c.pick("parameters", SMALL)
    return DeviceConnectionParameters(DeviceFamily(fam), DeviceEncryptionType(enc), lv, https, port), {"device_family": fam, "encryption_type": enc, "https": https, **({"login_version": lv} if lv is not None else {}), **({"http_port": port} if port is not None else {})}


def equal(c, a, b):
    return c.and_(*[c.same(getattr(a, k), getattr(b, k)) for k in ("host", "timeout", "port_override", "credentials_hash", "batch_size", "aes_keys")],
                  (a.credentials is None) == (b.credentials is None), a.credentials is None or b.credentials is None or c.and_(c.same(a.credentials.username, b.credentials.username), c.same(a.credentials.password, b.credentials.password)),
                  *[c.same(getattr(a.connection_type, k), getattr(b.connection_type, k)) for k in ("device_family", "encryption_type", "login_version", "https", "http_port")])


@contract("C19", "roundtrip", funcs=("DeviceConfig.to_dict", "DeviceConfig.from_dict", "DeviceConfig.uses_http", "DeviceConfig.__post_init__"), covers=("checked",), opts={"max_paths": 20000})
def roundtrip(c):
    cfg, exp = config(c, small(c))
    o = c.call(cfg.to_dict)
    c.cover("checked")
    c.check("exactly the given settings are stored, without the client", o.ok and c.same(o.value, exp), lambda: f"{o} instead of {exp}")
    r = c.call(DeviceConfig.from_dict, o.value)
    want = cfg
    if cfg.timeout is None:
        want = DeviceConfig(**{**{k: getattr(cfg, k) for k in ("host", "port_override", "credentials", "credentials_hash", "batch_size", "connection_type", "aes_keys")}, "timeout": r.value.timeout if r.ok else None})
    c.check("the stored settings come back", r.ok and equal(c, r.value, want), lambda: f"{r} instead of {cfg}")
    c.check("no client comes back", r.ok and r.value.http_client is None)


@contract("C19", "parameters", funcs=("DeviceConnectionParameters.from_values", "DeviceConnectionParameters.to_dict", "DeviceConnectionParameters.from_dict", "DeviceConfig.uses_http"), covers=("known", "unknown"), opts={"max_paths": 20000})
def conn(c):
    p, exp = parameters(c)
    o = c.call(p.to_dict)
    c.check("the connection is stored as given", o.ok and c.same(o.value, exp), lambda: f"{o}")
    r = c.call(DeviceConnectionParameters.from_dict, o.value)
    c.check("and comes back", r.ok and c.and_(*[c.same(getattr(r.value, k), getattr(p, k)) for k in ("device_family", "encryption_type", "login_version", "https", "http_port")]), lambda: f"{r}")
    u = c.call(getattr, DeviceConfig("h", connection_type=p), "uses_http")
    c.check("only plain legacy connections do without http", u.ok and u.value is (exp["encryption_type"] != "XOR" or exp["https"]), lambda: f"{u}")
    bad = c.pick("unknown", [None, "family", "encryption", "both", "case"])
    fam, enc = {None: (exp["device_family"], exp["encryption_type"]), "family": ("SMART.NEW", exp["encryption_type"]), "encryption": (exp["device_family"], "TLS"), "both": ("", ""), "case": (exp["device_family"].lower(), exp["encryption_type"])}[bad]
    kw = {k: exp[k] for k in ("login_version", "http_port") if k in exp}
    if exp["https"] or c.pick("https given", [True, False]):
        kw["https"] = exp["https"]
    v = c.call(DeviceConnectionParameters.from_values, fam, enc, **kw)
    if bad:
        c.cover("unknown")
        c.check("unknown families and encryptions are refused", v.exactly(KasaException), lambda: f"{v}")
    else:
        c.cover("known")
        c.check("the connection is as described", v.ok and c.and_(*[c.same(getattr(v.value, k), getattr(p, k)) for k in ("device_family", "encryption_type", "login_version", "https", "http_port")]), lambda: f"{v}")


@contract("C19", "credentials", funcs=("DeviceConfig.to_dict_control_credentials",), covers=("hash", "empty", "exclude", "all"), opts={"max_paths": 20000})
def credentials(c):
    cfg, exp = config(c, small(c))
    before = {**cfg.__dict__}
    kw = {}
    h = c.pick("hash given", [None, "", "text"])
    if h == "text":
        h = c.str("new hash", nonempty=True)
    if h is not None or c.pick("hash none given", [True, False]):
        kw["credentials_hash"] = h
    excl = c.pick("exclude", [None, True, False])
    if excl is not None:
        kw["exclude_credentials"] = excl
    o = c.call(cfg.to_dict_control_credentials, **kw)
    want = dict(exp)
    if h is None:
        c.cover("exclude" if excl else "all")
        if excl:
            want.pop("credentials", None)
    else:
        c.cover("empty" if isinstance(h, str) and h == "" else "hash")
        want.pop("credentials", None)
        want.pop("credentials_hash", None)
        if not (isinstance(h, str) and h == ""):
            want["credentials_hash"] = h
    c.check("exactly the credentials asked for are stored", o.ok and c.same(o.value, want), lambda: f"{o} instead of {want}")
    c.check("the configuration itself is not changed", all(cfg.__dict__[k] is v for k, v in before.items()))


def same_secrets(c, a, b):
    return {
        KlapTransport: lambda: c.same(a._local_auth_hash, b._local_auth_hash),
        KlapTransportV2: lambda: c.same(a._local_auth_hash, b._local_auth_hash),
        AesTransport: lambda: c.same(a._login_params, b._login_params),
        SslTransport: lambda: c.same(a._login_params, b._login_params),
        SslAesTransport: lambda: c.and_(c.same(a._username, b._username), c.same(a._password, b._password)),
    }[type(a)]()


@contract("C19", "hash", funcs=("KlapTransport.credentials_hash", "KlapTransport.__init__", "AesTransport.credentials_hash", "AesTransport.__init__", "SslAesTransport.credentials_hash", "SslAesTransport.__init__", "SslTransport.credentials_hash", "SslTransport.__init__", "XorTransport.credentials_hash", "Device.credentials_hash"), covers=("hash", "no hash", "blank"), opts={"abstract": True})
def hashes(c):
    """Connecting with the stored hash uses the secrets the credentials gave."""
    Http(c, None)
    cls = c.pick("transport", [KlapTransport, KlapTransportV2, AesTransport, SslAesTransport, SslTransport, XorTransport])
    u, pw = c.str("user", nonempty=True), c.str("password", nonempty=True)
    ct = DeviceConnectionParameters(DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Aes, c.pick("login version", [None, 1, 2]))
    if c.pick("blank", [True, False]):
        c.cover("blank")
        o = c.call(cls, config=DeviceConfig("h", connection_type=ct))
        v = c.call(getattr, o.value, "credentials_hash")
        c.check("no credentials, no hash", o.ok and v.ok and (v.value is None or cls is SslTransport), lambda: f"{o} {v}")
        return
    kw = {"credentials_hash": c.str("another hash")} if c.pick("and a hash", [False, True]) else {}
    o = c.call(cls, config=DeviceConfig("h", credentials=Credentials(u, pw), connection_type=ct, **kw))
    h = c.call(getattr, o.value, "credentials_hash")
    if cls is XorTransport:
        c.cover("no hash")
        c.check("no credentials, no hash", h.ok and h.value is None)
        return
    c.cover("hash")
    c.check("credentials give a hash", h.ok and h.value is not None, lambda: f"{h}")
    r = c.call(cls, config=DeviceConfig("h", credentials_hash=h.value, connection_type=ct))
    c.check("the hash gives the same secrets", o.ok and r.ok and same_secrets(c, o.value, r.value), lambda: f"{r}")
    if cls in (KlapTransport, KlapTransportV2, SslAesTransport):
        h2 = c.call(getattr, r.value, "credentials_hash")
        c.check("and the same hash again", h2.ok and c.same(h2.value, h.value), lambda: f"{h2} instead of {h}")
