"""C06: the XOR cipher of the legacy protocol (the library's own implementation; an installed C replacement shadows it)."""
import importlib.util
import struct
import sys

import z3

import kasa.transports.xortransport as live
from pyvc import values as V
from pyvc.registry import contract, prop
from pyvc.values import SInt, mkbool, zi

prop("C06", assumptions=("UTF-8 encoding and decoding are inverse (uninterpreted functions with that axiom)",
                         "requests are shorter than 4 GiB", "an optional C implementation of the cipher, when installed, replaces the verified code at import time and is outside /repo"))


def pure():
    """The module as it is when the optional C implementation is absent."""
    name = "kasa.transports._pyvc_pure_xortransport"
    if name not in sys.modules:
        saved = sys.modules.get("kasa_crypt", 0)
        sys.modules["kasa_crypt"] = None
        try:
            spec = importlib.util.spec_from_file_location(name, live.__file__)
            m = importlib.util.module_from_spec(spec)
            sys.modules[name] = m
            spec.loader.exec_module(m)
        finally:
            if saved == 0:
                del sys.modules["kasa_crypt"]
            else:
                sys.modules["kasa_crypt"] = saved
    return sys.modules[name]


X = pure().XorEncryption


def ref_encrypt(b):
    out, key = [], 171
    for x in b:
        key ^= x
        out.append(key)
    return bytes(out)


def ref_decrypt(b):
    out, key = [], 171
    for x in b:
        out.append(key ^ x)
        key = x
    return bytes(out)


def spec_terms(c, plain):
    """E(k): the k-th cipher byte, defined by E(-1)=171, E(k)=E(k-1)^plain[k]."""
    E = c.uf("cipher", z3.IntSort(), z3.BitVecSort(8))
    c.add(E(z3.IntVal(-1)) == 171)

    def at(k):
        i = z3.simplify(zi(k))
        c.add(z3.Implies(z3.And(i >= 0, i < z3.Length(plain.e)), E(i) == E(i - 1) ^ plain.e[i]))
        return SInt(z3.BV2Int(E(i)))

    return lambda k: SInt(z3.BV2Int(E(z3.simplify(zi(k) - 1)))), at


@contract("C06", funcs=("XorEncryption.encrypt",), covers=("any index",))
def encrypt_bytes(c):
    s = c.str("request")
    plain = s.encode()
    c.assume((plain.s_len() if c.symbolic else len(plain)) < 2**32)
    if c.symbolic:
        prev, cur = spec_terms(c, plain)
        c.hint("previous cipher byte", prev)
        c.hint("cipher byte", cur)
    o = c.call(X.encrypt, s)
    c.check("encryption succeeds", o.ok)
    r = o.value
    if not c.symbolic:
        c.check("length prefix and chained bytes", r == struct.pack(">I", len(plain)) + ref_encrypt(plain))
        c.check("agrees with the installed implementation", r == live.XorEncryption.encrypt(s))
        c.cover("any index")
        return
    n = plain.s_len()
    c.check("the output is a four byte prefix and as many bytes as the plaintext has", r.s_len() == n + 4)
    pre = [r[i] for i in range(4)]
    c.check("the prefix is the plaintext length, big endian", pre[0] * 16777216 + pre[1] * 65536 + pre[2] * 256 + pre[3] == n)
    j = c.int("j", 0)
    c.assume(j < n)
    c.byte_at(j)
    c.check("every cipher byte is the previous one xor the plaintext byte", r[j + 4] == cur(j))
    c.cover("any index")


@contract("C06", funcs=("XorEncryption.decrypt",), covers=("any index",))
def roundtrip(c):
    s = c.str("request")
    plain = s.encode()
    if not c.symbolic:
        o = c.call(X.decrypt, X.encrypt(s)[4:])
        c.check("decrypting an encrypted request gives the request back", o.ok and o.value == s)
        c.check("the installed implementation understands it", live.XorEncryption.decrypt(X.encrypt(s)[4:]) == s)
        c.cover("any index")
        return
    E = c.uf("cipher", z3.IntSort(), z3.BitVecSort(8))
    prev, cur = spec_terms(c, plain)
    n = plain.s_len()
    # the contract of encrypt, proved above: the body is some byte string with these bytes
    body = c.bytes("cipher")
    c.assume(body.s_len() == n)

    def tie(k):
        cur(k)
        for i in (zi(k), zi(k) - 1):
            c.add(z3.Implies(z3.And(i >= 0, i < zi(n)), body.e[z3.simplify(i)] == E(z3.simplify(i))))

    def plain_at(k):
        tie(k)
        i = z3.simplify(zi(k))
        return SInt(z3.BV2Int(plain.e[i]))

    def prev_at(k):
        tie(k)
        i = z3.simplify(zi(k))
        return SInt(z3.BV2Int(z3.If(i == 0, z3.BitVecVal(171, 8), body.e[z3.simplify(i - 1)])))

    c.hint("previous cipher byte", prev_at)
    c.hint("plain byte", plain_at)
    got = {}

    import kasa  # noqa: F401

    dec_in = {}
    orig = V.SBytes.decode

    def spy(self, *a):
        dec_in["b"] = self
        return orig(self, *a)

    c.patch(V.SBytes, "decode", spy)
    o = c.call(X.decrypt, body)
    c.check("decryption succeeds", o.ok)
    b = dec_in["b"]
    c.check("as many plaintext bytes as cipher bytes", b.s_len() == n)
    j = c.int("j", 0)
    c.assume(j < n)
    c.byte_at(j)
    c.check("every decrypted byte is the plaintext byte", b[j] == plain[j])
    c.cover("any index")


@contract("C06", funcs=("XorEncryption.decrypt",), covers=("any index",))
def decrypt_bytes(c):
    """Whatever a device sends: the plaintext bytes are the neighbouring cipher bytes xored."""
    if not c.symbolic:
        b = ref_encrypt(c.str("text").encode())
        o = c.call(X.decrypt, b)
        c.check("chained bytes", o.ok and o.value.encode() == ref_decrypt(b))
        c.cover("any index")
        return
    body = c.bytes("cipher")
    n = body.s_len()

    def prev_at(k):
        i = z3.simplify(zi(k))
        return SInt(z3.BV2Int(z3.If(i == 0, z3.BitVecVal(171, 8), body.e[z3.simplify(i - 1)])))

    def cur(k):
        i = z3.simplify(zi(k))
        return SInt(z3.BV2Int(z3.If(i == 0, z3.BitVecVal(171, 8), body.e[z3.simplify(i - 1)]) ^ body.e[i]))

    c.hint("previous cipher byte", prev_at)
    c.hint("plain byte", cur)
    dec_in = {}
    orig = V.SBytes.decode

    def spy(self, *a):
        dec_in["b"] = self
        return orig(self, *a)

    c.patch(V.SBytes, "decode", spy)
    o = c.call(X.decrypt, body)
    b = dec_in["b"]
    c.check("as many plaintext bytes as cipher bytes", b.s_len() == n)
    j = c.int("j", 0)
    c.assume(j < n)
    c.byte_at(j)
    c.check("every plaintext byte is its cipher byte xor the one before", b[j] == cur(j))
    c.cover("any index")
