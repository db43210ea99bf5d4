"""C08: the KLAP message cipher and its sequence numbers."""
from kasa.transports.klaptransport import KlapEncryptionSession
from pyvc.registry import contract, prop

from .common import crypto, digest, from_be_signed, json_text, pack_signed

prop("C08", assumptions=("SHA-256, AES-CBC and PKCS#7 are uninterpreted functions with their length laws and decrypt(encrypt(x)) = x, unpad(pad(x)) = x",
                         "UTF-8 encoding and decoding are inverse"))


class Spec:
    def __init__(self, c, ls, rs, uh):
        self.c, self.k = c, crypto(c)
        h = lambda tag: digest(c, "sha256", tag + ls + rs + uh)
        self.key, self.iv, self.sig = h(b"lsk")[:16], h(b"iv")[:12], h(b"ldk")[:28]
        self.seq = from_be_signed(c, h(b"iv")[-4:])

    def step(self):
        self.seq = -(2**31) if self.seq == 2**31 - 1 else self.seq + 1
        return self.seq

    def frame(self, msg, seq):
        s = pack_signed(self.c, seq)
        ct = self.k.enc(self.key, self.iv + s, self.k.pad(msg))
        return digest(self.c, "sha256", self.sig + s + ct) + ct

    def answer(self, prefix, msg, seq):
        return prefix + self.k.enc(self.key, self.iv + pack_signed(self.c, seq), self.k.pad(msg))


@contract("C08", funcs=("KlapEncryptionSession.encrypt", "KlapEncryptionSession.decrypt", "KlapEncryptionSession.__init__"), covers=("sent", "answered", "wrap"), opts={"abstract": True})
def messages(c):
    ls, rs, uh = c.bytes("local", 16), c.bytes("remote", 16), c.bytes("hash", lo=16, hi=32)
    if not c.symbolic and c.maybe("near the end"):
        # concrete only: a key schedule whose sequence starts just below the largest number
        import hashlib
        real = hashlib.sha256

        class H:
            def __init__(self, d=b""):
                self.d = d

            def digest(self):
                v = real(self.d).digest()
                return v[:28] + bytes.fromhex("7ffffffe") if self.d.startswith(b"iv") else v

        c.patch(hashlib, "sha256", H)
    o = c.call(KlapEncryptionSession, ls, rs, uh)
    c.check("a session can be built from any seeds", o.ok)
    s, spec = o.value, Spec(c, ls, rs, uh)
    for i in range(3):
        before = spec.seq
        seq = spec.step()
        text = c.str("msg")
        as_bytes = c.maybe("bytes")
        m = c.call(s.encrypt, text.encode() if as_bytes else text)
        c.check("every message can be encrypted", m.ok)
        c.check("the sequence number is the previous one plus one, as a signed 32-bit counter", c.eq(m.value[1], seq))
        c.check("the frame is the signature and ciphertext under this sequence number", c.eq(m.value[0], spec.frame(text.encode(), seq)))
        c.cover("sent")
        if c.force(before == 2**31 - 1):
            c.cover("wrap")
        if i == 1:
            reply = c.str("reply")
            d = c.call(s.decrypt, spec.answer(c.bytes("signature", 32), reply.encode(), seq))
            c.check("the answer to this message is readable", d.ok and c.eq(d.value, reply))
            c.cover("answered")
