"""Encryption envelope."""
from ..harness import *
from ..harness import _short
from .. import textops as T
from ..terms import mod as rem

KEYS = (16,)
SIZES = (0, 1, 13, 14, 15, 16, 29, 30, 31)


def context(v, kid, key):
    cls = get("elgas.security.CipherContext")
    return I.call(cls, [], {"key_id": kid, "key": key})


def the_key():
    return whole(src("b", "in", "key", 16, len=16))


def as_kind(x, kind):
    return BArr(x) if kind == "bytearray" else x


def C06(c):
    c.explain = ("The output term of the encrypter for a payload of any length is taken apart: header elements, one AES-CBC term, and in its "
                 "argument payload, padding and CRC, the CRC compared with the fold that defines it.")
    rule = "result == length(2, little) + key id + AES-CBC(key, key, payload + pad(0..15) + CRC16 big-endian), argument length a multiple of 16"

    def envelope(v, kind, pre=None, long=False):
        f = get("elgas.security.CipherContext.encrypt")
        w = fnwhere(f)

        def body():
            kid, key = ivar("key_id", 0, 255), the_key()
            o = context(v, kid, key)
            if pre:
                pre(o)
            data = inp("b", "payload", **({} if FIX[0] is not None else {"lo": 65536} if long else {"hi": 65535}))
            n = T.length(data)
            g = outcome(lambda: I.call(I.getattr_(o, "encrypt"), [as_kind(data, kind)], {}))
            if long:
                return v.ok() if g[0] == "exc" else v.fail(w, "encrypt: a payload longer than its length field is accepted")
            if g[0] == "exc":
                return v.fail(w, f"encrypt: raises {exc_text(g[1])}")
            r = plain(g[1])
            if kind_of_(r) != "b":
                return v.fail(w, f"encrypt: gives {_short(r)} instead of bytes")
            sg = segs(T.mat(r))
            if not sg or sg[-1][0] != "s" or not str(sg[-1][1].op).startswith("aes-"):
                v.undecided(f"the result does not end in a cipher term: {_short(r)}")
                return
            s = sg[-1][1]
            if s.op != "aes-cbc-enc" or sg[-1][2] != 0 or sg[-1][3] != s.len:
                return v.fail(w, f"encrypt: result is {_short(r)}, not one whole AES-CBC encryption after the header")
            head = rope("b", sg[:-1])
            ck, iv, d = s.args[:3]
            v.same(head, spec("envelope_head", kid, n), w, "envelope header")
            v.same(ck, key, w, "cipher key")
            v.same(iv, key, w, "initialisation vector")
            m = T.length(d)
            if not decide(ge(m, add(n, 2))):
                return v.fail(w, "encrypt: the encrypted text is shorter than payload and CRC")
            v.same(T.slice_(d, 0, n), data, w, "encrypted payload")
            pad = sub(sub(m, n), 2)
            if not decide(ge(15, pad)):
                return v.fail(w, f"encrypt: {pad} padding bytes")
            if decide(eq(rem(m, 16), 0)) is not True:
                return v.fail(w, "encrypt: encrypted text is not a whole number of blocks")
            crc = spec("crc16", cat(head, T.slice_(d, 0, sub(m, 2))))
            v.same(T.slice_(d, sub(m, 2), m), spec("be16", crc), w, "CRC in the envelope")
        explore(body)

    for kind in ("bytes", "bytearray"):
        c.ob(f"envelope of any {kind}", rule, lambda v, kind=kind: envelope(v, kind), fix=SIZES)
    c.ob("payload too long for the length field", "an error and no truncated length", lambda v: envelope(v, "bytes", long=True), fix=())
    c.ob("envelope of a second payload from the same context", rule,
         lambda v: envelope(v, "bytes", lambda o: I.call(I.getattr_(o, "encrypt"), [b"first"], {})), fix=SIZES)


def kind_of_(r):
    try:
        return kind_of(r)
    except Exception:
        return None


def C07(c):
    c.explain = ("Every trace of the decrypter over an arbitrary envelope is compared with the acceptance conditions; encrypt followed by decrypt "
                 "is evaluated on an arbitrary payload, the cipher being an uninterpreted invertible function.")

    def accept(v, kind):
        f = get("elgas.security.CipherContext.decrypt")
        w = fnwhere(f)

        def body():
            kid, key = ivar("key_id", 0, 255), the_key()
            o = context(v, kid, key)
            data = inp("b", "envelope")
            g = outcome(lambda: I.call(I.getattr_(o, "decrypt"), [as_kind(data, kind)], {}))
            s = outcome(lambda: spec("open_envelope", kid, key, data))
            if s[0] == "exc":
                if g[0] == "ret":
                    return v.fail(w, "decrypt: returns data although " + ("the CRC does not match" if is_exc(s[1], "ValueError") else
                                                                          "the key id differs or the envelope is incomplete"))
                if is_exc(s[1], "ValueError") and not is_exc(g[1], "ValueError"):
                    return v.fail(w, f"decrypt: a CRC mismatch raises {exc_text(g[1])}")
                return v.ok()
            if not I.truth(s[1][0]):
                return v.ok()
            if g[0] == "exc":
                return v.fail(w, f"decrypt: a correct envelope raises {exc_text(g[1])}")
            v.same(g[1], s[1][1], w, "decrypted payload")
        explore(body)

    for kind in ("bytes", "bytearray"):
        c.ob(f"decrypting any {kind}", "plaintext only with equal key id and matching CRC; CRC mismatch is a ValueError",
             lambda v, kind=kind: accept(v, kind), fix=(0, 2, 3, 4, 19, 35))

    def trip(v):
        f = get("elgas.security.CipherContext.decrypt")

        def body():
            o = context(v, ivar("key_id", 0, 255), the_key())
            data = inp("b", "payload", **({} if FIX[0] is not None else {"hi": 65535}))
            e = outcome(lambda: I.call(I.getattr_(o, "encrypt"), [data], {}))
            if e[0] == "exc":
                return v.fail(fnwhere(f), f"encrypting a payload raises {exc_text(e[1])}")
            e = e[1]
            g = outcome(lambda: I.call(I.getattr_(o, "decrypt"), [e], {}))
            if g[0] == "exc":
                return v.fail(fnwhere(f), f"decrypting an encrypted payload raises {exc_text(g[1])}")
            v.same(g[1], data, fnwhere(f), "payload after encrypting and decrypting")
        explore(body)
    c.ob("encrypt then decrypt", "decrypt(encrypt(payload)) == payload", trip, fix=SIZES)
