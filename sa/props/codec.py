"""Frame, payload, text and time codecs."""
from ..harness import *
from ..harness import _short
from .. import textops as T


def product(v, impl, ref, where, what, errors=("ValueError",), post=None):
    """Every trace of the implementation followed by the specification: same outcome"""
    def body():
        g = outcome(impl)
        w = outcome(ref)
        v.outcomes(g, w, where, what, errors)
    explore(body)


def textual(r):
    """Bytes of any origin"""
    try:
        return T.kind_of(r) == "b"
    except Exception:
        return False


def both(v, fn, cases):
    for c in cases:
        fn(c)


# ------------------------------------------------------------------ C05

SUMS = (("calculate_lrc", "lrc"), ("calculate_checksum", "checksum"), ("calculate_drc", "drc"), ("calculate_crc", "crc16"))


def C05(c):
    c.explain = ("Each redundancy function is summarised over a byte string of unknown length and content: the loop body becomes a "
                 "transfer function over GF(2) bit sets (or an additive one), compared as a normal form with the definition.")
    rule = "transfer function and initial state of the loop equal those of the definition, for every input length"
    for name, ref in SUMS:
        for kind in ("bytes", "bytearray"):
            def ob(v, name=name, ref=ref, kind=kind):
                f = get("elgas.utils." + name)

                def impl():
                    x = inp("b", "data")
                    return I.call(f, [BArr(x) if kind == "bytearray" else x], {})
                product(v, impl, lambda: spec(ref, inp("b", "data")), fnwhere(f), name)
            c.ob(f"{name} on any {kind}", rule, ob)


# ------------------------------------------------------------------ frames

FRAMES = (("Request", 0x84), ("EncryptedRequest", 0x85), ("Response", 0x86), ("EncryptedResponse", 0x87))
ADDR = ("destination_address_1", "destination_address_2", "source_address_1", "source_address_2")


def kinds(x, kind):
    return BArr(x) if kind == "bytearray" else x


def C01(c):
    c.explain = ("The byte layout produced by each frame encoder is derived as a term over the field values (any integers, any payload) and "
                 "compared with the layout of the protocol; traces on which a field does not fit must end in an exception.")
    rule = "derived output layout equals 02 FE type service length dest src payload LRC sum DRC 0D; a field outside its range raises"
    for name, kind in FRAMES:
        for pk in ("bytes", "bytearray"):
            def ob(v, name=name, kind=kind, pk=pk):
                cls = get("elgas.frames." + name)
                f = get(f"elgas.frames.{name}.to_bytes")
                svc, ad = ivar("service"), [ivar(a) for a in ADDR]

                def impl():
                    o = I.call(cls, [], dict(zip(ADDR, ad), service=svc, data=kinds(inp("b", "payload"), pk)))
                    return I.call(I.getattr_(o, "to_bytes"), [], {})
                product(v, impl, lambda: spec("frame", kind, svc, *ad, inp("b", "payload")), fnwhere(f), f"{name}.to_bytes",
                        errors=("Exception",))
            c.ob(f"{name} with a {pk} payload", rule, ob)


def accept_rule(v, impl, kinds_, where, what, data):
    """impl returns an instance; acceptance must imply all conditions, rejection must be a ValueError"""
    def body():
        g = outcome(impl)
        if g[0] == "exc" and not is_exc(g[1], "ValueError"):
            return v.fail(where, f"{what}: rejects with {exc_text(g[1])}")
        if g[0] == "ret" and not isinstance(g[1], Inst):
            return v.fail(where, f"{what}: returns {_short(g[1])} instead of a frame")
        name = g[1].cls.name if g[0] == "ret" else None
        oks = []
        for cn, kb in kinds_:
            w = outcome(lambda: spec("acceptable", kb, data))
            if w[0] == "ret":
                oks.append((cn, w[1]))
        if g[0] == "ret":
            if not oks:
                return v.fail(where, f"{what}: accepts data that fails an acceptance condition")
            if name != oks[0][0]:
                return v.fail(where, f"{what}: yields {name} for a frame of kind {oks[0][0]}")
            return v.ok()
        if oks and oks[0][1] is True:
            return v.fail(where, f"{what}: rejects a valid frame with {exc_text(g[1])}")
        v.ok()
    explore(body)


def C02(c):
    c.explain = ("Every trace of every frame decoder over an arbitrary byte string is enumerated with its facts; accepting traces must imply all "
                 "acceptance conditions of the protocol, all others must end in ValueError. Lengths 0 to 15 are separate cases, all lengths "
                 "from 16 upwards are one.")
    rule = "accepting traces carry all acceptance facts, every other trace ends in ValueError, no trace ends in another exception"
    cases = [(f"{n}.from_bytes", f"elgas.frames.{n}.from_bytes", [(n, k)]) for n, k in FRAMES]
    cases.append(("ResponseFactory.from_bytes", "elgas.frames.ResponseFactory.from_bytes", list(FRAMES[2:])))
    for what, path, ks in cases:
        for pk in ("bytes", "bytearray"):
            def ob(v, what=what, path=path, ks=ks, pk=pk):
                f = get(path)
                sizes = [FIX[0]] if FIX[0] is not None else [*range(16), None]
                for n in sizes:
                    x = whole(src("b", "in", "data", len=n)) if n is not None else whole(src("b", "in", "data", lo=16))
                    accept_rule(v, lambda: I.call(f, [kinds(x, pk)], {}), ks, fnwhere(f), what, x)
            c.ob(f"{what} on any {pk}", rule, ob, fix=(16, 17))


def C03(c):
    c.explain = "The decoder is evaluated on the layout term derived from the encoder for arbitrary field values; each field must come back unchanged."
    rule = "decoder(encoder(fields)) == fields as terms, for all in-range fields and payloads"
    for name, kind in FRAMES:
        def ob(v, name=name, kind=kind):
            cls = get("elgas.frames." + name)
            f = get(f"elgas.frames.{name}.from_bytes")
            services = get("elgas.constants.ServiceNumber")

            def body():
                svc = outcome(lambda: I.call(services, [ivar("service", 0, 255)], {}))
                if svc[0] == "exc":
                    raise Infeasible()
                vals = {a: ivar(a, 0, 65535 if a.endswith("1") else 255) for a in ADDR}
                vals["data"] = inp("b", "payload", hi=65520)
                o = I.call(cls, [], dict(vals, service=svc[1]))
                data = I.call(I.getattr_(o, "to_bytes"), [], {})
                g = outcome(lambda: I.call(f, [data], {}))
                if g[0] == "exc":
                    return v.fail(fnwhere(f), f"{name}: decoding an encoded frame raises {exc_text(g[1])}")
                vals["service"] = svc[1]
                if not isinstance(g[1], Inst) or g[1].cls is not cls:
                    return v.fail(fnwhere(f), f"{name}: decoding an encoded frame gives {_short(g[1])}")
                for k, x in vals.items():
                    v.same(g[1].attrs.get(k), x, fnwhere(f), f"{name}.{k} after a round trip")
            explore(body)
        c.ob(f"{name} round trip", rule, ob)


# ------------------------------------------------------------------ C04

def C04(c):
    c.explain = ("The escaper is derived as a byte-wise substitution and compared with the table. The un-escaper's loop is summarised; un-escaping "
                 "(escaped byte + rest) must equal that byte followed by un-escaping the rest, for every byte value and every non-empty rest, and the "
                 "final 0x0D must come back alone, which by induction over the frame undoes the escaping of every frame.")
    esc, ret = "elgas.utils.escape_characters", "elgas.utils.return_characters"
    for kind in ("bytes", "bytearray"):
        def ob(v, kind=kind):
            f = get(esc)
            product(v, lambda: I.call(f, [kinds(inp("b", "frame"), kind)], {}), lambda: spec("escape", inp("b", "frame")), fnwhere(f),
                    "escape_characters")
        c.ob(f"escaping any {kind}", "derived substitution equals 0D->1B0E 1B->1B1B 8D->1B0F on all but the final byte; else ValueError", ob)

    def whole_trip(v):
        e, r = get(esc), get(ret)

        def body():
            x = b""
            for i in range(FIX[0]):
                k = choose(len(marks) + 1, ("byte", i))
                if k < len(marks):
                    x = cat(x, bytes([marks[k]]))
                else:
                    b = ivar(f"frame[{i}]", 0, 255)
                    for y in marks:
                        assume(c_not(eq(b, y)))
                    x = cat(x, rope("b", [("e", b)]))
            x = cat(x, b"\x0d")
            g = outcome(lambda: I.call(r, [I.call(e, [x], {})], {}))
            if g[0] == "exc":
                return v.fail(fnwhere(r), f"un-escaping an escaped frame raises {exc_text(g[1])}")
            v.same(g[1], x, fnwhere(r), "un-escaped frame")
        explore(body)

    def pair():
        n = ivar("byte", 0, 255)
        for x in (0x0E, 0x0F, 0x1B):
            assume(c_not(eq(n, x)))
        return rope("b", [("e", 0x1B), ("e", n)])

    def foreign(v, kind):
        r = get(ret)

        def body():
            x = cat(pair(), bytes(range(0x20, 0x20 + FIX[0])), b"\x0d")
            g = outcome(lambda: I.call(r, [kinds(x, kind)], {}))
            if g[0] == "exc":
                return v.fail(fnwhere(r), f"un-escaping 0x1b before another byte raises {exc_text(g[1])}")
            v.same(g[1], x, fnwhere(r), "0x1b before another byte after un-escaping")
        explore(body)

    rule = "un-escape(escape(b) + rest) == b + un-escape(rest) for all rests; un-escape(0D) == 0D"
    marks = (0x0D, 0x1B, 0x8D, 0x0E, 0x0F)
    special = {0x0D: b"\x1b\x0e", 0x1B: b"\x1b\x1b", 0x8D: b"\x1b\x0f"}
    for b in (*special, None, "pair"):
        for kind in ("bytes", "bytearray"):
            def ob(v, b=b, kind=kind):
                if FIX[0] is not None and b == "pair":
                    return foreign(v, kind)
                if FIX[0] is not None:
                    return whole_trip(v)
                r = get(ret)

                def body():
                    rest = inp("b", "rest", lo=1)
                    if b == "pair":
                        one = image = pair()
                    elif b is None:
                        one = rope("b", [("e", ivar("byte", 0, 255))])
                        for x in special:
                            assume(c_not(eq(ivar("byte", 0, 255), x)))
                        image = one
                    else:
                        one, image = bytes([b]), special[b]
                    g = outcome(lambda: I.call(r, [kinds(cat(image, rest), kind)], {}))
                    w = outcome(lambda: I.call(r, [kinds(rest, kind)], {}))
                    if g[0] == "exc" and w[0] == "exc":
                        return v.ok()
                    if g[0] == "ret" and w[0] == "ret" and agree(g[1], cat(one, plain(w[1])))[0] is True:
                        return v.ok()
                    v.undecided("the inductive step is not shown")
                explore(body)
            what = {None: "any other byte", "pair": "0x1b before any other byte"}.get(b) or hex(b)
            c.ob(f"un-escaping step for {what} in {kind}", rule, ob, fix=(0, 1, 2, 3))

    def last(v):
        r = get(ret)

        def body():
            g = outcome(lambda: I.call(r, [b"\x0d"], {}))
            if g[0] == "exc":
                return v.fail(fnwhere(r), f"un-escaping a lone end byte raises {exc_text(g[1])}", True)
            v.same(g[1], b"\x0d", fnwhere(r), "un-escaped end byte")
        explore(body)
    c.ob("un-escaping the end byte", rule, last)


# ------------------------------------------------------------------ C13, C28: payloads to fields

def fields(v, path, ref, data, errors):
    """Decoding `data` gives an instance of the class with exactly the values of the reference layout, or both refuse"""
    cls = get(path)
    f = get(path + ".from_bytes")

    def body():
        g = outcome(lambda: I.call(I.getattr_(cls, "from_bytes"), [data()], {}))
        w = outcome(lambda: spec(ref, plain(data())))
        what = f"{cls.name}.from_bytes"
        if g[0] == "ret" and w[0] == "ret":
            o = g[1]
            if not isinstance(o, Inst) or o.cls is not cls:
                return v.fail(fnwhere(f), f"{what} returns {_short(o)} instead of an instance of its class")
            for k, x in w[1].d.values():
                if k not in o.attrs:
                    v.fail(fnwhere(f), f"{what} leaves {k} unset")
                else:
                    v.same(o.attrs[k], x, fnwhere(f), f"{what}: field {k}")
            v.ok()
        else:
            v.outcomes(g, w, fnwhere(f), what, errors)
    explore(body)


RESPONSES = (
    ("ReadInstantaneousValuesResponse", "instantaneous", 25), ("ReadTimeResponse", "device_time", 9),
    ("ReadDeviceParametersResponse", "parameters", 5), ("ReadArchiveResponse", "archives", 5),
    ("ReadArchiveByTimeResponse", "archives", 5), ("WriteTimeResponse", "nothing", 0),
)


def C13(c):
    c.explain = ("Each response decoder is evaluated on a payload of unknown length and content (at least the length of its fixed part); every decoded "
                 "field is a term over the payload bytes and must equal the term of the documented layout.")
    rule = "every field equals the documented slice, width and byte order of the payload; invalid times and archive ids raise ValueError"
    for name, ref, lo in RESPONSES:
        for kind in ("bytes", "bytearray"):
            def ob(v, name=name, ref=ref, lo=lo, kind=kind):
                fields(v, "elgas.application." + name, ref, lambda: kinds(inp("b", "payload", lo=lo), kind), ("ValueError",))
            c.ob(f"{name} from any {kind}", rule, ob, fix=(lo, lo + 1, lo + 4))


def C28(c):
    c.explain = ("The call decoder is evaluated on a message of unknown length and content of at least 141 bytes; every field is a term over the "
                 "message bytes and must equal the term of the documented layout.")
    rule = "every field equals the documented slice and encoding of the message; non-decimal BCD digits or an unknown protocol raise ValueError"
    for kind in ("bytes", "bytearray"):
        def ob(v, kind=kind):
            fields(v, "elgas.application.CallRequest", "call", lambda: kinds(inp("b", "message", lo=141), kind), ("ValueError",))
        c.ob(f"CallRequest from any {kind}", rule, ob, fix=(141, 142))


# ------------------------------------------------------------------ C15, C29

def stamp(year=("year", 1, 9999), micro=("microsecond", 0, 999999)):
    """Any timestamp that exists"""
    f = [ivar(*x) if isinstance(x, tuple) else x for x in (year, ("month", 1, 12), ("day", 1, 31), ("hour", 0, 23), ("minute", 0, 59),
                                                           ("second", 0, 59), micro)]
    r = outcome(lambda: I.call(specfn("datetime"), f, {}))
    if r[0] == "exc":
        raise Infeasible()
    return r[1]


def C15(c):
    utils = "elgas.utils."
    c.explain = ("Both directions of the BCD time codec are evaluated on arbitrary field values and bytes and compared with the definition; the decoder "
                 "is also evaluated on the bytes derived from the encoder.")

    def enc(v):
        f = get(utils + "datetime_to_bytes")

        def body():
            t = stamp()
            v.outcomes(outcome(lambda: I.call(f, [t], {})), outcome(lambda: spec("time_bytes", t)), fnwhere(f), "datetime_to_bytes")
        explore(body)
    c.ob("encoding any timestamp", "derived bytes are the six BCD bytes; other years raise ValueError", enc, fix=())

    for kind in ("bytes", "bytearray"):
        def dec(v, kind=kind):
            f = get(utils + "bytes_to_datetime")
            product(v, lambda: I.call(f, [kinds(inp("b", "data"), kind)], {}), lambda: spec("timestamp", inp("b", "data")), fnwhere(f),
                    "bytes_to_datetime")
        c.ob(f"decoding any {kind}", "fields, flags and refusals equal the definition for every byte string", dec, fix=(6, 5, 7, 0))

    def trip(v):
        e, f = get(utils + "datetime_to_bytes"), get(utils + "bytes_to_datetime")

        def body():
            t = stamp(("year of this century", 2000, 2099), 0)
            d = outcome(lambda: I.call(e, [t], {}))
            if d[0] == "exc":
                return v.fail(fnwhere(e), f"encoding a timestamp of this century raises {exc_text(d[1])}")
            g = outcome(lambda: I.call(f, [d[1]], {}))
            if g[0] == "exc":
                return v.fail(fnwhere(f), f"decoding an encoded timestamp raises {exc_text(g[1])}")
            v.same(g[1], (t, False, False), fnwhere(f), "timestamp after a round trip")
        explore(body)
    c.ob("round trip", "decoder(encoder(t)) == (t, no flags) for every timestamp from 2000 to 2099", trip, fix=())


def C29(c):
    c.explain = "The text and address decoders are evaluated on byte strings of unknown length and content and compared with the definition."
    for name, ref, rule, err in (
        ("pretty_text", "text", "derived text equals the definition; no exception", ()),
        ("parse_ip_address", "ip", "dotted decimal of four bytes; every other length raises ValueError", ("ValueError",)),
    ):
        for kind in ("bytes", "bytearray"):
            def ob(v, name=name, ref=ref, kind=kind, err=err):
                f = get("elgas.utils." + name)
                product(v, lambda: I.call(f, [kinds(inp("b", "data"), kind)], {}), lambda: spec(ref, inp("b", "data")), fnwhere(f), name, err)
            c.ob(f"{name} of any {kind}", rule, ob)


# ------------------------------------------------------------------ C14

REQUESTS = (
    ("ReadInstantaneousValuesRequest", True, (), None),
    ("ReadTimeRequest", False, (), None),
    ("WriteTimeRequest", True, ("device_time",), "write_time"),
    ("ReadDeviceParametersRequest", True, ("object_count", "buffer_length"), "scada"),
    ("ReadArchiveRequest", True, ("archive", "amount", "oldest_record_id"), "by_id"),
    ("ReadArchiveByTimeRequest", True, ("archive", "amount", "oldest_timestamp"), "by_time"),
)


def argument(name):
    if name == "archive":
        a = outcome(lambda: I.call(get("elgas.constants.Archive"), [ivar("archive", 0, 10)], {}))
        if a[0] == "exc":
            raise Infeasible()
        return a[1]
    if name in ("device_time", "oldest_timestamp"):
        return stamp()
    return ivar(name)


def C14(c):
    c.explain = ("Each request encoder is evaluated for arbitrary arguments (any integers, any existing timestamp, every archive, any password of six "
                 "characters); the derived bytes must be the password, four free filler bytes and the documented layout, and a value that does not "
                 "fit must end in an exception.")
    rule = "bytes[:6] == password in latin-1, bytes[10:] == documented layout of the arguments; a value that does not fit raises"
    for name, pw, args, ref in REQUESTS:
        def ob(v, name=name, pw=pw, args=args, ref=ref):
            cls = get("elgas.application." + name)
            f = get(f"elgas.application.{name}.to_bytes")

            def body():
                vals = {a: argument(a) for a in args}
                p = whole(src("s", "in", "password", len=6))
                kw = dict(vals, password=p) if pw else vals
                g = outcome(lambda: I.call(I.getattr_(I.call(cls, [], kw), "to_bytes"), [], {}))
                w = outcome(lambda: (spec("latin", p) if pw else b"", spec(ref, *[vals[a] for a in args]) if ref else b""))
                if g[0] == "ret" and w[0] == "ret":
                    head, tail = w[1]
                    if not textual(plain(g[1])):
                        return v.fail(fnwhere(f), f"{name}.to_bytes gives {_short(g[1])} instead of bytes")
                    v.same(T.slice_(plain(g[1]), 0, 6) if pw else b"", head, fnwhere(f), f"{name}: password bytes")
                    v.same(T.length(plain(g[1])), add(T.length(tail), 10 if pw else 0), fnwhere(f), f"{name}: payload length")
                    v.same(T.slice_(plain(g[1]), 10 if pw else 0, None), tail, fnwhere(f), f"{name}: bytes after the password field")
                else:
                    v.outcomes(g, w, fnwhere(f), f"{name}.to_bytes", ("Exception",))
            explore(body)
        c.ob(f"{name}.to_bytes", rule, ob, fix=())
