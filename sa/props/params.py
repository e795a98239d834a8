"""Parameter objects: registries, records, streams, schemas."""
from ..harness import *
from ..harness import _short
from .. import textops as T
from ..spec import params as P

FACTORY = "elgas.parameters.factory.ParameterFactory"
SCHEMAS = "elgas.parameters.factory.ParameterSchemaFactory"
ENUM = "elgas.parameters.enumerations.ParameterObjectType"


def typ(n):
    """Member of the type enumeration with this number"""
    r = outcome(lambda: I.call(get(ENUM), [n], {}))
    if r[0] == "exc":
        raise Anchor(f"object type {n} is not in {ENUM}")
    return r[1]


def pairs(d):
    if not isinstance(d, DictO):
        raise Anchor("a factory's object_map is not a dictionary")
    return list(d.d.values())


# ------------------------------------------------------------------ C17

def reference(text, x, rows, present):
    """Field values the layout prescribes for the record body x"""
    out, pos, prev, absent = {}, 0, None, False
    for name, code, w in P.items(text):
        if code == "opt":
            absent = not present
            continue
        if absent:
            if name:
                out[name] = None
            continue
        if code == "bit":
            out[name] = spec("flag", prev, w[0])
            continue
        if code == "field":
            out[name] = spec("part", prev, w[0], w[1])
            continue
        if code == "rows":
            out[name] = [spec("hexa", T.slice_(x, pos + 10 * i, pos + 10 * i + 10)) for i in range(rows)]
            pos += 10 * rows
            continue
        d = T.slice_(x, pos, pos + w)
        pos += w
        if code == "u":
            val = spec("le", d)
            prev = val
        elif code == "f":
            val = spec("single" if w == 4 else "double", d)
        elif code == "r":
            val = spec("rounded", d)
        elif code == "t":
            val = ("text", d)
        elif code == "h":
            val = spec("hexa", d)
        elif code == "ip":
            val = spec("ip", d)
        elif code == "gas":
            val = {n: spec("single", T.slice_(d, 4 * i, 4 * i + 4)) for i, n in enumerate(P.GAS)}
        else:
            continue
        if name not in P.HIDDEN:
            out[name] = val
    return out


def compare(v, got, want, where, what):
    if isinstance(want, tuple) and want[0] == "text":
        # first as merged conditional values, then case by case
        w = spec("text", want[1])
        r = M_equal(got, w)
        if r is True:
            return v.ok()
        sub = Verdicts()

        def body():
            sub.same(I.force(got) if I.is_str(got) else got, I.force(w), where, what)
        explore(body)
        v.traces += sub.traces
        v.bad.extend(sub.bad)
        v.und.extend(sub.und)
        if v.bad:
            raise Enough
        return
    if isinstance(want, dict):
        if not isinstance(got, Inst):
            return v.fail(where, f"{what} is {_short(got)}", True)
        for k, x in want.items():
            if k not in got.attrs:
                v.fail(where, f"{what}.{k} is unset", True)
            else:
                compare(v, got.attrs[k], x, where, f"{what}.{k}")
        return
    if isinstance(want, list):
        g = got.items if isinstance(got, ListO) else list(got) if isinstance(got, tuple) else None
        if g is None or len(g) != len(want):
            return v.fail(where, f"{what} has {_short(got)} where {len(want)} entries are required", True)
        for i, (a, b) in enumerate(zip(g, want)):
            compare(v, a, b, where, f"{what}[{i}]")
        return
    v.same(got, want, where, what)


def M_equal(a, b):
    from .. import models
    try:
        return models.equal(plain(a), plain(b))
    except Gap:
        return None


def record(v, num, text, n, rows, present, f):
    x = whole(src("b", "in", "record", len=n))
    if rows is not None:
        at = P.lengths(text.split("rows rows")[0])[-1] - 1
        x = cat(T.slice_(x, 0, at), bytes([rows]), T.slice_(x, at + 1, n))
    fac = get(FACTORY)

    def body():
        g = outcome(lambda: I.call(I.getattr_(fac, "from_bytes"), [typ(num), x], {}))
        where = fnwhere(f)
        if g[0] == "exc":
            return v.fail(where, f"decoding a record of {n} bytes raises {exc_text(g[1])}")
        o = g[1]
        if not isinstance(o, Inst):
            return v.fail(where, f"decoding gives {_short(o)}", True)
        t = outcome(lambda: I.getattr_(o, "object_type"))
        v.same(t[1] if t[0] == "ret" else None, num, where, "object_type of the decoded object")
        for k, w in reference(text, x, rows or 0, present).items():
            if k not in o.attrs:
                v.fail(where, f"{o.cls.name}.{k} is unset", True)
            else:
                compare(v, o.attrs[k], w, where, f"{o.cls.name}.{k}")
        v.ok()
    explore(body)


def decoder_of(num):
    for k, c in pairs(get(FACTORY + ".object_map")):
        if plain(k) == num:
            return c, I.getattr_(c, "from_bytes")
    return None, get(FACTORY + ".from_bytes")


def texts():
    for q in ("elgas.utils.pretty_text", "spec.wire.text"):
        if q not in I.PHI:
            I.PHI.append(q)


def C17(c):
    texts()
    c.explain = ("Every decoder is evaluated, through the factory, on a record body of each permitted length with arbitrary content; each field is a term "
                 "over the body bytes and must equal the term the layout table prescribes. The text fields are compared as conditional values.")
    rule = "each decoded field equals the term of the layout table; optional trailing fields are None exactly when absent; nothing is unset or raised"
    rows_of = range(256) if os.environ.get("VERIF_TIER") == "thorough" else (0, 1, 2, 3, 7)
    for num, (name, text, width) in sorted(P.TYPES.items()):
        for rows in (rows_of if "rows rows" in text else (None,)):
            for i, n in enumerate(P.lengths(text, rows or 0)):
                def ob(v, num=num, text=text, n=n, rows=rows, i=i):
                    record(v, num, text, n, rows, i == len(P.lengths(text)) - 1, decoder_of(num)[1])
                c.ob(f"{name} record of {n} bytes" + (f" with {rows} rows" if rows is not None else ""), rule, ob, fix=())
        if width is not None:
            def ob(v, num=num, width=width):
                k, f = decoder_of(num)

                def body():
                    for a in ("value_length", "data_length"):
                        r = outcome(lambda: I.getattr_(k, a))
                        if r[0] == "ret":
                            return v.same(r[1], width, fnwhere(k), f"{a} of {k.name}")
                    v.fail(fnwhere(k), f"{k.name} has no value length", True)
                explore(body)
            c.ob(f"{name} value length", "the class keeps the documented length of its values", ob, fix=())


# ------------------------------------------------------------------ C16

def param_classes():
    """Every class of the parameter package that declares an object type and can decode"""
    out = []
    for m in all_modules(REPO):
        if not m.startswith("elgas.parameters") or m in BROKEN:
            continue
        for k, c in list(mod(m).env.vars.items()):
            if isinstance(c, ClassO) and c.module == m and c not in out and c.members is None:
                t = outcome(lambda: I.getattr_(c, "object_type"))
                d = outcome(lambda: I.getattr_(c, "from_bytes"))
                if t[0] == "ret" and d[0] == "ret" and c.fields:
                    out.append(c)
    return out


def marked(fn):
    """Run with every record decoder replaced by one that reports the class and the bytes it is given"""
    saved = dict(I.SUMMARIES)

    def dec(f, args, kw):
        c, x = args[0], (list(args[1:]) + list(kw.values()))[0]
        return ("decoded", c.name, plain(I.getattr_(c, "object_type")), x.v if isinstance(x, BArr) else x)
    for c in param_classes():
        f = I.getattr_(c, "from_bytes")
        while isinstance(f, (BoundM, StaticM, ClassM)):
            f = f.func if isinstance(f, BoundM) else f.f
        if isinstance(f, FuncO):
            I.SUMMARIES[f.qual] = dec
    try:
        return fn()
    finally:
        I.SUMMARIES.clear()
        I.SUMMARIES.update(saved)


def known_types():
    e = get(ENUM)
    return {plain(m): m for m in e.members.values()} if isinstance(e.members, dict) else {plain(m): m for m in e.members}


def C16(c):
    c.explain = ("The module-level code that builds both registries is evaluated, then every type number is sent through the factories with the record "
                 "decoders replaced by markers; every class of the parameter package that declares a type is looked up in turn.")
    fac, sch = get(FACTORY), get(SCHEMAS)
    types = known_types()
    for num, (name, text, width) in sorted(P.TYPES.items()):
        def ob(v, num=num, name=name):
            w, ws = fnwhere(get(FACTORY)), fnwhere(get(SCHEMAS))

            def body():
                t = types.get(num)
                if t is None:
                    return v.fail(fnwhere(get(ENUM)), f"object type {num} is missing from the enumeration", True)
                x = inp("b", "record")
                g = outcome(lambda: I.call(I.getattr_(fac, "from_bytes"), [t, x], {}))
                if g[0] == "exc":
                    v.fail(w, f"type {name} cannot be decoded: {exc_text(g[1])}", True)
                elif not (isinstance(g[1], tuple) and g[1] and g[1][0] == "decoded"):
                    v.undecided(f"the factory gives {_short(g[1])}")
                else:
                    v.same(g[1][2], num, w, f"object type declared by {g[1][1]}, the class decoding {name}")
                    v.same(g[1][3], x, w, "bytes given to the record decoder")
                s = outcome(lambda: I.call(I.getattr_(sch, "by_parameter_id"), [t], {}))
                if s[0] == "exc":
                    v.fail(ws, f"type {name} has no schema: {exc_text(s[1])}", True)
                elif not isinstance(s[1], ClassO):
                    v.undecided(f"the schema factory gives {_short(s[1])}")
                else:
                    v.ok()
            marked(lambda: explore(body))
        c.ob(f"type {num} {name}", "the factory decodes the type with a class declaring that type, given the unchanged body; the schema factory has a schema for it", ob, fix=())

    def uniform(v):
        def body():
            seen, schemas = {}, {}
            for num, t in sorted(types.items()):
                g = outcome(lambda: I.call(I.getattr_(fac, "from_bytes"), [t, b""], {}))
                s = outcome(lambda: I.call(I.getattr_(sch, "by_parameter_id"), [t], {}))
                if g[0] != s[0]:
                    v.fail(fnwhere(fac), f"type {num} is covered by only one of the factories", True)
                if g[0] == "ret" and isinstance(g[1], tuple):
                    if g[1][1] in seen:
                        v.fail(fnwhere(fac), f"types {seen[g[1][1]]} and {num} share the class {g[1][1]}", True)
                    seen[g[1][1]] = num
                if s[0] == "ret" and isinstance(s[1], ClassO):
                    if s[1].qual in schemas:
                        v.fail(fnwhere(sch), f"types {schemas[s[1].qual]} and {num} share the schema {s[1].name}", True)
                    schemas[s[1].qual] = num
            v.ok()
        marked(lambda: explore(body))
    c.ob("coverage of both factories", "both factories cover the same types and no two types share a class or a schema", uniform, fix=())
    for k in param_classes():
        def ob(v, k=k):
            def body():
                t = I.getattr_(k, "object_type")
                g = outcome(lambda: I.call(I.getattr_(fac, "from_bytes"), [t, b""], {}))
                if g[0] == "exc":
                    return v.fail(fnwhere(k), f"{k.name} declares type {plain(t)}, which the factory cannot decode", True)
                if not isinstance(g[1], tuple):
                    return v.undecided(f"the factory gives {_short(g[1])}")
                v.same(g[1][1], k.name, fnwhere(k), f"class decoding type {plain(t)}, declared by {k.name}")
            marked(lambda: explore(body))
        c.ob(f"class {k.name}", "the class is the one its declared type is decoded with", ob, fix=())


# ------------------------------------------------------------------ C18

PARSER = "elgas.parser.ScadaParameterParser"


def parse(data, attr=False):
    k = get(PARSER)
    if attr:
        return I.call(I.getattr_(I.call(k, [data], {}), "parse"), [], {})
    return I.call(I.getattr_(I.call(k, [], {}), "parse"), [data], {})


def as_kind(x, kind):
    return BArr(x) if kind == "bytearray" else x


def C18(c):
    c.explain = ("The parser is evaluated on streams with the record decoders replaced by markers that report class and body: streams of up to three "
                 "records whose bodies have any length and content, followed or not by a malformed record, and whole streams of arbitrary bytes of small sizes "
                 "compared with a reference splitter.")
    w = fnwhere(get(PARSER + ".parse"))
    nums = sorted(P.TYPES)
    thorough = os.environ.get("VERIF_TIER") == "thorough"

    def stream(v, types, tail=None, attr=False, kind="bytes"):
        parts, want = [], []
        for i, t in enumerate(types):
            n = ivar(f"n{i}", 0, 65532)
            b = whole(src("b", "in", f"body{i}", len=n))
            parts += [spec("u16", add(n, 3)), bytes([t]), b]
            want.append(("decoded", None, t, b))

        def body():
            x = cat(b"", *parts)
            if tail:
                m = ivar("m", 0, 65535)
                have = whole(src("b", "in", "rest", hi=65535))
                t = nums[1]
                if tail == "beyond":
                    assume(ge(m, add(T.length(have), 4)))
                elif tail == "short":
                    assume(ge(2, m))
                elif tail == "type":
                    assume(ge(m, 3))
                    t = 255
                x = cat(x, spec("u16", m), bytes([t]), have)
            g = outcome(lambda: parse(as_kind(x, kind), attr))
            if tail:
                if g[0] == "ret":
                    return v.fail(w, f"a stream ending in a malformed record ({tail}) is parsed to {_short(g[1])}")
                if not is_exc(g[1], "ValueError"):
                    return v.fail(w, f"a stream ending in a malformed record ({tail}) raises {exc_text(g[1])} instead of ValueError")
                return v.ok()
            if g[0] == "exc":
                return v.fail(w, f"a stream of {len(types)} records raises {exc_text(g[1])}")
            check(v, g[1], want)
        saved = loops.FOLLOW[0]
        loops.FOLLOW[0] = 12
        try:
            marked(lambda: explore(body))
        finally:
            loops.FOLLOW[0] = saved

    def check(v, got, want):
        r = plain(got)
        if not isinstance(r, tuple):
            return v.undecided(f"the parser gives {_short(got)}")
        if len(r) != len(want):
            return v.fail(w, f"{len(r)} objects decoded from a stream of {len(want)} records")
        for i, (a, b) in enumerate(zip(r, want)):
            if not (isinstance(a, tuple) and a and a[0] == "decoded"):
                return v.undecided(f"entry {i} is {_short(a)}")
            v.same(a[2], b[2], w, f"type record {i} is decoded as")
            v.same(a[3], b[3], w, f"body record {i} is decoded from")

    one = "each record is decoded, in order, from exactly its own body by the class of its type, and the stream is used up"
    for t in nums:
        c.ob(f"one record of type {t}", one, lambda v, t=t: stream(v, [t]), fix=())
    for ts in ([30, 31], [141, 0], [31, 31], [30, 32, 33], [0, 0, 0], [68, 30, 141]) + (([30, 31, 32, 33], [0, 30, 0, 30, 0], [61, 62, 65, 68, 69, 70]) if thorough else ()):
        c.ob(f"{len(ts)} records of types {ts}", one, lambda v, ts=ts: stream(v, ts), fix=())
    def many(v, k):
        parts = [whole(src("b", "in", f"body{i}", len=1)) for i in range(k)]

        def body():
            g = outcome(lambda: parse(cat(*[y for q in parts for y in (b"\x04\x00\x1e", q)])))
            if g[0] == "exc":
                return v.fail(w, f"a stream of {k} records raises {exc_text(g[1])}")
            check(v, g[1], [("decoded", None, 30, q) for q in parts])
        marked(lambda: explore(body))
    c.ob("many short records", one, lambda v: many(v, 3000 if thorough else 300), fix=())
    c.ob("records given to the constructor", one, lambda v: stream(v, [30, 31], attr=True), fix=())
    c.ob("records in a bytearray", one, lambda v: stream(v, [30, 31], kind="bytearray"), fix=())

    def reuse(v, given):
        """The parser a second time: with other data, or with the data it was made with"""
        n, m = ivar("n0", 0, 65532), ivar("n1", 0, 65532)
        a, b = whole(src("b", "in", "body0", len=n)), whole(src("b", "in", "body1", len=m))
        first = cat(spec("u16", add(n, 3)), bytes([nums[0]]), a)
        second = cat(spec("u16", add(m, 3)), bytes([nums[1]]), b)

        def body():
            o = I.call(get(PARSER), [first] if given else [], {})
            for i, (x, t, y) in enumerate(((first, nums[0], a), (second, nums[1], b), (first, nums[0], a))):
                if given:
                    x, t, y = first, nums[0], a
                elif i == 1 and choose(2, "a stream that is refused in between"):
                    outcome(lambda: I.call(I.getattr_(o, "parse"), [cat(second, b"\x02\x00\x1e")], {}))
                g = outcome(lambda: I.call(I.getattr_(o, "parse"), [] if given else [x], {}))
                if g[0] == "exc":
                    return v.fail(w, f"a parser raises {exc_text(g[1])} for a stream of one record when it is used for the {('first', 'second', 'third')[i]} time")
                check(v, g[1], [("decoded", None, t, y)])
        marked(lambda: explore(body))
    c.ob("a parser used again with other data", one, lambda v: reuse(v, False), fix=())
    c.ob("a parser used again with the data it was made with", one, lambda v: reuse(v, True), fix=())
    bad = "a record with a length below 3 or beyond the data, or with an unknown type, raises ValueError"
    for tail in ("beyond", "short", "type"):
        for k in range(3):
            c.ob(f"{k} records, then a malformed one ({tail})", bad, lambda v, k=k, tail=tail: stream(v, [30, 31][:k], tail), fix=())

    def empty(v):
        def body():
            for x in (b"", BArr(b""), None):
                g = outcome(lambda: parse(x)) if x is not None else ("exc", None)
                if x is None:
                    continue
                if g[0] == "ret" or not is_exc(g[1], "ValueError"):
                    v.fail(w, "an empty stream does not raise ValueError", True)
            v.ok()
        explore(body)
    c.ob("empty stream", "ValueError", empty, fix=())

    c.ob("streams of any number of records", "from any point of the stream, one iteration decodes exactly the record there and moves behind it; "
         "the loop ends at the end of the stream, or with an error exactly at a malformed record", lambda v: whole_stream(v, w), fix=())

    def exact(v, n):
        def body():
            x = whole(src("b", "in", "stream", len=n))
            g = outcome(lambda: parse(x))
            r = outcome(lambda: spec("records", x))
            if r[0] == "exc":
                if is_exc(r[1], "IndexError"):
                    return v.ok() if g[0] == "exc" else v.fail(w, f"a stream with an incomplete header is parsed to {_short(g[1])}")
                if g[0] == "ret":
                    return v.fail(w, f"a malformed stream is parsed to {_short(g[1])}")
                return v.ok() if is_exc(g[1], "ValueError") else v.fail(w, f"a malformed stream raises {exc_text(g[1])} instead of ValueError")
            if g[0] == "exc":
                return v.fail(w, f"a well-formed stream raises {exc_text(g[1])}")
            check(v, g[1], [("decoded", None) + tuple(y) for y in plain(r[1])])
        marked(lambda: explore(body))
    for n in range(1, 8 if thorough else 6):
        c.ob(f"any stream of {n} bytes", "same objects, or ValueError, as the reference splitter", lambda v, n=n: exact(v, n), fix=())


def same_number(a, b):
    if known(ge(a, b)) is True and known(ge(b, a)) is True:
        return True
    r = rng(a, R.facts)
    return r[0] is not None and r[0] == r[1] and r == rng(b, R.facts)


def whole_stream(v, w):
    """Streams of any number of records: the loop over the stream, one arbitrary iteration"""
    recs = []

    def body():
        outcome(lambda: parse(whole(src("b", "in", "stream", lo=1))))
        recs.extend(e.data[0] for e in R.effects if e.kind == "loop")
        raise Enough
    try:
        marked(lambda: explore(body))
    except Enough:
        pass
    recs = [r for r in recs if any(c.kind == "list" for c in r.cells.values())]
    if len(recs) != 1:
        return v.undecided("the parser is not one loop over the stream building one list")
    rec = recs[0]
    x = whole(src("b", "in", "stream", lo=1))
    total = T.length(x)
    lists = [c for c in rec.cells.values() if c.kind == "list" and any(xs for _, xs in c.app)]
    why = "no cursor moves by the announced lengths"
    if len(lists) != 1:
        return v.undecided("no single list grows in the loop")
    app = {id(p): xs for p, xs in lists[0].app}

    def under(p, fn, und):
        base = R.facts
        R.facts = p.facts.copy()
        try:
            return explore(fn)
        except Gap as g:
            und.append(str(g))
        finally:
            R.facts = base

    def header(k):
        at = lambda i: T.at(x, add(k.sym, i))
        return add(at(0), mulc(at(1), 256)), at(2)
    best = None
    for k in rec.cells.values():
        if k.kind != "cur" or k.sym is None:
            continue
        sub_ = Verdicts()
        for p in rec.nexts:
            xs = app.get(id(p))

            def step(p=p, xs=xs):
                d = rec.summary.delta(k, p)
                if d is None or not xs or len(xs) != 1 or not (isinstance(xs[0], tuple) and xs[0][0] == "decoded"):
                    return sub_.undecided(why)
                n, t = header(k)
                for a, b in ((d, n), (xs[0][2], t), (xs[0][3], T.slice_(x, add(k.sym, 3), add(k.sym, n)))):
                    if M_equal(a, b) is not True and not (isinstance(a, (int, Lin)) and same_number(a, b)):
                        return sub_.undecided(f"{_short(a)} is not shown to be {_short(b)}")
                if not any(known(ge(y, 3)) is True for y in (n, d)) or not any(known(ge(total, add(k.sym, y))) is True for y in (n, d)):
                    return sub_.undecided("the record is not shown to lie within the stream")
                sub_.ok()
            try:
                under(p, step, sub_.und)
            except Enough:
                break
        for p in rec.exits:
            def leave(p=p):
                if p.kind == "ret":
                    return sub_.ok() if known(ge(k.sym, total)) is True else sub_.undecided("the loop may end before the stream does")
                if not is_exc(p.value, "ValueError", "IndexError"):
                    return sub_.undecided(f"the loop ends in {exc_text(p.value)}")
                if known(ge(add(k.sym, 2), total)) is True:
                    return sub_.ok()
                n, t = header(k)
                good = c_and([ge(total, add(k.sym, n)), ge(n, 3)] + [c_or([eq(t, y) for y in P.TYPES])])
                left, least = rng(sub(total, k.sym), R.facts)[1], rng(n, R.facts)[0]
                if (known(good) is False or (left is not None and least is not None and least > left)) and is_exc(p.value, "ValueError"):
                    return sub_.ok()
                sub_.undecided(f"the loop may end in {exc_text(p.value)} on a well-formed record")
            try:
                under(p, leave, sub_.und)
            except Enough:
                break
        if best is None or len(sub_.und) < len(best.und):
            best = sub_
    if best is None:
        return v.undecided(why)
    v.traces += best.traces
    v.und.extend(best.und)


# ------------------------------------------------------------------ C19

EXTRA = {61: "error_bit_order_in_actual_values u2, error_bit_order_in_binary_archive_record u2, error_bit_order_in_data_archive_record u2, "}
EXTRA[62] = EXTRA[61]
KIND = {"u": "int", "f": "float", "r": "float", "t": "str", "h": "str", "bit": "bool", "field": "int", "ip": "str", "gas": "gas", "rows": "list"}
FIELDS = "marshmallow.fields."


def value_kinds(num):
    """field -> (kind of value, may be None) of the decoded objects of a type"""
    out, opt = {}, False
    for name, code, w in P.items(EXTRA.get(num, "") + P.TYPES[num][1]):
        if code == "opt":
            opt = True
        elif name and name not in P.HIDDEN:
            out[name] = (KIND[code], opt)
    return out


def names_of(c):
    return [k.name if isinstance(k, ClassO) else getattr(k, "__name__", str(k)) for k in mro_of(c)]


def schema_members(s):
    """declared fields, hooks (in the order they run) and Meta options of a schema class"""
    fields, hooks, meta = {}, {}, {}
    for k in mro_of(s):
        if not isinstance(k, ClassO) or str(k.module or "").startswith("marshmallow"):
            continue
        for n, x in k.ns.items():
            if isinstance(x, Inst) and isinstance(x.cls, ClassO) and "Field" in names_of(x.cls):
                fields.setdefault(n, x)
            f = x.f if isinstance(x, (StaticM, ClassM)) else x
            if isinstance(f, FuncO) and "·hook" in f.attrs:
                hooks.setdefault(n, (f, x))
            elif isinstance(f, FuncO):
                hooks.setdefault(n, None)
            if n == "Meta" and isinstance(x, ClassO):
                for a, b in x.ns.items():
                    meta.setdefault(a, b)
    return fields, {n: h for n, h in sorted(hooks.items()) if h}, meta


def marsh(x):
    """Name of the field class, with the library's aliases resolved"""
    for n in names_of(x.cls):
        if n in ("Integer", "Float", "Decimal", "Number", "Boolean", "String", "UUID", "Url", "Email", "IP", "Nested", "List", "Tuple", "Raw", "Dict", "Mapping", "DateTime",
                 "Enum", "Method", "Function", "Constant", "Field", "TimeDelta", "Time", "Date"):
            return n
    return "?"


LOSSLESS = {"int": ("Integer", "Float", "Number", "Raw", "Field"), "bool": ("Boolean", "Integer", "Float", "Number", "Raw", "Field"),
            "float": ("Float", "Number", "Raw", "Field"), "str": ("String", "Raw", "Field")}
LOSSY = ("Integer", "Float", "Decimal", "Number", "Boolean", "String", "UUID", "Url", "Email", "IP", "DateTime", "TimeDelta", "Time", "Date", "Constant", "Dict", "Mapping", "Tuple")
PLAIN_KW = {"required", "allow_none", "as_string", "data_key", "attribute", "load_only", "dump_only", "metadata", "strict", "validate", "error_messages", "allow_nan", "places",
            "rounding", "truthy", "falsy", "many"}


def field_ok(v, w, x, kind, opt, label, seen=()):
    """One schema field against the values it has to carry"""
    kw, args, cl = x.attrs.get("·kw", {}), x.attrs.get("·args", ()), marsh(x)
    if isinstance(x.cls, ClassO) and str(x.cls.module or "marshmallow").split(".")[0] != "marshmallow":
        return v.undecided(f"{label} uses a field class of its own, {x.cls.name}")
    kw = dict(kw)
    if kw.get("required") is not True:
        v.fail(w, f"{label} is not required", True)
    if opt and not kw.get("allow_none", False):
        v.fail(w, f"{label} refuses None, which the decoder gives when the optional part is absent", True)
    for k in ("load_only", "dump_only"):
        if kw.get(k):
            v.fail(w, f"{label} is {k}: it is lost when a parameter is dumped and loaded again", True)
    odd = set(kw) - PLAIN_KW
    if odd:
        return v.undecided(f"{label} uses {sorted(odd)}")
    carries(v, w, cl, args, kw, kind, label, seen)


def carries(v, w, cl, args, kw, kind, label, seen):
    if kw.get("validate") is not None:
        return v.undecided(f"{label} has a validator")
    if kind == "gas":
        if cl != "Nested":
            return v.fail(w, f"{label} is a {cl} field where a nested schema is needed", True) if cl in LOSSY + ("List",) else v.undecided(f"{label} is a {cl} field")
        s = args[0] if args else kw.get("nested")
        if isinstance(s, Inst):
            s = s.cls
        if kw.get("many") or not isinstance(s, ClassO):
            return v.undecided(f"{label}: nested {_short(s)}")
        return schema_ok(v, s, get("elgas.parameters.gas_composition.GasComposition"), {n: ("float", False) for n in P.GAS}, seen + (s.qual,))
    if kind == "list":
        if cl != "List":
            return v.fail(w, f"{label} is a {cl} field where a list is needed", True) if cl in LOSSY + ("Nested",) else v.undecided(f"{label} is a {cl} field")
        y = args[0] if args else kw.get("cls_or_instance")
        n = y.name if isinstance(y, ClassO) else marsh(y) if isinstance(y, Inst) else "?"
        if isinstance(y, ClassO):
            n = marsh(Inst(y, {}))
        return carries(v, w, n, (), y.attrs.get("·kw", {}) if isinstance(y, Inst) else {}, "str", f"entries of {label}", seen)
    if cl in LOSSLESS[kind]:
        if kind != "int" and cl in ("Integer",) and kw.get("strict"):
            return v.undecided(f"{label} is a strict number field for {kind}")
        if cl == "Integer" and kw.get("strict") and kw.get("as_string"):
            return v.fail(w, f"{label}: strict refuses the text as_string dumps", True)
        if cl == "Boolean" and (kw.get("truthy") or kw.get("falsy")):
            return v.undecided(f"{label} has its own truth values")
        return v.ok()
    if cl in LOSSY or cl in ("Nested", "List"):
        return v.fail(w, f"{label} is a {cl} field, which does not bring back the {kind} the decoder gives", True)
    v.undecided(f"{label} is a {cl} field")


def schema_ok(v, s, klass, kinds, seen=()):
    w = fnwhere(s)
    fields, hooks, meta = schema_members(s)
    for a, b in meta.items():
        if a == "exclude":
            b = {str(y) for y in (b.items if isinstance(b, ListO) else b)}
            fields = {n: f for n, f in fields.items() if n not in b}
        elif not a.startswith("__") and a not in ("unknown", "ordered", "title", "description"):
            v.undecided(f"{s.name}.Meta.{a}")
    have = [f.name for f in klass.fields or ()]
    carried = {}
    keys = set()
    for n, x in fields.items():
        kw = x.attrs.get("·kw", {})
        a, k = kw.get("attribute") or n, kw.get("data_key") or n
        if a in carried or k in keys:
            v.fail(w, f"two fields of {s.name} stand for {a if a in carried else k}", True)
        keys.add(k)
        carried[a] = x
        if a not in have:
            v.fail(w, f"{s.name}.{n} is no field of {klass.name}", True)
    for n in have:
        if n not in carried:
            v.fail(w, f"{klass.name}.{n} is missing from {s.name}", True)
        elif n not in kinds:
            v.fail(fnwhere(klass), f"{klass.name}.{n} is not a field of this parameter", True)
        else:
            field_ok(v, w, carried[n], kinds[n][0], kinds[n][1], f"{s.name}.{n}", seen)
    for n in kinds:
        if n not in have:
            v.fail(fnwhere(klass), f"{klass.name} has no field {n}", True)
    rebuilt(v, s, klass, hooks, have, kinds)


def arbitrary(n, kind):
    if kind == "int":
        return ivar(n, 0, 2**32 - 1)
    if kind == "bool":
        return c_not(eq(ivar(n, 0, 1), 0))
    if kind == "str":
        return whole(src("s", "in", n))
    if kind == "float":
        return spec("double", whole(src("b", "in", n, len=8)))
    if kind == "list":
        return ListO([whole(src("s", "in", f"{n}{i}")) for i in range(2)])
    return Opq("value", (n,), ty="any")


def rebuilt(v, s, klass, hooks, have, kinds):
    """What the hooks make of an object's values on the way out and back in"""
    w = fnwhere(s)

    def body():
        vals = {n: arbitrary(n, kinds.get(n, ("any",))[0]) for n in have}
        d = Inst(klass, dict(vals))
        me = Inst(s, {})
        for kind in ("pre_dump", "dump", "post_dump", "pre_load", "load", "validates_schema", "post_load"):
            if kind == "dump":
                if not isinstance(d, Inst):
                    return v.undecided("pre_dump gives no object")
                d = DictO({M.key(n): (n, x) for n, x in d.attrs.items() if n in vals})
                continue
            if kind == "load":
                continue
            for n, (f, raw) in hooks.items():
                h = f.attrs["·hook"]
                if h == "validates":
                    v.undecided(f"{s.name}.{n} validates a field")
                    continue
                if h != kind:
                    continue
                kw = {"many": False}
                if kind in ("pre_load", "post_load", "validates_schema"):
                    kw["partial"] = None
                args = [me, d] if not isinstance(raw, StaticM) else [d]
                if isinstance(raw, ClassM):
                    args[0] = s
                if f.attrs.get("·hookkw", {}).get("pass_original"):
                    return v.undecided(f"{s.name}.{n} takes the original data")
                g = outcome(lambda: I.call(f, args, kw))
                if g[0] == "exc":
                    return v.fail(fnwhere(f), f"loading a dumped {klass.name}: {exc_text(g[1])}")
                if kind != "validates_schema":
                    d = g[1]
        if not isinstance(d, Inst):
            return v.fail(w, f"loading with {s.name} gives {_short(d)} instead of a {klass.name}")
        if d.cls is not klass:
            return v.fail(w, f"loading with {s.name} builds a {d.cls.name} instead of a {klass.name}")
        for n in have:
            v.same(d.attrs.get(n), vals[n], w, f"{klass.name}.{n} after dump and load")
    explore(body)


def C19(c):
    c.explain = ("For each type the schema class is taken from the schema factory and the class from the parameter factory; the declared fields are compared one by "
                 "one with the class and the kind of value the layout gives, and the load hooks are evaluated on an object with arbitrary values.")
    c.assumptions.append("marshmallow fields behave as documented for version 3: Integer, Float, Number, Boolean, String, List, Nested; floats are finite")
    rule = "same fields as the class; each required, lossless for the decoded value, None allowed for the optional part; loading rebuilds the same class with the same values"
    sch = get(SCHEMAS)
    types = known_types()
    for num, (name, text, width) in sorted(P.TYPES.items()):
        def ob(v, num=num, name=name):
            def body():
                g = outcome(lambda: I.call(I.getattr_(get(FACTORY), "from_bytes"), [types[num], b""], {}))
                s = outcome(lambda: I.call(I.getattr_(sch, "by_parameter_id"), [types[num]], {}))
                if g[0] == "exc" or s[0] == "exc":
                    return v.undecided(f"type {name} is not registered")
                found.append((g[1][1], s[1]))
            found = []
            marked(lambda: explore(body))
            if not found:
                return
            klass = [k for k in param_classes() if k.name == found[0][0]][0]
            s = found[0][1]
            if not isinstance(s, ClassO):
                return v.undecided(f"the schema factory gives {_short(s)}")
            schema_ok(v, s, klass, value_kinds(num))
        c.ob(f"schema of type {num} {name}", rule, ob, fix=())


# ------------------------------------------------------------------ C35

TEXT = "elgas.utils.pretty_text"
RESPONSES = (("ReadInstantaneousValuesResponse", 25), ("ReadTimeResponse", 6), ("ReadDeviceParametersResponse", 5), ("ReadArchiveResponse", 5),
             ("ReadArchiveByTimeResponse", 5), ("CallRequest", 141))


def C35(c):
    texts()
    c.explain = ("Every decoder is evaluated on arbitrary content of every length below the shortest complete one, and of every length that holds only a piece of "
                 "the optional part; every trace must end in an exception.")
    rule = "no trace of the decoder returns an object for a cut-off input"

    def cut(v, f, call, sizes, what):
        for n in sizes:
            def body(n=n, sure=True):
                x = whole(src("b", "in", f"cut{n}", len=n)) if n else b""
                g = outcome(lambda: call(x))
                if g[0] == "exc":
                    return v.ok()
                if sure:
                    return v.fail(fnwhere(f), f"{what} of only {n} bytes is decoded")
                again.append(n)
            # what a text reads as does not matter for the end of the data
            again = []
            saved = I.SUMMARIES.get(TEXT)
            I.SUMMARIES[TEXT] = lambda f, args, kw: whole(src("s", "in", "text"))
            try:
                ps = explore(lambda: body(sure=False))
            except Gap:
                again.append(n)
            finally:
                I.SUMMARIES.pop(TEXT)
                if saved:
                    I.SUMMARIES[TEXT] = saved
            if again or any(p.kind == "gap" for p in ps):
                explore(body)
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    for num, (name, text, width) in sorted(P.TYPES.items()):
        if "rows rows" in text:
            continue
        ns = P.lengths(text)
        sizes = [n for n in range(ns[-1]) if n not in ns]

        for i in range(0, len(sizes), 45):
            def ob(v, num=num, name=name, sizes=sizes[i:i + 45]):
                cut(v, decoder_of(num)[1], lambda x: I.call(I.getattr_(get(FACTORY), "from_bytes"), [typ(num), x], {}), sizes, f"a {name} record")
            c.ob(f"{name} records of {sizes[i]} to {sizes[i:i + 45][-1]} bytes", rule, ob, fix=())

    def windows(v, rows):
        text = P.TYPES[48][1]
        at = P.lengths(text.split("rows rows")[0])[-1] - 1
        ns = P.lengths(text, rows)

        def call(x):
            if T.length(x) > at:
                x = cat(T.slice_(x, 0, at), bytes([rows]), T.slice_(x, at + 1, T.length(x)))
            return I.call(I.getattr_(get(FACTORY), "from_bytes"), [typ(48), x], {})
        cut(v, decoder_of(48)[1], call, [n for n in range(ns[-1]) if n not in ns], f"a TIME_WINDOW record of {rows} rows")
    for rows in ((0, 1, 2, 5, 24, 255) if thorough else (0, 1, 2, 5)):
        c.ob(f"TIME_WINDOW records of {rows} rows", rule, lambda v, rows=rows: windows(v, rows), fix=())
    for k, least in RESPONSES:
        def ob(v, k=k, least=least):
            f = get(f"elgas.application.{k}.from_bytes")
            cut(v, f, lambda x: I.call(I.getattr_(get(f"elgas.application.{k}"), "from_bytes"), [x], {}), range(least), k)
        c.ob(f"{k} of less than {least} bytes", rule, ob, fix=())
