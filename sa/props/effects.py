"""Effects: input left alone, nothing shared between instances, no I/O outside the transport."""
import ast
from ..harness import *
from ..harness import _short
from .. import textops as T
from .. import harness as H
from ..spec import params as P
from .conn import CONN, APP, PAIRS, FACTORY, UNESC, make, connection, call, frame_of, request_cls, events, reply, pdus, short_requests, marker
from .client import new_client, peer, moment, Line, response, args_of, OPS as CLIENT_OPS, CLIENT
from .params import PARSER, param_classes, parse, typ
from .codec import stamp

FRAMES = ("Request", "EncryptedRequest", "Response", "EncryptedResponse")
CONTAINERS = (ListO, DictO, SetO, BArr)


# ------------------------------------------------------------------ the heap

def children(o):
    if isinstance(o, (tuple, list)):
        return list(o)
    if isinstance(o, ListO):
        return [x for x in o.items if not isinstance(x, LSeg)]
    if isinstance(o, DictO):
        return [y for p in o.d.values() for y in p]
    if isinstance(o, Inst):
        return list(o.attrs.values()) + [o.payload]
    if isinstance(o, ExtObj):
        return list(o.attrs.values())
    if isinstance(o, (StaticM, ClassM)):
        return [o.f]
    if isinstance(o, BoundM):
        return [o.func, o.self]
    if isinstance(o, PropO):
        return [o.fget, o.fset]
    if isinstance(o, Builtin):
        return list(o.attrs.values())
    if isinstance(o, FuncO):
        return list(o.defaults) + list(o.kwdefaults.values()) + list(o.attrs.values()) + [o.env]
    if isinstance(o, ClassO):
        return list(o.ns.values()) + [f.default for f in o.fields or () if hasattr(f, "default")] + list(o.bases)
    if isinstance(o, ModuleO):
        return [o.env]
    if isinstance(o, Env):
        return list(o.vars.values()) + [o.parent]
    return []


def reach(roots, through_code=True):
    """Objects reachable, by identity; code (functions, classes, modules) only when asked for"""
    seen, todo = {}, list(roots)
    while todo:
        o = todo.pop()
        if not isinstance(o, (Obj, tuple, list, StaticM, ClassM, BoundM, PropO, Builtin)) or id(o) in seen:
            continue
        if not through_code and isinstance(o, (ClassO, FuncO, ModuleO, Env, Builtin, PropO, StaticM, ClassM)):
            continue
        seen[id(o)] = o
        todo.extend(children(o))
    return seen


TABLES = {}
EMPTY = set()       # those that are empty after import: a cache may be kept there


def constant(x, seen=None):
    """Whether a value is the same on every trace"""
    if isinstance(x, (int, str, bytes, float, type(None), FuncO, ClassO)):
        return True
    if isinstance(x, (tuple, list)):
        return all(constant(y, seen) for y in x)
    seen = set() if seen is None else seen
    if id(x) in seen:
        return True
    seen.add(id(x))
    if isinstance(x, DictO):
        return all(constant(k, seen) and constant(y, seen) for k, y in x.d.values())
    if isinstance(x, Inst):
        return all(constant(y, seen) for y in x.attrs.values())
    if isinstance(x, ListO):
        return constant(x.get_raw(None), seen)
    return False


def cached(old, now):
    """What is added to a table could be a cache: no value depends on more than its key"""
    old = old if isinstance(old, dict) else {}
    return all(k in old and same_value(old[k], e) or not constant(e[0]) or constant(e[1]) for k, e in now.items())


def shared_tables():
    """Everything reachable from the modules of the package"""
    if TABLES:
        return TABLES
    mods = [H.mod(m) for m in all_modules(REPO) if m not in BROKEN]
    TABLES.update(reach(mods))
    EMPTY.update(i for i, o in TABLES.items() if isinstance(o, DictO) and not o.d)
    return TABLES


def name_of(o):
    """How an object reachable from a module is called"""
    for m in all_modules(REPO):
        if m in BROKEN:
            continue
        for k, x in H.mod(m).env.vars.items():
            if x is o:
                return f"{m}.{k}"
            if isinstance(x, ClassO) and x.module == m:
                for a, y in x.ns.items():
                    if y is o or isinstance(y, (StaticM, ClassM)) and y.f is o:
                        return f"{m}.{k}.{a}"
            if isinstance(x, FuncO) and any(y is o for y in x.defaults):
                return f"default argument of {m}.{k}"
        if H.mod(m).env is o:
            return f"module {m}"
    return _short(o, 60)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(same_value, a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


class Watch:
    """What an operation writes to"""

    def __init__(self, *kept):
        self.tables = shared_tables()
        self.kept = [(label, x, picture(x)) for label, x in kept]
        self.mark, self.eff = len(R.journal), len(R.effects)

    def judge(self, v, where):
        """Violations of this trace; True when there is none"""
        open_ = ""
        for o, k, old in R.journal[self.mark:]:
            if id(o) not in self.tables or isinstance(o, ExtObj) and o.path == "log":
                continue
            now = o.get_raw(k)
            if same_value(old, now):
                continue
            if id(o) in EMPTY and cached(old, now):
                open_ = f"a table {name_of(o)} that starts empty is filled, as a cache would be"
                continue
            v.fail(where, f"{name_of(o)} is changed" + (f" ({k})" if isinstance(k, str) else ""), certain=False)
            return False
        for e in R.effects[self.eff:]:
            if e.kind in ("globalwrite", "modwrite", "classwrite"):
                o = e.data[0] if e.kind == "classwrite" else e.data[-2]
                v.fail(where, f"{_short(e.data[:2], 80)} is assigned at {where_path(str(e.where))}")
                return False
        for label, x, pic in self.kept:
            d = differs(pic, picture(x))
            if d:
                v.fail(where, f"{label} is changed: {d}")
                return False
        if open_:
            v.undecided(open_)
        return True


def visible(o):
    """What a user of an object sees of it: private attributes may keep what was computed before"""
    w = WATCHED.get(getattr(o.cls, "name", None))
    return tuple(sorted((k, x) for k, x in o.attrs.items() if (k in w if w else not k.startswith("_"))))


def picture(root):
    """Shallow contents of every object reachable from a value (code excluded)"""
    out = {}
    for i, o in reach([root], False).items():
        if isinstance(o, BArr):
            out[i] = (o, o.v)
        elif isinstance(o, ListO):
            out[i] = (o, tuple(o.items))
        elif isinstance(o, DictO):
            out[i] = (o, tuple(tuple(p) for p in o.d.values()))
        elif isinstance(o, Inst):
            out[i] = (o, visible(o), o.payload)
        elif isinstance(o, ExtObj):
            out[i] = (o, tuple(sorted((k, x) for k, x in o.attrs.items())))
    return out


def differs(a, b):
    for i, x in a.items():
        y = b.get(i)
        if y is not None and isinstance(x[0], Inst):
            before = {k for k, e in x[1]}
            y = (y[0], tuple(e for e in y[1] if e[0] in before), y[2])
        if y is None:
            return f"{_short(x[0], 80)} is replaced"
        for p, q in zip(x[1:], y[1:]):
            if len(p) != len(q) if isinstance(p, tuple) and isinstance(q, tuple) else False:
                return f"{_short(p, 120)} becomes {_short(q, 120)}"
            if not same_value(p, q):
                return f"{_short(p, 120)} becomes {_short(q, 120)}"
    return None


# ------------------------------------------------------------------ operations

def buffer_arg(name="data", **kw):
    return BArr(inp("b", name, **kw))


def decoders():
    """(name, function giving (where, call, kept)) of every decoder and computation on bytes"""
    out = []

    def add_(name, path, mk, *more):
        def setup():
            f = get(path)
            x = mk()
            return fnwhere(f), (lambda: I.call(f, [x, *[m() for m in more]], {})), [("the input", x)]
        out.append((name, path, setup))
    for k in FRAMES:
        add_(f"{k}.from_bytes", f"elgas.frames.{k}.from_bytes", lambda: buffer_arg(lo=16))
    add_("ResponseFactory.from_bytes", FACTORY, lambda: buffer_arg(lo=16))
    for f in ("calculate_lrc", "calculate_checksum", "calculate_drc", "calculate_crc", "escape_characters", "return_characters", "from_bcd", "pretty_text"):
        add_(f, "elgas.utils." + f, buffer_arg)
    add_("bytes_to_datetime", "elgas.utils.bytes_to_datetime", lambda: buffer_arg(len=6))
    add_("parse_ip_address", "elgas.utils.parse_ip_address", lambda: buffer_arg(len=4))
    for n, _ in PAIRS:
        add_(f"{n}Response.from_bytes", f"{APP}{n}Response.from_bytes", lambda: buffer_arg(lo=20))
    path = "elgas.connection.ResponsePduFactory.from_response"

    def known():
        f = get(path)
        m = service_numbers()
        x = buffer_arg(lo=20)
        o = frame_of("Response", m[choose(len(m), "service")], x)
        return fnwhere(f), (lambda: I.call(f, [o], {})), [("the input", x), ("the frame", o)]
    out.append(("from_response of every service", path, known))
    add_("CallRequest.from_bytes", APP + "CallRequest.from_bytes", lambda: buffer_arg(lo=141))
    add_("raise_error", "elgas.connection.raise_error", lambda: buffer_arg(len=1))
    for n in ("encrypt", "decrypt"):
        def setup(n=n):
            cls = get("elgas.security.CipherContext")
            x, key = buffer_arg(lo=0, hi=64) if n == "encrypt" else buffer_arg(len=32), whole(src("b", "in", "key", len=16))
            o = I.call(cls, [], dict(key_id=1, key=key))
            return fnwhere(get(f"elgas.security.CipherContext.{n}")), (lambda: I.call(I.getattr_(o, n), [x], {})), [("the input", x), ("the cipher context", o)]
        out.append((f"CipherContext.{n}", f"elgas.security.CipherContext.{n}", setup))

        def module(n=n):
            f = get(f"elgas.security.{n}")
            x, key, iv = buffer_arg(len=32), BArr(whole(src("b", "in", "key", len=16))), BArr(whole(src("b", "in", "iv", len=16)))
            return fnwhere(f), (lambda: I.call(f, [x, key, iv], {})), [("the input", x), ("the key", key), ("the initial vector", iv)]
        out.append((f"security.{n}", f"elgas.security.{n}", module))
    for num, (name, text, width) in sorted(P.TYPES.items()):
        def setup(num=num, text=text):
            fac = get("elgas.parameters.factory.ParameterFactory")
            rows = 2 if "rows rows" in text else 0
            n = max(P.lengths(text, rows))
            x = whole(src("b", "in", "record", len=n))
            if rows:
                at = P.lengths(text.split("rows rows")[0])[-1] - 1
                x = cat(T.slice_(x, 0, at), bytes([rows]), T.slice_(x, at + 1, n))
            x = BArr(x)
            return fnwhere(I.getattr_(fac, "from_bytes")), (lambda: I.call(I.getattr_(fac, "from_bytes"), [typ(num), x], {})), [("the input", x)]
        out.append((f"{name} record", "elgas.parameters.factory.ParameterFactory", setup))

    def stream():
        x = BArr(cat(b"\x03\x00\x01", b"\x03\x00\x01"))
        y = BArr(whole(src("b", "in", "stream", len=12)))
        return fnwhere(get(PARSER + ".parse")), (lambda: outcome(lambda: parse(x)) and parse(y)), [("the stream", x), ("the second stream", y)]
    out.append(("parameter stream", PARSER, stream))

    def held():
        y = BArr(whole(src("b", "in", "stream", len=7)))
        o = I.call(get(PARSER), [y], {})
        return fnwhere(get(PARSER + ".parse")), (lambda: I.call(I.getattr_(o, "parse"), [], {})), [("the stream", y), ("the parser", o)]
    out.append(("stream held by a parser", PARSER, held))
    return out


def encoders():
    out = []
    for k in FRAMES:
        def setup(k=k):
            x = buffer_arg("payload")
            o = make(get("elgas.frames." + k), service=get("elgas.constants.ServiceNumber.READ_TIME") if maybe("elgas.constants.ServiceNumber.READ_TIME") else 0x6C,
                     data=x, **{f: ivar(f, 0, 255) for f in ("destination_address_1", "destination_address_2", "source_address_1", "source_address_2")})
            return fnwhere(get(f"elgas.frames.{k}.to_bytes")), (lambda: I.call(I.getattr_(o, "to_bytes"), [], {})), [("the frame", o), ("the payload", x)]
        out.append((f"{k}.to_bytes", f"elgas.frames.{k}.to_bytes", setup))
    for n, cls in events():
        if I.class_lookup(cls, "to_bytes") is MISSING or not n.endswith("Request"):
            continue

        def setup(n=n, cls=cls):
            kw = {f.name: moment(f.name) for f in cls.fields if "time" in f.name}
            if any(f.name == "archive" for f in cls.fields):
                kw["archive"] = args_of(["archive"])["archive"]
            o = make(cls, **kw)
            return fnwhere(get(f"{APP}{n}.to_bytes")), (lambda: I.call(I.getattr_(o, "to_bytes"), [], {})), [("the request", o)]
        out.append((f"{n}.to_bytes", f"{APP}{n}.to_bytes", setup))

    def dt():
        f = get("elgas.utils.datetime_to_bytes")
        return fnwhere(f), (lambda: I.call(f, [stamp()], {})), []
    out.append(("datetime_to_bytes", "elgas.utils.datetime_to_bytes", dt))
    for n, mk in (("to_bdc", lambda: ivar("number", 0, 99)), ("pad_password", lambda: "secret")):
        def setup(n=n, mk=mk):
            f = get("elgas.utils." + n)
            return fnwhere(f), (lambda: I.call(f, [mk()], {})), []
        out.append((n, "elgas.utils." + n, setup))
    return out


def arbitrary_request(n, tag=""):
    cls = request_cls(n)
    kw = {f.name: moment(f.name) for f in cls.fields if "time" in f.name}
    if any(f.name == "archive" for f in cls.fields):
        kw["archive"] = args_of(["archive"])["archive"]
    return make(cls, tag, **kw)


def key(which):
    return {} if which is None else {"encryption_key": bytes([65 + which]) * 16, "encryption_key_id": 1 + which}


def service_numbers():
    return [m for m in get("elgas.constants.ServiceNumber").members.values()] if maybe("elgas.constants.ServiceNumber") else []


def UNMAPPED():
    """A service no response is known for"""
    known = {getattr(x, "value", x) for x in (I.class_lookup(cls, "service") for _, cls in events()) if x is not MISSING}
    return [m for m in service_numbers() if m.value not in known][:1]


def answers(enc):
    """Frame decoding replaced by: a reply to any request, an error byte, an undecodable frame"""
    def dec(d):
        i = choose(3, "reply")
        if i == 2:
            I.throw(ValueError, "not a frame")
        data = whole(src("b", "in", "reply", lo=20, hi=64)) if i == 0 else rope("b", [("e", ivar("error", 1, 255))])
        services = [0x6C, *UNMAPPED()]
        return frame_of("EncryptedResponse" if enc else "Response", services[choose(len(services), "service") if i == 0 else 0], BArr(data))
    t = dict(reply(dec), **pdus(lambda n, d: marker(n)), **short_requests())
    t["elgas.security.CipherContext.decrypt"] = lambda f, a, k: whole(src("b", "in", "decrypted", lo=20, hi=64))
    return t


STEPS = ("send", "receive", "next", "whole exchange")


def step(o, s, tag):
    """Operations on a connection, with the caller's chunk"""
    kept = []
    if s in ("send", "whole exchange"):
        n = PAIRS[choose(len(PAIRS), "request")][0]
        r = arbitrary_request(n, tag)
        kept.append(("the request", r, picture(r)))
        call(o, "send", r)
    if s in ("receive", "next", "whole exchange"):
        a = BArr(whole(src("b", "in", "noise" + tag, mask=1 << 13)))
        b = BArr(cat(whole(src("b", "in", "rest" + tag, mask=1 << 13)), b"\x0d"))
        for x in (a, b):
            kept.append(("the chunk received", x, picture(x)))
            call(o, "receive_data", x)
    if s in ("next", "whole exchange"):
        call(o, "next_event")
        call(o, "next_event")
    return kept


def C26(c):
    shared_tables()
    c.explain = ("Every write to the abstract heap is recorded: decoders, encoders and computations are evaluated on mutable inputs and the objects written "
                 "are compared with those reachable from the caller's arguments and from the modules and classes of the package; for pairs of instances, with those "
                 "reachable from the other one.")
    rule = "no write reaches the caller's data or an object reachable from a module or class"

    def alone(v, setup):
        def body():
            w, go, kept = setup()
            watch = Watch(*kept)
            outcome(go)
            if watch.judge(v, w):
                v.ok()
        explore(body)
    for name, path, setup in decoders():
        c.ob(f"{name} leaves its input alone", rule, lambda v, s=setup: alone(v, s), fix=(1, 2, 3, 18, 24, 141))
    for name, path, setup in encoders():
        c.ob(f"{name} leaves its object alone", rule, lambda v, s=setup: alone(v, s), fix=())

    def apart(v, make_two, what, where):
        def body():
            a, b = make_two()
            x, y = reach([a], False), reach([b], False)
            both = [o for i, o in x.items() if i in y and isinstance(o, Obj) and mutable(o)]
            if both:
                return v.fail(where, f"two {what} share {_short(both[0], 80)}", certain=True)
            t = shared_tables()
            both = [o for i, o in x.items() if i in t and isinstance(o, CONTAINERS)]
            if both:
                return v.fail(where, f"{what} hold {name_of(both[0])}", certain=True)
            v.ok()
        explore(body)

    def mutable(o):
        if isinstance(o, SetO) and o.frozen:
            return False
        if isinstance(o, Inst):
            return isinstance(o.cls, ClassO) and not o.cls.opts.get("frozen") and o.payload is None
        return isinstance(o, CONTAINERS) or isinstance(o, ExtObj) and o.path not in ("log",)
    own = "no mutable object is reachable from both"
    for which in (None, 0):
        label = "encrypted" if which == 0 else "plain"
        c.ob(f"two new {label} connections", own, lambda v, k=which: apart(v, lambda: (connection(**key(k)), connection(**key(k))), "connections", fnwhere(get(CONN))), fix=())
        c.ob(f"two new {label} clients", own, lambda v, k=which: apart(v, lambda: (new_client(**key(k)), new_client(**key(k))), "clients", fnwhere(get(CLIENT))), fix=())
    for name, path, setup in decoders():
        if "from_bytes" in name or "record" in name:
            def pair(v, setup=setup):
                w = []

                def two():
                    out = []
                    for _ in range(2):
                        where, go, kept = setup()
                        w.append(where)
                        r = outcome(go)
                        if r[0] == "exc":
                            raise Infeasible()
                        out.append(r[1])
                    return out
                apart(v, two, "decoded objects", name)
                if not v.traces and not v.bad:
                    v.ok()
            c.ob(f"two results of {name}", own, pair, fix=())

    def interference(v, s, ka, kb, before):
        """Operations on one connection while another is in use"""
        def body():
            w = fnwhere(get(CONN))
            t = dict(answers(ka is not None))
            with stubs(t):
                a, b = connection(**key(ka)), connection(**key(kb))
                if before:
                    call(b, "send", make(request_cls("ReadTime")))
                    call(b, "receive_data", b"\x02\x02")
                watch = Watch(("the other connection", b))
                kept = step(a, s, "a")
                if not watch.judge(v, w):
                    return
                for label, x, pic in kept:
                    d = differs(pic, picture(x))
                    if d:
                        return v.fail(w, f"{label} is changed: {d}")
                v.ok()
        explore(body)
    for ka, kb in ((None, None), (0, 1), (0, None)):
        for s in STEPS:
            for before in (False, True):
                c.ob(f"{s} on {'an encrypted' if ka is not None else 'a plain'} connection beside {'an encrypted' if kb is not None else 'a plain'} one "
                     f"{'in use' if before else 'not in use'}", "no write reaches the other connection, the caller's objects, a module or a class",
                     lambda v, s=s, ka=ka, kb=kb, b=before: interference(v, s, ka, kb, b), fix=())

    def aliasing(v):
        """A chunk changed by its owner after it was received"""
        def body():
            w = fnwhere(get(CONN + ".receive_data"))
            seen = Tape()

            def dec(d):
                I.throw(ValueError, "not a frame")
            with stubs(reply(dec, seen)):
                o = connection()
                a, x = BArr(b"\x02\x11"), BArr(b"\x02\x22\x33")
                call(o, "receive_data", a)
                a.set(b"\xff\xff\xff")
                call(o, "receive_data", x)
                x.set(b"\xee")
                call(o, "receive_data", b"\x0d")
                call(o, "next_event")
            if len(seen) != 1 or seen[0] != ("unescaped", b"\x02\x11\x02\x22\x33\x0d"):
                return v.fail(w, f"a chunk reused by its owner changes what was received: {_short(tuple(seen))}", certain=True)
            v.ok()
        explore(body)
    c.ob("chunk reused by its owner", "what was received does not change", aliasing, fix=())

    def operation(v, op, need):
        name, names, kind, extra, content = op

        def body():
            w = fnwhere(get(f"{CLIENT}.{name}"))
            ans = response(kind, "answer")
            line = Line(lambda i: need, lambda i: ans)
            with stubs(line.table()):
                a, b = new_client(), new_client("other")
                watch = Watch(("the other client", b), ("the response", ans))
                outcome(lambda: I.call(I.getattr_(a, name), list(args_of(names).values()), {}))
                if watch.judge(v, w):
                    v.ok()
        explore(body)
    for op in CLIENT_OPS:
        for need in (1, 2):
            c.ob(f"{op[0]} beside another client, {need} chunks", "no write reaches the other client, the response, a module or a class", lambda v, op=op, n=need: operation(v, op, n), fix=())

    def paging(v):
        def body():
            w = fnwhere(get(f"{CLIENT}.read_parameters"))
            line = Line(lambda i: 1, lambda i: response("ReadDeviceParameters", data=b"\x00", object_amount=3, is_end=i == 1))
            with stubs(dict(line.table(), **{PARSER + ".parse": lambda f, a, k: Opq("any", ("parsed",))})):
                a, b = new_client(), new_client("other")
                watch = Watch(("the other client", b))
                outcome(lambda: I.call(I.getattr_(a, "read_parameters"), [], {}))
                if watch.judge(v, w):
                    v.ok()
        explore(body)
    c.ob("read_parameters beside another client", "no write reaches the other client, a module or a class", paging, fix=())

    def repeated(v, held):
        """The same stream parsed twice"""
        def body():
            w = fnwhere(get(PARSER + ".parse"))
            n = choose(3, "length of the stream")
            x = (b"\x03\x00\x05", whole(src("b", "in", "stream", len=4)), b"")[n]
            k = get(PARSER)
            o = I.call(k, [x] if held else [], {})
            from .params import marked

            def once():
                r = outcome(lambda: I.call(I.getattr_(o, "parse"), [] if held else [x], {}))
                return (r[0], plain(r[1]) if r[0] == "ret" else exc_name(r[1]))
            a, b = marked(lambda: (once(), once()))
            if a[0] != b[0]:
                return v.fail(w, f"parsing the same stream twice gives {_short(a)} and {_short(b)}")
            v.same(a[1], b[1], w, "second result of parsing the same stream")
        explore(body)
    c.ob("a stream parsed twice", "the second result is the first", lambda v: repeated(v, False), fix=())
    c.ob("a parser used twice", "the second result is the first", lambda v: repeated(v, True), fix=())


# ------------------------------------------------------------------ C27

OUT = ("socket", "serial", "time", "select", "selectors", "ssl", "asyncio", "subprocess", "requests", "urllib", "http", "ftplib", "smtplib", "telnetlib",
       "shutil", "tempfile", "signal", "fcntl", "termios", "tty", "pty", "multiprocessing", "threading", "sched", "sqlite3", "shelve", "dbm", "mmap", "io", "glob",
       "fileinput", "syslog", "ctypes", "os", "pathlib", "sys", "builtins", "datetime", "uuid", "socketserver", "concurrent", "_thread", "webbrowser", "xmlrpc", "codecs", "gzip", "bz2", "lzma", "zipfile", "tarfile", "pickle", "locale", "platform", "getpass", "curses", "readline")
PURE = {
    "socket": ("inet_ntoa", "inet_aton", "inet_ntop", "inet_pton", "htons", "htonl", "ntohs", "ntohl"),
    "time": ("strftime", "gmtime", "mktime", "strptime", "struct_time"),
    "threading": ("Lock", "RLock", "local"),
    "io": ("BytesIO", "StringIO"),
    "pickle": ("dumps", "loads"),
    "gzip": ("compress", "decompress"), "bz2": ("compress", "decompress"), "lzma": ("compress", "decompress"),
    "pathlib": ("PurePath", "PurePosixPath", "PureWindowsPath"),
}
IMPURE = {      # of modules that are otherwise harmless: only these
    "os": None, "sys": ("stdout", "stderr", "stdin", "exit", "_exit"), "datetime": ("now", "utcnow", "today"), "builtins": ("open", "input", "print", "breakpoint", "__builtins__"),
    "codecs": ("open",), "uuid": ("uuid1",), "locale": ("setlocale",), "getpass": ("getpass",), "platform": (), "ctypes": None, "asyncio": None,
}
OS_PURE = ("urandom", "path.join", "path.basename", "path.dirname", "path.splitext", "path.normpath", "linesep", "sep", "fspath", "PathLike")


def touches(path):
    """The outside facility a resolved name stands for, or None"""
    top, _, rest = path.partition(".")
    if top not in OUT:
        return None
    last = path.rsplit(".", 1)[-1]
    if top == "os":
        return None if not rest or rest in OS_PURE or rest == "path" else path
    if top in IMPURE and IMPURE[top] is not None:
        return path if last in IMPURE[top] or any(p in IMPURE[top] for p in rest.split(".")) else None
    if not rest:
        return None
    if last in PURE.get(top, ()) or rest.split(".")[0] in PURE.get(top, ()):
        return None
    if isinstance(E_CLASS(path), (type, ClassO)) and is_error(E_CLASS(path)):
        return None             # exception classes are no I/O
    return path


def E_CLASS(path):
    from .. import ext as E
    x = E.EXT.get(path)
    return x if x is not None else E.EXTCLASS.get(path)


def is_error(c):
    return any(getattr(k, "__name__", getattr(k, "name", "")) == "BaseException" for k in mro_of(c))


ASTS = {}
HARD = ("socket", "serial", "time", "select", "selectors", "subprocess", "ssl", "asyncio")


def tree_of(m):
    if m not in ASTS:
        path = I.LOADER.find(m)
        p = path if isinstance(path, str) else (path[0] if isinstance(path, tuple) else I.LOADER.paths.get(m))
        with open(p, encoding="utf-8") as f:
            ASTS[m] = ast.parse(f.read())
    return ASTS[m]


def bindings(m):
    """Module-level names bound by import"""
    if ("names", m) not in ASTS:
        ASTS["names", m] = {}
        ASTS["names", m] = Names(m, tree_of(m), False).scopes[0]
    return ASTS["names", m]


def canonical(path, d=0):
    """A dotted name through the import bindings of the package's own modules"""
    parts = path.split(".")
    mods = all_modules(REPO)
    for i in range(len(parts) - 1, 0, -1):
        m = ".".join(parts[:i])
        if m in mods:
            if m in BROKEN or path in mods:
                return path
            b = bindings(m).get(parts[i])
            if b and d < 8:
                return canonical(".".join([b] + parts[i + 1:]), d + 1)
            return path
    return path


def importers():
    """module -> modules of the package importing it"""
    out = {}
    mods = set(all_modules(REPO))
    for m in mods:
        if m in BROKEN:
            continue
        for n in ast.walk(tree_of(m)):
            if isinstance(n, ast.Import):
                to = [a.name for a in n.names]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = m.split(".")
                    pk = pk[:len(pk) - n.level]
                    base = ".".join(pk + ([base] if base else []))
                to = [base] + [base + "." + a.name for a in n.names]
            else:
                continue
            for t in to:
                if t in mods:
                    out.setdefault(t, set()).add(m)
    return out


def transport_modules():
    """The transport and the modules only it imports"""
    imp, out = importers(), {"elgas.transport"}
    while True:
        more = {m for m, by in imp.items() if m not in out and by - {m} and by - {m} <= out and not any(x.startswith(m + ".") for x in all_modules(REPO))}
        if not more:
            return out
        out |= more


class Names(ast.NodeVisitor):
    """Uses of outside facilities in one module, per function, through its import bindings"""

    def __init__(self, name, tree, visit=True):
        self.name, self.found, self.functions = name, [], 0
        self.stack = []
        self.scopes = [self.bind(tree, {})]
        if visit:
            self.visit(tree)

    def bind(self, node, outer):
        d = dict(outer)
        todo = list(ast.iter_child_nodes(node))
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        d[a.asname] = a.name
                    else:
                        d[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = self.name.split(".")[:-n.level]
                    base = ".".join(pk + ([base] if base else []))
                for a in n.names:
                    if a.name == "*":
                        if base in all_modules(REPO) and base not in BROKEN:
                            d.update(bindings(base))
                        elif base.split(".")[0] in HARD:
                            self.found.append((n.lineno, ".".join(self.stack) or "module", base + ".*"))
                    else:
                        d[a.asname or a.name] = canonical(base + "." + a.name)
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                todo.extend(ast.iter_child_nodes(n))
        todo = list(ast.iter_child_nodes(node))
        while todo:             # names bound otherwise hide imports
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                d.pop(n.name, None)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                d.pop(n.id, None)
            todo.extend(ast.iter_child_nodes(n))
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                d.pop(x.arg, None)
        return d

    def dotted(self, n):
        if isinstance(n, ast.Name):
            d = self.scopes[-1]
            if n.id in d:
                return d[n.id]
            return "builtins." + n.id if n.id in ("open", "input", "print", "breakpoint", "exec", "eval", "compile", "__import__", "__builtins__") and n.id not in self.local else None
        if isinstance(n, ast.Attribute):
            p = self.dotted(n.value)
            return canonical(p + "." + n.attr) if p else None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("__import__",) and n.args and isinstance(n.args[0], ast.Constant):
            return str(n.args[0].value)
        return None

    local = ()

    def function(self, n):
        self.functions += 1
        for d in getattr(n, "decorator_list", []):
            self.visit(d)
        for x in n.args.defaults + [y for y in n.args.kw_defaults if y]:
            self.visit(x)
        self.scopes.append(self.bind(n, self.scopes[-1]))
        self.stack.append(getattr(n, "name", "lambda"))
        for x in n.body if isinstance(n.body, list) else [n.body]:
            self.visit(x)
        self.stack.pop()
        self.scopes.pop()

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = function

    def visit_ClassDef(self, n):
        for d in n.decorator_list + n.bases:
            self.visit(d)
        self.stack.append(n.name)
        for x in n.body:
            self.visit(x)
        self.stack.pop()

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def use(self, n):
        p = self.dotted(n)
        t = p if p in HARD else touches(p) if p else None
        if t:
            self.found.append((n.lineno, ".".join(self.stack) or "module", t))
            return True
        return p is not None

    def visit_Attribute(self, n):
        if not self.use(n):
            self.visit(n.value)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.use(n)

    def visit_Call(self, n):
        p = self.dotted(n.func)
        if p in ("importlib.import_module", "builtins.__import__") and n.args and isinstance(n.args[0], ast.Constant) and str(n.args[0].value).split(".")[0] in OUT[:18]:
            self.found.append((n.lineno, ".".join(self.stack) or "module", f"import of {n.args[0].value}"))
        self.generic_visit(n)


def C27(c):
    c.explain = ("Every function of every module outside the transport is scanned for uses of outside facilities, with names resolved through the import "
                 "bindings of its scope; the effects of evaluating every decoder, encoder, connection and client operation are compared with the allowed ones.")
    rule = "no use of sockets, serial ports, clocks, files, processes or the console outside elgas.transport"

    def scan(v, m):
        n = Names(m, tree_of(m))
        c.scanned = getattr(c, "scanned", 0) + n.functions
        for line, fun, what in n.found[:3]:
            v.bad_(f"{path_of(m)}:{line}:{fun}", f"{what} is used outside the transport", {"module": m, "function": fun, "uses": what})
        if not n.found:
            v.ok()
    inside = transport_modules()
    for m in all_modules(REPO):
        if m not in inside:
            c.ob(f"names used in {m}", rule, lambda v, m=m: scan(v, m), fix=())

    def clean(v, where, eff):
        for e in walk(eff):
            if e.kind in ("io", "clock") or e.kind == "ext" and isinstance(e.data[0], str) and touches(e.data[0]):
                return v.fail(where, f"{e.data[0]} is reached at {where_path(str(e.where))}")
        v.ok()

    def walk(eff):
        for e in eff:
            yield e
            if e.kind == "loop":
                for p in e.data[0].nexts + e.data[0].exits:
                    yield from walk(p.effects)

    def run(v, setup):
        def body():
            w, go, kept = setup()
            n = len(R.effects)
            outcome(go)
            clean(v, w, R.effects[n:])
        explore(body)
    for name, path, setup in decoders() + encoders():
        c.ob(f"effects of {name}", "logging and random filler only", lambda v, s=setup: run(v, s), fix=())

    def exchange(v, k):
        def body():
            with stubs(answers(k is not None)):
                o = connection(**key(k))
                n = len(R.effects)
                step(o, "whole exchange", "a")
                clean(v, fnwhere(get(CONN)), R.effects[n:])
        explore(body)
    for k in (None, 0):
        c.ob(f"effects of an exchange on {'an encrypted' if k is not None else 'a plain'} connection", "logging and random filler only", lambda v, k=k: exchange(v, k), fix=())

    def operation(v, op):
        name, names, kind, extra, content = op

        def body():
            line = Line(lambda i: 2, lambda i: response(kind, "answer"))
            with stubs(line.table()):
                o = new_client()
                n = len(R.effects)
                r = outcome(lambda: I.call(I.getattr_(o, name), list(args_of(names).values()), {}))
                if r[0] == "exc" and is_exc(r[1], "AttributeError") and "Peer" in exc_text(r[1]):
                    return v.fail(fnwhere(get(f"{CLIENT}.{name}")), f"a transport needs more than connect, disconnect, send and recv: {_short(exc_text(r[1]), 100)}")
                clean(v, fnwhere(get(f"{CLIENT}.{name}")), R.effects[n:])
        explore(body)
    for op in CLIENT_OPS:
        c.ob(f"effects of {op[0]}", "everything outside happens through the transport handed to the client", lambda v, op=op: operation(v, op), fix=())
