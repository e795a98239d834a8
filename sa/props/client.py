"""The client: paging, operations, masking."""
from ..harness import *
from ..harness import _short
from .. import textops as T
from ..models import b_repr, b_str
from .conn import CONN, APP, PAIRS, ERRORS, make, attr_of, VALUES, response_cls, frame_of, reply

CLIENT = "elgas.client.ElgasClient"


def new_client(password="secret", **kw):
    peer = I.call(I.getattr_(I.LOADER.import_("spec.peer"), "Peer"), [], {})
    return used(I.call(get(CLIENT), [], dict(transport=peer, password=password, password_id=801, **kw)), operated)


def operated(o):
    """An earlier operation of a client"""
    op = choose(2, "earlier operation: read_time, read_parameters")

    def answer(i):
        if op == 0:
            return response("ReadTime", "earlier")
        return make(response_cls("ReadDeviceParameters"), data=b"\x01", object_number=0, object_amount=ivar("earlier count", 0, 65535), is_end=True)
    line = Line(lambda i: 1, answer)
    with stubs(dict(line.table(), **{"elgas.parser.ScadaParameterParser.parse": lambda f, a, k: Opq("any", ("earlier parsed",))})):
        outcome(lambda: I.call(I.getattr_(o, ("read_time", "read_parameters")[op]), [], {}))


def where(name):
    return fnwhere(get(f"{CLIENT}.{name}"))


def moment(name):
    """An arbitrary point in time"""
    f = [ivar(f"{name}.{n}", lo, hi) for n, lo, hi in (("year", 2000, 2099), ("month", 1, 12), ("day", 1, 28), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 59))]
    r = outcome(lambda: I.call(specfn("datetime"), f, {}))
    if r[0] == "exc":
        raise Infeasible()
    return r[1]


def response(name, tag="answer", **kw):
    """A response with arbitrary content"""
    cls = response_cls(name)
    for f in cls.fields or ():
        if f.init and f.name in ("time", "current_time"):
            kw.setdefault(f.name, moment(f.name))
        elif f.init and f.name == "data":
            kw.setdefault(f.name, whole(src("b", "in", "content")))
    return make(cls, tag, **kw)


def accepted(name, a, k):
    """A transport is called the way every transport can be"""
    for n, x in list(get("elgas.transport").env.vars.items()):
        if isinstance(x, ClassO) and x.module == "elgas.transport":
            f = I.class_lookup(x, name)
            if isinstance(f, FuncO):
                I.bind_args(f, list(a), k)


class Line:
    """The connection and the transport of a client as recorders: the event is available once need(i) chunks of exchange i were fed"""

    def __init__(self, need, answer, fail=None):
        self.need, self.answer, self.fail = need, answer, fail
        self.requests, self.sent, self.chunks, self.fed, self.log = (Tape() for _ in range(5))
        self.events, self.since, self.stuck = Tape([0]), Tape([0]), Tape()

    def stop(self):
        self.stuck.append(1)
        I.throw(KeyboardInterrupt, "the operation does not come to an end")

    def hit(self, name):
        e = self.events.get()
        if len(self.log) > 5000 or name == "transport.recv" and len(self.chunks) > 2 * self.need(e) + sum(map(self.need, range(e))) + 5:
            self.stop()
        if self.fail and self.fail[0] == name and self.fail[1] == len([x for x in self.log if x == name]):
            self.log.append(name)
            I.throw(self.fail[2], "failure of " + name)
        self.log.append(name)

    def table(self):
        def send(f, a, k):
            self.hit("connection.send")
            self.requests.append(a[1] if len(a) > 1 else list(k.values())[0])
            return whole(src("b", "in", f"frame{len(self.requests)}"))

        def feed(f, a, k):
            self.hit("connection.receive_data")
            self.fed.append(plain(a[1] if len(a) > 1 else list(k.values())[0]))
            self.since.set(self.since.get() + 1)

        def event(f, a, k):
            self.hit("connection.next_event")
            e = self.events.get()
            if self.since.get() < self.need(e):
                return get("elgas.state.NEED_DATA")
            self.since.set(0)
            self.events.set(e + 1)
            return self.answer(e)

        def out(f, a, k):
            accepted("send", a, k)
            self.hit("transport.send")
            self.sent.append(plain(a[1] if len(a) > 1 else list(k.values())[0]))

        def recv(f, a, k):
            accepted("recv", a, k)
            self.hit("transport.recv")
            self.chunks.append(whole(src("b", "in", f"chunk{len(self.chunks) + 1}", lo=1)))
            return self.chunks[-1]
        return {CONN + ".send": send, CONN + ".receive_data": feed, CONN + ".next_event": event, peer("send"): out, peer("recv"): recv}


def peer(name):
    return I.getattr_(I.getattr_(I.LOADER.import_("spec.peer"), "Peer"), name)


# ------------------------------------------------------------------ C20

def C20(c):
    c.explain = ("The paging loop is evaluated with the connection replaced by a device that answers with pages of arbitrary content and arbitrary object "
                 "counts; the sequence of requests and the text handed to the parser are compared with the specification.")
    rule = "k pages: exactly k requests starting at start, start+n1, start+n1+n2, ...; the parser gets page1+...+pagek once; its result is returned"
    big = 1000 if os.environ.get("VERIF_TIER") == "thorough" else 300

    def paging(v, k, start, content=True, secret="secret"):
        def body():
            w = where("read_parameters")
            amounts = [ivar(f"count{i + 1}", 0, 65535) for i in range(k)]
            datas = [whole(src("b", "in", f"page{i + 1}")) if content else bytes([i & 255, i >> 8]) for i in range(k)]

            def answer(i):
                if i >= k:
                    I.throw(RuntimeError, "no page left")
                return make(get(APP + "ReadDeviceParametersResponse"), data=datas[i], object_number=Opq("any", ("number", i)),
                            object_amount=amounts[i], is_end=i == k - 1)
            line = Line(lambda i: 1, answer)
            parsed = Tape()
            result = Opq("any", ("parsed",))

            def parse(f, a, kw):
                d = a[1] if len(a) > 1 else kw.get("data")
                parsed.append(plain(d if d is not None else I.getattr_(a[0], "data")))
                return result
            first = ivar("read_from", 0) if start else 0
            with stubs(dict(line.table(), **{"elgas.parser.ScadaParameterParser.parse": parse})):
                o = new_client()
                g = outcome(lambda: I.call(I.getattr_(o, "read_parameters"), [first] if start else [], {}))
            if g[0] == "exc":
                return v.fail(w, f"reading {k} pages raises {exc_text(g[1])}")
            if len(line.requests) != k:
                return v.fail(w, f"{len(line.requests)} pages are requested of {k}")
            at = first
            for i, r in enumerate(line.requests):
                if not isinstance(r, Inst) or r.cls is not get(APP + "ReadDeviceParametersRequest"):
                    return v.fail(w, f"page {i + 1} is requested with {_short(r)}")
                v.same(I.getattr_(r, "object_count"), at, w, f"first object requested for page {i + 1}")
                at = add(num(at), amounts[i])
            if len(parsed) != 1:
                return v.fail(w, f"{len(parsed)} texts are parsed instead of one")
            v.same(parsed[0], cat(*datas), w, "text that is parsed")
            if g[1] is not result:
                return v.fail(w, f"the result is {_short(g[1])} instead of what the parser gives")
            v.ok()
        explore(body)
    for k in (1, 2, 3, 4, 5):
        c.ob(f"{k} pages of any size from any start", rule, lambda v, k=k: paging(v, k, True), fix=())
    c.ob("default start", rule, lambda v: paging(v, 2, False), fix=())
    c.ob(f"{big} pages with any object counts", rule, lambda v: paging(v, big, True, False), fix=())

    def interrupted(v):
        def body():
            w = where("read_parameters")
            at = choose(3, "failing page")
            site = ("connection.send", "transport.send", "transport.recv", "connection.next_event")[choose(4, "failing step")]

            def answer(i):
                return make(get(APP + "ReadDeviceParametersResponse"), data=whole(src("b", "in", f"page{i + 1}")), object_number=0,
                            object_amount=ivar(f"count{i + 1}", 0, 65535), is_end=False)
            err = get("elgas.exceptions.CommunicationError")
            line = Line(lambda i: 1, answer, (site, at, err))
            with stubs(dict(line.table(), **{"elgas.parser.ScadaParameterParser.parse": lambda f, a, k: Opq("any", ("parsed",))})):
                g = outcome(lambda: I.call(I.getattr_(new_client(), "read_parameters"), [], {}))
            if g[0] == "ret":
                return v.fail(w, f"a failing {site} at page {at + 1} ends the reading without an error", certain=True)
            v.ok()
        explore(body)
    c.ob("an exchange that fails", "the call raises instead of returning part of the parameters", interrupted, fix=())


# ------------------------------------------------------------------ C21

OPS = (
    ("read_instantaneous_values", (), "ReadInstantaneousValues", ("password",), lambda r: r),
    ("read_time", (), "ReadTime", (), lambda r: I.getattr_(r, "time")),
    ("write_time", ("device_time", "cryout"), "WriteTime", ("password",), None),
    ("read_archive", ("archive", "amount", "oldest_record_id"), "ReadArchive", ("password",), lambda r: r),
    ("read_archive_by_time", ("archive", "amount", "oldest_timestamp"), "ReadArchiveByTime", ("password",), lambda r: r),
)


def args_of(names):
    out = {}
    for n in names:
        if "time" in n:
            out[n] = moment(n)
        elif n == "archive":
            out[n] = one_of("archive", *[x[1] for x in members("elgas.constants.Archive")][:3])
        elif n == "cryout":
            out[n] = one_of("cryout", True, False)
        else:
            out[n] = ivar(n)
    return out


def members(path):
    out = []
    for k in range(256):
        r = outcome(lambda: I.call(get(path), [k], {}))
        if r[0] == "ret":
            out.append((k, r[1]))
    return out


def C21(c):
    c.explain = ("Each operation is evaluated with arbitrary arguments and the connection and transport replaced by recorders; the event becomes available "
                 "after one or more received chunks. Requests, bytes handed on, their order and the result are compared with the specification.")
    rule = "one request of the operation's type with the client's password and the caller's arguments; its bytes sent once; every chunk received handed to the connection in order until an event; its content returned"

    def operation(v, op, need, how):
        name, names, kind, extra, content = op

        def body():
            w = where(name)
            ans = response(kind, "answer")
            line = Line(lambda i: need, lambda i: ans)
            args = args_of(names)
            with stubs(line.table()):
                o = new_client(whole(src("s", "in", "password", hi=6)))
                pw = I.getattr_(o, "password")
                f = I.getattr_(o, name)
                g = outcome(lambda: I.call(f, list(args.values()), {}) if how == "positional" else I.call(f, [], args))
            if g[0] == "exc":
                return v.fail(w, f"{name} raises {exc_text(g[1])}")
            if len(line.requests) != 1:
                return v.fail(w, f"{name} sends {len(line.requests)} requests", certain=True)
            r = line.requests[0]
            if not isinstance(r, Inst) or r.cls is not get(f"{APP}{kind}Request"):
                return v.fail(w, f"{name} sends {_short(r)}", certain=True)
            if "password" in extra:
                v.same(I.getattr_(r, "password"), pw, w, f"password of {name}")
            for n in names:
                v.same(I.getattr_(r, n), args[n], w, f"{n} of {name}")
            if len(line.sent) != 1:
                return v.fail(w, f"{name} writes {len(line.sent)} times to the transport", certain=True)
            v.same(line.sent[0], whole(src("b", "in", "frame1")), w, f"bytes {name} writes to the transport")
            exchange(v, w, name, line, need)
            if content is None:
                v.ok() if g[1] is None or g[1] is ans else v.fail(w, f"{name} returns {_short(g[1])}", certain=True)
            else:
                want = content(ans)
                if g[1] is not want and agree(g[1], want)[0] is not True:
                    v.fail(w, f"{name} returns {_short(g[1])} instead of the content of the response", certain=True)
                else:
                    v.ok()
        explore(body)

    def exchange(v, w, name, line, need):
        if len(line.chunks) != need:
            return v.fail(w, f"{name} receives {len(line.chunks)} chunks where the connection needs {need}", certain=True)
        if len(line.fed) != len(line.chunks):
            return v.fail(w, f"{name} hands {len(line.fed)} of {len(line.chunks)} chunks to the connection", certain=True)
        for a, b in zip(line.fed, line.chunks):
            r, _ = agree(a, b)
            if r is not True:
                return v.same(a, b, w, f"chunk {name} hands to the connection")
        i, j, k = (line.log.index(x) for x in ("connection.send", "transport.send", "transport.recv"))
        if not i < j < k:
            return v.fail(w, f"{name}: order of steps is {line.log[:6]}", certain=True)
        v.ok()

    for op in OPS:
        for need in (1, 2, 3, 120):
            for how in ("positional", "named") if op[1] and need == 1 else ("positional",):
                c.ob(f"{op[0]}, response in {need} chunks, {how} arguments", rule, lambda v, op=op, need=need, how=how: operation(v, op, need, how), fix=())

    def whole_exchange(v, op, bad):
        """The real connection; the frame arrives in three pieces, possibly after a chunk that is no frame"""
        name, names, kind, extra, content = op

        def body():
            w = where(name)
            ans = response(kind)
            no_end = lambda n, **kw: whole(src("b", "in", n, mask=1 << 0x0D, **kw))
            pieces = [no_end("piece1", lo=1), no_end("piece2", lo=1), cat(no_end("piece3"), b"\x0d")]
            if bad:
                pieces.insert(0, cat(no_end("noise", lo=1), b"\x0d"))
            todo = Tape(pieces)
            line = Line(lambda i: 1, None)
            seen = Tape()

            def recv(f, a, k):
                if not len(todo):
                    line.stop()
                return todo.take()

            def decoder(d):
                if bad and len(seen) == 1:
                    I.throw(ValueError, "not a frame")
                return frame_of("Response", dict(PAIRS)[kind], whole(src("b", "in", "data", lo=2)))
            t = {k: x for k, x in line.table().items() if not isinstance(k, str)}
            t[peer("recv")] = recv
            t.update(reply(decoder, seen))
            t[f"{APP}{kind}Response.from_bytes"] = lambda f, a, k: ans
            t[f"{APP}{kind}Request.to_bytes"] = lambda f, a, k: b"\x01\x02\x03"
            with stubs(t), following(20):
                o = new_client()
                g = outcome(lambda: I.call(I.getattr_(o, name), list(args_of(names).values()), {}))
            if len(line.stuck):
                return v.fail(w, f"{name} does not recognise a response received in pieces")
            if g[0] == "exc":
                return v.fail(w, f"{name} raises {exc_text(g[1])} for a response received in pieces")
            want = [cat(*pieces[-3:])]
            if bad:
                want.insert(0, pieces[0])
            if len(seen) != len(want):
                return v.fail(w, f"{name}: {len(seen)} frames are examined")
            for a, b in zip(seen, want):
                v.same(a, ("unescaped", b), w, f"frame examined by {name}")
            if content is not None and g[1] is not content(ans) and agree(g[1], content(ans))[0] is not True:
                v.fail(w, f"{name} returns {_short(g[1])}", certain=True)
        explore(body)
    for op in OPS:
        for bad in (False, True):
            c.ob(f"{op[0]} with its connection{', after noise' if bad else ''}", "the pieces received are put together and decoded as one frame",
                 lambda v, op=op, bad=bad: whole_exchange(v, op, bad), fix=())

    def default_cryout(v):
        def body():
            line = Line(lambda i: 1, lambda i: response("WriteTime"))
            with stubs(line.table()):
                g = outcome(lambda: I.call(I.getattr_(new_client(), "write_time"), [moment("device_time")], {}))
            if g[0] == "exc":
                return v.fail(where("write_time"), f"write_time raises {exc_text(g[1])}")
            v.ok()
        explore(body)
    c.ob("write_time without cryout", "accepted", default_cryout, fix=())

    def paging_request(v):
        def body():
            w = where("read_parameters")
            line = Line(lambda i: 2, lambda i: response("ReadDeviceParameters", data=b"\x00", object_amount=3, is_end=i == 1))
            with stubs(dict(line.table(), **{"elgas.parser.ScadaParameterParser.parse": lambda f, a, k: Opq("any", ("parsed",))})):
                o = new_client(whole(src("s", "in", "password", hi=6)))
                pw = I.getattr_(o, "password")
                g = outcome(lambda: I.call(I.getattr_(o, "read_parameters"), [], {}))
            if g[0] == "exc":
                return v.fail(w, f"read_parameters raises {exc_text(g[1])}")
            for r in line.requests:
                if not isinstance(r, Inst) or r.cls is not get(APP + "ReadDeviceParametersRequest"):
                    return v.fail(w, f"read_parameters sends {_short(r)}", certain=True)
                v.same(I.getattr_(r, "password"), pw, w, "password of read_parameters")
            if len(line.sent) != len(line.requests) or len(line.chunks) != 2 * len(line.requests):
                return v.fail(w, f"{len(line.requests)} requests, {len(line.sent)} writes, {len(line.chunks)} chunks received", certain=True)
            for i, (a, b) in enumerate(zip(line.fed, line.chunks)):
                v.same(a, b, w, f"chunk {i + 1} handed to the connection")
        explore(body)
    c.ob("read_parameters", rule, paging_request, fix=())

    def failing(v, op):
        name, names, kind, extra, content = op

        def body():
            w = where(name)
            sites = ("connection.send", "transport.send", "transport.recv", "connection.receive_data", "connection.next_event")
            site = sites[choose(len(sites), "failing step")]
            at = choose(2, "failing time") if site in sites[2:] else 0
            kinds = [ValueError, TimeoutError, *[get("elgas.exceptions." + x) for x in ("CommunicationError", "WrongPasswordError", "LocalElgasProtocolError")]]
            err = kinds[choose(len(kinds), "error")]
            line = Line(lambda i: 3, lambda i: response(kind, "answer"), (site, at, err))
            with stubs(line.table()):
                o = new_client()
                g = outcome(lambda: I.call(I.getattr_(o, name), list(args_of(names).values()), {}))
            if g[0] == "ret":
                return v.fail(w, f"{name} returns {_short(g[1])} although {site} failed", certain=True)
            if g[1].cls is not err:
                return v.fail(w, f"{name} raises {exc_text(g[1])} although {site} failed with {exc_name(Inst(err, {}))}", certain=True)
            if len(line.requests) > 1 or len(line.sent) > 1:
                return v.fail(w, f"{name} sends {len(line.sent)} times when {site} fails", certain=True)
            v.ok()
        explore(body)
    for op in OPS:
        c.ob(f"{op[0]} failing at any step", "the error of the step is raised and nothing is sent again", lambda v, op=op: failing(v, op), fix=())


# ------------------------------------------------------------------ C24

def mentions(x, names, seen=None):
    """Does a term depend on one of the named inputs?"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return False
    seen.add(id(x))
    if isinstance(x, (str, bytes)):
        return any(n in x for n in names) if isinstance(x, str) else False
    if isinstance(x, (tuple, list, frozenset, set)):
        return any(mentions(y, names, seen) for y in x)
    if isinstance(x, dict):
        return any(mentions(y, names, seen) for y in [*x.keys(), *x.values()])
    if isinstance(x, (int, float, type(None), bool)):
        return False
    if isinstance(x, Inst):
        return mentions(x.payload, names, seen) or mentions(x.attrs, names, seen)
    parts = []
    for k in ("args", "t", "segs", "k", "v", "items", "d", "op", "len", "data"):
        y = getattr(x, k, None)
        if y is not None and not callable(y):
            parts.append(y)
    if isinstance(x, Rope):
        parts.append(segs(x))
    return any(mentions(y, names, seen) for y in parts)


SECRETS = ("·password·", "·key·")


def C24(c):
    c.explain = ("The textual representations are evaluated as terms, the interpreter's call stack standing for the frames the secret types look at; the "
                 "result must not depend on the password or the key. Objects: the client, its connection, every request a client operation builds, before and "
                 "after use, alone and inside containers.")
    rule = "the term of the representation does not mention the password or the key"
    forms = (("repr", lambda x: b_repr(x)), ("str", lambda x: b_str(x)), ("repr in a list", lambda x: b_repr(ListO([x]))),
             ("repr in a dictionary in a tuple", lambda x: b_repr((I.call(dict, [], {"x": x}), 1))),
             ("f-string", lambda x: I.call(I.getattr_(I.LOADER.import_("spec.wire"), "shown"), [x], {})))

    def secret_client(with_key):
        kw = {"encryption_key": whole(src("b", "in", "·key·", 16, len=16)), "encryption_key_id": 1} if with_key else {}
        return new_client(whole(src("s", "in", "·password·", 6, len=6)), **kw)

    def shown(v, x, what, w):
        for n, f in forms:
            g = outcome(lambda: f(x))
            if g[0] == "exc":
                v.fail(w, f"{n} of {what} raises {exc_text(g[1])}", certain=True)
            elif mentions(plain(g[1]), SECRETS):
                v.fail(w, f"{n} of {what} contains the password or the key: {_short(plain(g[1]), 400)}", certain=True)
            else:
                v.ok()

    def static(v, with_key, path):
        def body():
            o = secret_client(with_key)
            x = attr_of(o, path) if path else o
            shown(v, x, f"the client{'s ' + path if path else ''}", fnwhere(x.cls))
        explore(body)
    for k in (True, False):
        for p in ("", "elgas_connection"):
            c.ob(f"{'connection of a client' if p else 'client'} {'with' if k else 'without'} a key", rule, lambda v, k=k, p=p: static(v, k, p), fix=())
    c.ob("cipher context of a client", rule, lambda v: static(v, True, "elgas_connection.cipher_context"), fix=())

    def kept(v):
        def body():
            o = secret_client(True)
            w = fnwhere(get(CLIENT))
            v.same(I.getattr_(o, "password"), whole(src("s", "in", "·password·", 6, len=6)), w, "password of a client")
            v.same(I.getattr_(o, "encryption_key"), whole(src("b", "in", "·key·", 16, len=16)), w, "key of a client")
        explore(body)
    c.ob("the secrets themselves stay usable", "masking does not change the values", kept, fix=())

    def used(v, op, with_key):
        name, names, kind, extra, content = op

        def body():
            requests = Tape()
            real = {}

            def send(f, a, k):
                requests.append(a[1] if len(a) > 1 else list(k.values())[0])
                del I.SUMMARIES[f.qual]
                try:
                    return I.run_func(f, I.bind_args(f, a, k))
                finally:
                    I.SUMMARIES[f.qual] = send
            line = Line(lambda i: 1, lambda i: response(kind, "answer", data=b"", object_amount=1, is_end=True))
            t = line.table()
            t[CONN + ".send"] = send
            t["elgas.parser.ScadaParameterParser.parse"] = lambda f, a, k: Opq("any", ("parsed",))
            t["elgas.security.CipherContext.encrypt"] = lambda f, a, k: whole(src("b", "in", "cipher", lo=16, hi=2000))
            t[f"{APP}{kind}Request.to_bytes"] = lambda f, a, k: whole(src("b", "in", "serialised", lo=1, hi=2000))
            t["elgas.frames.Request.to_bytes"] = t["elgas.frames.EncryptedRequest.to_bytes"] = lambda f, a, k: whole(src("b", "in", "framed", lo=1, hi=2000))
            t["elgas.utils.escape_characters"] = lambda f, a, k: whole(src("b", "in", "escaped", lo=1, hi=2000))
            with stubs(t):
                o = secret_client(with_key)
                g = outcome(lambda: I.call(I.getattr_(o, name), list(args_of(names).values()), {}))
            if g[0] == "exc":
                v.undecided(f"{name} raises {exc_text(g[1])}")
                return
            if not len(requests):
                v.undecided(f"{name} sends nothing")
            for r in requests:
                shown(v, r, f"the request of {name}", where(name))
            shown(v, o, f"the client after {name}", fnwhere(get(CLIENT)))
            shown(v, attr_of(o, "elgas_connection"), f"the connection after {name}", fnwhere(get(CONN)))
        explore(body)
    for op in (*OPS, ("read_parameters", (), "ReadDeviceParameters", ("password",), None)):
        for k in (False, True):
            c.ob(f"request of {op[0]} {'with' if k else 'without'} a key", rule, lambda v, op=op, k=k: used(v, op, k), fix=())


# ------------------------------------------------------------------ C37

class Calls:
    """The transport of a client as a recorder of its calls"""

    def __init__(self, fail=None):
        self.fail, self.log = fail, Tape()

    def table(self):
        def step(name):
            def run(f, a, k):
                self.log.append((name, len(a) + len(k) - 1))
                if self.fail and self.fail[0] == name:
                    I.throw(self.fail[1], "failure of " + name)
            return run
        return {peer(n): step(n) for n in ("connect", "disconnect", "send", "recv")}


def C37(c):
    c.explain = ("A client is created with arbitrary password, ids and key and a transport that records its calls; the attributes of its connection, the "
                 "frame it produces and the calls of the transport are compared with the configuration.")

    def wired(v, secure):
        def body():
            w = where("connect")
            pw = whole(src("s", "in", "password", hi=6))
            pid = ivar("password_id", 801, 849)
            kw = dict(encryption_key=whole(src("b", "in", "key", 16, len=16)), encryption_key_id=ivar("key_id", 1, 7)) if secure else {}
            t = Calls()
            with stubs(t.table()):
                o = I.call(get(CLIENT), [], dict(transport=I.call(I.getattr_(I.LOADER.import_("spec.peer"), "Peer"), [], {}), password=pw, password_id=pid, **kw))
            if len(t.log):
                return v.fail(w, f"creating a client calls {t.log[0][0]} of its transport", certain=True)
            x = attr_of(o, "elgas_connection")
            if not isinstance(x, Inst) or x.cls is not get(CONN):
                return v.fail(w, f"a client has {_short(x)} as its connection", certain=True)
            for holder, whose in ((o, "client"), (x, "connection")):
                v.same(attr_of(holder, "password"), pw, w, f"password of the {whose}")
                v.same(attr_of(holder, "password_id"), pid, w, f"password id of the {whose}")
                for n in ("encryption_key", "encryption_key_id"):
                    v.same(attr_of(holder, n), kw.get(n), w, f"{n} of the {whose}")
        explore(body)
    for secure in (False, True):
        c.ob(f"configuration of a client {'with' if secure else 'without'} a key", "password, password id, key and key id of the client's connection are those given",
             lambda v, secure=secure: wired(v, secure), fix=())

    def addressed(v):
        def body():
            w = where("send")
            o = new_client()
            g = outcome(lambda: I.call(I.getattr_(attr_of(o, "elgas_connection"), "send"), [I.call(get(APP + "ReadTimeRequest"), [], {})], {}))
            if g[0] == "exc":
                return v.fail(w, f"sending on the connection of a new client raises {exc_text(g[1])}")
            number = I.getattr_(get(APP + "ReadTimeRequest"), "service")
            v.same(g[1], spec("escape", spec("frame", 0x84, plain(number), 0, 0, 0, 0, b"")), w, "first frame of a client")
        explore(body)
    c.ob("addresses of a client's frames", "the frame is the plain request frame with all four address parts zero, escaped", addressed, fix=())

    def given(v):
        def body():
            w = where("send")
            x = I.call(get(CONN), [], dict(destination_address_1=ivar("a", 0, 65535), destination_address_2=ivar("b", 0, 255), source_address_1=ivar("c", 0, 65535),
                                           source_address_2=ivar("d", 0, 255), password="secret", password_id=801))
            o = new_client(elgas_connection=x)
            used = Tape()
            ans = response("ReadTime")

            def note(f, a, k):
                used.append(a[0])
                return b"\x01"

            def take(f, a, k):
                used.append(a[0])

            def event(f, a, k):
                used.append(a[0])
                return ans
            with stubs({CONN + ".send": note, CONN + ".receive_data": take, CONN + ".next_event": event, peer("recv"): lambda f, a, k: b"\x02"}):
                g = outcome(lambda: I.call(I.getattr_(o, "read_time"), [], {}))
            if g[0] == "exc":
                return v.fail(w, f"a client with a given connection raises {exc_text(g[1])}")
            if not len(used) or any(u is not x for u in used):
                return v.fail(w, "a client given a connection uses another one", certain=True)
            v.ok()
        explore(body)
    c.ob("a connection given by the caller", "operations use that connection", given, fix=())

    def forwarded(v, name):
        def body():
            w = where(name)
            errs = [None, RuntimeError, OSError, get("elgas.exceptions.CommunicationError")]
            err = errs[choose(len(errs), "outcome")]
            t = Calls((name, err) if err else None)
            with stubs(t.table()):
                o = new_client()
                g = outcome(lambda: I.call(I.getattr_(o, name), [], {}))
            if list(t.log) != [(name, 0)]:
                return v.fail(w, f"{name} of a client makes the calls {', '.join(n for n, _ in t.log) or 'none'} of its transport", certain=True)
            if err and (g[0] == "ret" or g[1].cls is not err):
                return v.fail(w, f"{name} of a client " + ("hides the failure" if g[0] == "ret" else f"raises {exc_text(g[1])} for the failure") + " of its transport", certain=True)
            if not err and g[0] == "exc":
                return v.fail(w, f"{name} of a client raises {exc_text(g[1])}")
            v.ok()
        explore(body)
    for name in ("connect", "disconnect"):
        c.ob(f"{name} of the client", f"{name} of its transport is called once, nothing else; its error is raised", lambda v, name=name: forwarded(v, name), fix=())


# ------------------------------------------------------------------ C38

WIRE = {"ReadInstantaneousValues": ("instantaneous", 27), "ReadTime": ("device_time", 10), "WriteTime": ("nothing", 0), "ReadArchive": ("archives", 8),
        "ReadArchiveByTime": ("archives", 8)}
RESERVED = {0x0D: b"\x1b\x0e", 0x1B: b"\x1b\x1b", 0x8D: b"\x1b\x0f"}


def on_the_wire(frame, special=None):
    """The escaped form of a frame of single bytes; none but the known ones and the special-th is a reserved byte"""
    out = b""
    es = T.elems(frame)
    for i, e in enumerate(es[:-1]):
        if isinstance(e, int):
            out = cat(out, RESERVED.get(e) or bytes([e]))
        elif i == special:
            b = list(RESERVED)[choose(3, "reserved byte")]
            if not R.facts.assume(eq(e, b), True):
                raise Infeasible()
            out = cat(out, RESERVED[b])
        else:
            for b in RESERVED:
                if known(c_not(eq(e, b))) is not True:
                    assume(c_not(eq(e, b)))
            out = cat(out, rope("b", [("e", e)]))
    return cat(out, b"\x0d")


SUMS = {"elgas.utils.calculate_lrc": "lrc", "elgas.utils.calculate_checksum": "checksum", "elgas.utils.calculate_drc": "drc", "elgas.utils.calculate_crc": "crc16"}


def definitions():
    """The redundancy functions as their definitions, which an earlier property shows them to equal"""
    def run(ref):
        def f(f, a, k):
            with following(0):
                return spec(ref, plain(a[0] if a else list(k.values())[0]))
        return f
    return {p: run(ref) for p, ref in SUMS.items()}


def usual(names):
    """Arguments every device takes"""
    r = I.call(specfn("datetime"), [2021, 3, 14, 1, 59, 26], {})
    vals = {"device_time": r, "oldest_timestamp": r, "cryout": False, "amount": 1, "oldest_record_id": 1}
    return [I.call(get("elgas.constants.Archive"), [1], {}) if n == "archive" else vals[n] for n in names]


def single(x):
    """A text of fixed length as a rope of single bytes"""
    return rope("b", [("e", e) for e in T.elems(x)])


def C38(c):
    c.explain = ("A client with nothing replaced but the calls of its transport performs an operation; the transport delivers the frame the protocol prescribes for an arbitrary payload, "
                 "escaped by the protocol's table, in one or two pieces. The value returned is compared with the payload's documented fields, an error reply with its documented exception.")
    rule = "result == documented fields of the payload of the device's frame, whatever its addresses, content and division"

    def talk(v, op, payload, secure, special, cut, judge):
        name, names, kind, extra, content = op
        svc = dict(PAIRS)[kind]

        def body():
            w = where(name)
            t = Calls()
            kw = {}
            with stubs(definitions()):
                data = payload()
                ad = [ivar(f"address {i}", 0, 255) for i in range(6)]
                at = special
                if special is not None and special < 12 + T.length(data):
                    b = list(RESERVED)[choose(3, "reserved byte")]
                    if special < 12:
                        ad[special - 6] = b
                    else:
                        es = T.elems(data)
                        data = rope("b", [("e", b if 12 + i == special else e) for i, e in enumerate(es)])
                    at = None
                ad = [add(ad[0], mul(ad[1], 256)), ad[2], add(ad[3], mul(ad[4], 256)), ad[5]]
                if secure:
                    key, kid = whole(src("b", "in", "key", 16, len=16)), ivar("key_id", 1, 7)
                    kw = dict(encryption_key=key, encryption_key_id=kid)
                    box = I.call(get("elgas.security.CipherContext"), [], {"key_id": kid, "key": key})
                    frame = spec("frame", 0x87, svc, *ad, plain(I.call(I.getattr_(box, "encrypt"), [data], {})))
                else:
                    frame = spec("frame", 0x86, svc, *ad, data)
                es = T.elems(on_the_wire(single(frame), at))
                chunks = [rope("b", [("e", e) for e in x]) for x in (es[:cut], es[cut:]) if x]
            todo = Tape(chunks)

            def recv(f, a, k):
                if not len(todo):
                    I.throw(KeyboardInterrupt, "the operation asks for more than the device sent")
                return todo.take()
            with stubs({**t.table(), **definitions(), peer("recv"): recv}), following(400):
                o = new_client(**kw)
                g = outcome(lambda: I.call(I.getattr_(o, name), usual(names), {}))
            judge(v, w, op, g, data)
        explore(body)

    def fields(v, w, op, g, data):
        name, names, kind, extra, content = op
        ref = WIRE[kind][0]
        s = outcome(lambda: spec(ref, plain(data)))
        if s[0] == "exc":
            return v.ok() if g[0] == "exc" else v.fail(w, f"{name} returns {_short(g[1])} where the payload is refused")
        if g[0] == "exc":
            return v.fail(w, f"{name} raises {exc_text(g[1])} for a valid answer of the device")
        d = {k: x for k, x in s[1].d.values()}
        if name == "read_time":
            return v.same(g[1], d["time"], w, "time returned by read_time")
        if name == "write_time":
            return v.ok()
        if not isinstance(g[1], Inst):
            return v.fail(w, f"{name} returns {_short(g[1])}")
        for k, x in d.items():
            v.same(attr_of(g[1], k), x, w, f"{name}: field {k}")

    def text_of(kind, n):
        def build():
            if WIRE[kind][0] in ("instantaneous", "device_time"):
                return cat(spec("time_bytes", moment("device time")), single(whole(src("b", "in", "payload", n - 6, len=n - 6))))
            if WIRE[kind][0] == "archives":
                return cat(rope("b", [("e", ivar("archive number", 0, 10))]), single(whole(src("b", "in", "payload", n - 1, len=n - 1))))
            return single(whole(src("b", "in", "payload", n, len=n))) if n else b""
        return build

    for op in OPS:
        n = WIRE[op[2]][1]
        size = n + 16
        for cut in (0, 1, 7, size - 1):
            c.ob(f"{op[0]}: answer in {'one piece' if not cut else f'pieces of {cut} and {size - cut} bytes'}", rule,
                 lambda v, op=op, n=n, cut=cut: talk(v, op, text_of(op[2], n), False, None, cut, fields), fix=())
        timed = WIRE[op[2]][0] in ("instantaneous", "device_time")
        for i in range(6, size - 1):
            if i in range(12, 18) and timed or i == 12 and WIRE[op[2]][0] == "archives":
                continue            # these bytes can not be reserved ones
            c.ob(f"{op[0]}: byte {i} of the answer is reserved", rule, lambda v, op=op, n=n, i=i: talk(v, op, text_of(op[2], n), False, i, 0, fields), fix=())
        for m in (12, 126):
            if m >= n and n:
                c.ob(f"{op[0]}: answer with {m} payload bytes", rule, lambda v, op=op, m=m: talk(v, op, text_of(op[2], m), False, None, 0, fields), fix=())
        c.ob(f"{op[0]}: encrypted answer", rule, lambda v, op=op, n=n: talk(v, op, text_of(op[2], n), True, None, 0, fields), fix=())

    def error(v, w, op, g, data):
        if g[0] == "ret":
            return v.fail(w, f"{op[0]} returns {_short(g[1])} for an error reply")
        bits = [i for i, n in enumerate(ERRORS) if is_exc(g[1], n)]
        if not bits:
            return v.fail(w, f"{op[0]} raises {exc_text(g[1])} for an error reply")
        e = T.elems(data)[0]
        if not any(known(eq(bitop(e, 1 << i, "and", R.facts), 0)) is False for i in bits):
            return v.fail(w, f"{op[0]} raises {exc_name(g[1])} although its bit need not be set")
        v.ok()

    def fault():
        e = ivar("error byte", 1, 255)
        return rope("b", [("e", e)])
    for op in OPS:
        for secure in (False, True):
            c.ob(f"{op[0]}: {'encrypted ' if secure else ''}error reply", "a documented device error is raised", lambda v, op=op, secure=secure: talk(v, op, fault, secure, None, 0, error), fix=())

    def pages(v, secure):
        """Reading parameters in two pages, the parser replaced"""
        def body():
            w = where("read_parameters")
            t, got, asked = Calls(), Tape(), Tape()
            kw = {}
            if secure:
                kw = dict(encryption_key=whole(src("b", "in", "key", 16, len=16)), encryption_key_id=ivar("key_id", 1, 7))
            todo, want = Tape(), b""
            with stubs(definitions()):
                for i in range(2):
                    content = whole(src("b", "in", f"content{i}", 5, len=5))
                    data = cat(rope("b", [("e", ivar(f"number{i}", 0, 255)), ("e", 0), ("e", ivar(f"amount{i}", 0, 255)), ("e", 0), ("e", i)]), content)
                    want = cat(want, content)
                    if secure:
                        box = I.call(get("elgas.security.CipherContext"), [], {"key_id": kw["encryption_key_id"], "key": kw["encryption_key"]})
                        data = plain(I.call(I.getattr_(box, "encrypt"), [data], {}))
                    todo.append(on_the_wire(single(spec("frame", 0x87 if secure else 0x86, dict(PAIRS)["ReadDeviceParameters"], 1, 0, 0, 0, data))))

            def recv(f, a, k):
                if not len(todo):
                    I.throw(KeyboardInterrupt, "the operation asks for more than the device sent")
                return todo.take()

            def parse(f, a, k):
                got.append(plain(a[1] if len(a) > 1 else k["data"] if "data" in k else I.getattr_(a[0], "data")))
                return result
            result = Opq("any", ("parsed",))
            with stubs({**t.table(), **definitions(), peer("recv"): recv, "elgas.parser.ScadaParameterParser.parse": parse}), following(400):
                o = new_client(**kw)
                g = outcome(lambda: I.call(I.getattr_(o, "read_parameters"), [], {}))
            if g[0] == "exc":
                return v.fail(w, f"read_parameters raises {exc_text(g[1])} for valid answers of the device")
            if len(got) != 1 or g[1] is not result:
                return v.fail(w, f"{len(got)} texts are parsed; {_short(g[1])} is returned")
            v.same(got[0], want, w, "text parsed by read_parameters")
        explore(body)
    for secure in (False, True):
        c.ob(f"read_parameters: two {'encrypted ' if secure else ''}pages", "the content of both pages is parsed together", lambda v, secure=secure: pages(v, secure), fix=())
