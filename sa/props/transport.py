"""The transports: failures, handles, the receive loop, link parameters."""
from ..harness import *
from ..harness import _short
from .. import textops as T, ext as E
from ..objects import *

MOD = "elgas.transport"


class Kind:
    """One transport class and the outside operations it may use"""

    def __init__(self, cls, args, exprs):
        self.name, self.cls, self.args, self.exprs = cls, f"{MOD}.{cls}", args, exprs

    def where(self, m):
        return fnwhere(get(f"{self.cls}.{m}"))

    def new(self, **kw):
        d = dict(self.args())
        d.update(kw)
        return used(I.call(get(self.cls), [], d), communicated)


def communicated(o):
    """A connection of a transport, used and closed without a failure"""
    begin = len(R.effects)
    paths = [("socket.socket", "recv"), ("serial.Serial", "read")]
    ops, ext = {p: E.OPS[p] for p in paths}, {n: E.EXT["time." + n] for n in CLOCKS}
    for p in paths:
        E.OPS[p] = lambda h, args, kw: b"\x0d"
    for n in CLOCKS:
        E.EXT["time." + n] = Builtin("time." + n, lambda: L(atom("in", "clock", "earlier")))
    try:
        for name, args in (("connect", ()), ("send", (b"\x02\x0d",)), ("recv", ()), ("disconnect", ())):
            if outcome(lambda: I.call(I.getattr_(o, name), list(args), {}))[0] == "exc" or failing(begin):
                raise Infeasible()
    finally:
        E.OPS.update(ops)
        for n, x in ext.items():
            E.EXT["time." + n] = x


KINDS = (
    Kind("BlockingTcpTransport", lambda: dict(host=whole(src("s", "in", "host", lo=1)), port=ivar("port", 1, 65535), timeout=ivar("timeout", 0)), ()),
    Kind("SerialTransport", lambda: dict(port=whole(src("s", "in", "port", lo=1)), baud_rate=ivar("baud_rate", 1), timeout=ivar("timeout", 0)), ()),
)


def outside(since=0):
    """Outside operations of this trace"""
    return [e for e in R.effects[since:] if e.kind == "ext"]


def ran(e):
    return e.data[4] if len(e.data) > 4 else "ok"


def failing(since=0):
    return [e for e in outside(since) if ran(e) not in ("ok", "data")]


def handles():
    """Every handle opened on this trace, in order"""
    out = []
    for e in outside():
        r = e.data[5] if len(e.data) > 5 else None
        if ran(e) == "ok" and isinstance(r, ExtObj) and r.path in E.SOCK and not any(r is x for x in out):
            out.append(r)
    return out


def released(h):
    """A close of this handle was issued"""
    return any(e.data[1] is h and e.data[0].rsplit(".", 1)[1] in ("close", "detach") for e in outside())


def do(o, name, *args):
    n = len(R.effects)
    g = outcome(lambda: I.call(I.getattr_(o, name), list(args), {}))
    return g, n


def connected(kind):
    """A transport after a successful connect"""
    o = kind.new()
    g, n = do(o, "connect")
    if g[0] == "exc":
        raise Infeasible()
    return o


def text(e):
    return f"{e.data[0]} failing with {ran(e)}" if ran(e) != "empty" else f"{e.data[0]} delivering nothing"


def judged(v, kind, name, g, n):
    """The rule for one call: an outside failure surfaces as the library's error, otherwise the call succeeds"""
    w, bad = kind.where(name), failing(n)
    if bad and g[0] == "ret":
        return v.fail(w, f"{text(bad[0])} does not surface from {name}", certain=True)
    if g[0] == "exc" and not is_exc(g[1], "CommunicationError"):
        return v.fail(w, (f"{text(bad[0])} escapes from {name} as " if bad else f"{name} raises ") + exc_text(g[1]), certain=True)
    if g[0] == "exc" and not bad:
        return v.fail(w, f"{name} raises {exc_text(g[1])} although nothing failed")
    return True


def unused(v, kind, o, when):
    """The transport behaves as one that is not connected"""
    for name, args in (("send", [whole(src("b", "in", "data"))]), ("recv", []), ("disconnect", [])):
        w = kind.where(name)
        g, n = do(o, name, *args)
        if outside(n):
            return v.fail(w, f"{name} {when} uses {outside(n)[0].data[0]}", certain=True)
        if name == "disconnect":
            if g[0] == "exc":
                return v.fail(w, f"disconnect {when} raises {exc_text(g[1])}", certain=True)
        elif g[0] == "ret" or not is_exc(g[1], "RuntimeError") or is_exc(g[1], "ElgasError"):
            return v.fail(w, f"{name} {when} " + ("returns" if g[0] == "ret" else f"raises {exc_text(g[1])}") + " instead of raising RuntimeError", certain=True)
    return True


def usable(v, kind, o, when):
    """A new connect opens a new handle"""
    n = len(handles())
    g, k = do(o, "connect")
    if g[0] == "ret":
        return True if len(handles()) == n + 1 else v.fail(kind.where("connect"), f"connect {when} opens no handle", certain=True)
    if failing(k) and is_exc(g[1], "CommunicationError"):
        return True
    return v.fail(kind.where("connect"), f"connect {when} raises {exc_text(g[1])}", certain=True)


# ------------------------------------------------------------------ C22

def C22(c):
    c.explain = ("Every outside operation (opening, sending, reading, shutting down, closing) either succeeds, delivers nothing or raises each class of error; "
                 "all combinations along every path of connect, send, recv and disconnect are followed and the resulting exception, the handles closed and the "
                 "behaviour afterwards are compared with the specification.")

    def fresh(v, kind):
        def body():
            o = kind.new()
            if outside():
                return v.fail(kind.where("connect"), f"creating the transport uses {outside()[0].data[0]}", certain=True)
            if unused(v, kind, o, "on a new transport") and usable(v, kind, o, "on a new transport"):
                v.ok()
        explore(body)

    def connect(v, kind):
        def body():
            o = kind.new()
            g, n = do(o, "connect")
            if not judged(v, kind, "connect", g, n):
                return
            if g[0] == "ret":
                if len(handles()) - sum(map(released, handles())) != 1:
                    return v.fail(kind.where("connect"), f"a successful connect leaves {len(handles()) - sum(map(released, handles()))} open handles", certain=True)
                return v.ok()
            for h in handles():
                if not released(h):
                    return v.fail(kind.where("connect"), f"the handle is not closed after {text(failing(n)[0])}", certain=True)
            if unused(v, kind, o, "after a failed connect") and usable(v, kind, o, "after a failed connect"):
                v.ok()
        explore(body)

    def twice(v, kind):
        def body():
            o = connected(kind)
            w, n = kind.where("connect"), len(R.effects)
            had = handles()
            g, n = do(o, "connect")
            if outside(n):
                return v.fail(w, f"a second connect uses {outside(n)[0].data[0]}", certain=True)
            if g[0] == "ret" or not is_exc(g[1], "RuntimeError"):
                return v.fail(w, "a second connect " + ("returns" if g[0] == "ret" else f"raises {exc_text(g[1])}") + " instead of raising RuntimeError", certain=True)
            do(o, "disconnect")
            if not all(map(released, had)):
                return v.fail(w, "after a second connect the first handle is not closed any more", certain=True)
            v.ok()
        explore(body)

    def using(v, kind, name):
        def body():
            o = connected(kind)
            args = [whole(src("b", "in", "data"))] if name == "send" else []
            g, n = do(o, name, *args)
            if judged(v, kind, name, g, n):
                v.ok()
        explore(body)

    def following_up(v, kind, name):
        """A disconnect after a use that worked or failed"""
        def body():
            o = connected(kind)
            with following(1):
                try:
                    do(o, name, *([whole(src("b", "in", "data"))] if name == "send" else []))
                except Gap:
                    raise Infeasible()          # longer frames end in the same ways
            after(v, kind, o, f"after {name}")
        explore(body)

    def after(v, kind, o, when):
        w = kind.where("disconnect")
        g, n = do(o, "disconnect")
        if not judged(v, kind, "disconnect", g, n):
            return
        for h in handles():
            if not released(h):
                return v.fail(w, f"the handle is not closed by disconnect {when}" + (f" with {text(failing(n)[0])}" if failing(n) else ""), certain=True)
        for f in (unused, usable):
            if not f(v, kind, o, "after disconnect" + (f" with {text(failing(n)[0])}" if failing(n) else "")):
                return
        v.ok()

    def disconnect(v, kind):
        explore(lambda: after(v, kind, connected(kind), "of a connected transport"))

    def again(v, kind):
        """connect, disconnect, connect, disconnect"""
        def body():
            o = connected(kind)
            do(o, "disconnect")
            g, n = do(o, "connect")
            if g[0] == "exc":
                raise Infeasible()
            after(v, kind, o, "of a transport connected again")
        explore(body)
    for k in KINDS:
        n = k.name
        c.ob(f"{n}: new transport", "send and recv raise RuntimeError, disconnect does nothing, connect opens a handle", lambda v, k=k: fresh(v, k), fix=())
        c.ob(f"{n}: connect", "an outside failure raises CommunicationError, leaves no open handle and a disconnected transport", lambda v, k=k: connect(v, k), fix=())
        c.ob(f"{n}: connect twice", "RuntimeError without touching the open handle", lambda v, k=k: twice(v, k), fix=())
        for m in ("send", "recv"):
            c.ob(f"{n}: {m}", "an outside failure raises CommunicationError and nothing else; no error without a failure", lambda v, k=k, m=m: using(v, k, m), fix=())
            c.ob(f"{n}: disconnect after {m}", "the handle is closed and the transport disconnected whatever fails", lambda v, k=k, m=m: following_up(v, k, m), fix=())
        c.ob(f"{n}: disconnect", "the handle is closed and the transport disconnected whatever fails; failures raise CommunicationError", lambda v, k=k: disconnect(v, k), fix=())
        c.ob(f"{n}: connect again", "a transport used before behaves as a new one", lambda v, k=k: again(v, k), fix=())


# ------------------------------------------------------------------ C23

CLOCKS = ("monotonic", "time", "perf_counter", "monotonic_ns", "time_ns")


class ticks:
    """The clock gives integers that never run backwards"""

    def __init__(self, still=False):
        self.still = still

    def __enter__(self):
        self.old = {n: E.EXT["time." + n] for n in CLOCKS}
        origin = L(atom("in", "clock", "origin"))
        now, begun = Number(origin), Tape()

        def read(name):
            if self.still:
                I.effect("clock", name, origin)
                return origin
            t = add(now.get(), L(atom("in", "clock", E.counter("clock"), lo=0))) if len(begun) else origin
            if not len(begun):
                begun.append(1)
            if not R.facts.assume(ge(t, origin), True):
                raise Infeasible()
            now.set(t)
            I.effect("clock", name, t)
            return t
        for n in CLOCKS:
            E.EXT["time." + n] = Builtin("time." + n, lambda n=n: read(n))
        return self

    def __exit__(self, *a):
        E.EXT.update(self.old)


def reads(effects):
    """(texts read, position of the first empty read or failure or None)"""
    out = []
    for e in effects:
        if e.kind == "ext" and ran(e) == "data":
            out.append(e.data[5])
    return out


def clocks(effects):
    return [e.data[1] for e in effects if e.kind == "clock" and len(e.data) > 1]


def over(effects, before, timeout):
    """Does a clock reading on this trace show that the timeout has expired?"""
    if decide(eq(timeout, 0)):
        return True
    t = before + clocks(effects)
    if not t:
        return False
    cs = [ge(x, add(t[0], timeout)) for x in t[1:]]
    return any(known(x) is True for x in cs) or any(decide(x) for x in reversed(cs))


def C23(c):
    c.explain = ("The link is a source of arbitrary bytes, empty reads and errors. The receive loop is followed exactly for frames up to a bound and, for any "
                 "length, through the summary of one arbitrary iteration: what a continuing iteration appends is what it read, that is not the terminator, and "
                 "leaving iterations end with the terminator or an expired timeout.")
    rule = "the result is all bytes read in order, its only 0x0D is the last one; without it only after the configured timeout; no data raises CommunicationError at once"
    big = 150 if os.environ.get("VERIF_TIER") == "thorough" else 60

    def exact(v, kind, n, timeout, earlier=False):
        def body():
            w = kind.where("recv")
            with ticks():
                o = connected_with(kind, timeout)
                if earlier:
                    with following(2):
                        try:
                            do(o, "recv")
                        except Gap:
                            raise Infeasible()
                at = len(R.effects)
                with following(n):
                    try:
                        g, _ = do(o, "recv")
                    except Gap as x:
                        if "does not end within" in str(x):
                            return v.ok()       # longer than the bound
                        raise
                eff = R.effects[at:]
                verdict(v, kind, w, g, eff, reads(eff), timeout)
        explore(body)

    def connected_with(kind, timeout):
        o = kind.new(timeout=timeout)
        g, n = do(o, "connect")
        if g[0] == "exc":
            raise Infeasible()
        return o

    def verdict(v, kind, w, g, eff, data, timeout):
        lost = [e for e in eff if e.kind == "ext" and e.data[0].rsplit(".", 1)[1] in ("reset_input_buffer", "flushInput")]
        if lost:
            return v.fail(w, f"{lost[0].data[0]} discards received bytes", certain=True)
        ops = [e for e in eff if e.kind == "ext" and e.data[0].rsplit(".", 1)[1] in ("recv", "read", "recv_into", "read_until", "readline")]
        for i, e in enumerate(ops):
            if ran(e) == "empty" and i + 1 < len(ops):
                return v.fail(w, "the link is read again after it delivered no data", certain=True)
        got = cat(*data) if data else b""
        for x in segs(got):
            if x[0] == "e":
                decide(eq(x[1], 13))
        es = T.elems(got) if all(x[0] == "e" for x in segs(got)) else None
        if es is None:
            for d in data:
                if not all(x[0] == "e" for x in segs(d)) and R.facts.assume(ge(T.length(d), 2), True) and decide(eq(T.at(d, 0), 13)):
                    return v.fail(w, "a read may take bytes beyond the terminator")
            return v.undecided("the link is read in pieces of unknown length")
        ends = [i for i, x in enumerate(es) if known(eq(x, 13)) is True]
        if ends and ends[0] < len(es) - 1:
            return v.fail(w, f"{len(es) - 1 - ends[0]} bytes are read beyond the terminator")
        if ops and ran(ops[-1]) == "empty":
            if g[0] == "exc" and is_exc(g[1], "CommunicationError"):
                return v.ok()
            return v.fail(w, "a link that delivers no data makes recv " + ("return" if g[0] == "ret" else f"raise {exc_text(g[1])}"), certain=True)
        if g[0] == "exc":
            if failing_in(eff):
                return v.ok()
            return v.fail(w, f"recv raises {exc_text(g[1])} although data was delivered")
        v.same(g[1], got, w, "bytes received")
        if not ends and timeout is not None and not over(eff, [], timeout):
            return v.fail(w, f"recv returns {len(es)} bytes without the terminator although the timeout has not expired")
        if not ends and timeout is None:
            return v.fail(w, f"recv returns {len(es)} bytes without the terminator although there is no timeout")
        v.ok()

    def failing_in(eff):
        return [e for e in eff if e.kind == "ext" and ran(e) not in ("ok", "data")]

    def general(v, kind, timeout):
        """Any length, through the summary of the loop"""
        def body():
            w = kind.where("recv")
            with ticks():
                o = connected_with(kind, timeout)
                at = len(R.effects)
                g, _ = do(o, "recv")
            eff = R.effects[at:]
            recs = [(i, e.data[0]) for i, e in enumerate(eff) if e.kind == "loop"]
            if not recs:
                return verdict(v, kind, w, g, eff, reads(eff), timeout)
            recs = [(i, r) for i, r in recs if any(e.kind == "ext" for p in r.nexts + r.exits for e in p.effects)]
            if len(recs) != 1:
                return v.undecided("the link is read by several loops")
            at, rec = recs[0]
            before, tail = eff[:at], eff[at:]
            lead = reads(before)
            lead = cat(*lead) if lead else b""
            S = rec.summary
            # one arbitrary iteration that continues: what it appends is what it read, which is not the terminator
            acc = None
            for key, cell in rec.cells.items():
                if cell.kind == "acc" and cell.entry is not None and starts(cell.entry, lead):
                    good = all(appended(S, cell, key, p, cat(*reads(p.effects)) if reads(p.effects) else b"") for p in rec.nexts)
                    if good:
                        acc = cell
            if acc is None:
                return v.undecided("no text collects what the continuing iterations read")
            if any(ran(e) == "empty" for p in rec.nexts for e in p.effects if e.kind == "ext"):
                return v.undecided("the loop continues after the link delivered no data")
            last = reads(tail)
            end = cat(*last) if last else b""
            ops = [e for e in tail if e.kind == "ext"]
            if ops and ran(ops[-1]) == "empty" or failing_in(tail):
                if g[0] == "exc" and is_exc(g[1], "CommunicationError"):
                    return v.ok()
                return v.undecided(f"{text(failing_in(tail)[0])} makes recv " + ("return" if g[0] == "ret" else f"raise {exc_text(g[1])}"))
            if g[0] == "exc":
                return v.undecided(f"recv raises {exc_text(g[1])} although data was delivered")
            # the accumulated text is the accumulator's source
            parts = segs(plain(g[1]))
            head = [x for x in parts if x[0] == "s" and x[1].op == "acc" and x[1].args[0] and x[1].args[0][0] == rec.rid[0]]
            if len(head) != 1 or not full(head[0]):
                return v.undecided(f"the result {_short(g[1])} is not shown to contain the bytes read before")
            s = head[0][1]
            v.same(g[1], cat(lead, whole(s), end), w, "bytes received")
            for x in segs(lead):
                if x[0] != "e":
                    return v.undecided("the link is read in pieces of unknown length")
                if decide(eq(x[1], 13)):
                    return v.undecided("bytes are read beyond the terminator")
            es = [x[1] for x in segs(end) if x[0] == "e"]
            if len(es) != len(segs(end)):
                return v.undecided("the last piece read has an unknown length")
            for x in es:
                decide(eq(x, 13))
            if not (s.mask or 0) >> 13 & 1:
                return v.undecided("earlier iterations may have read the terminator")
            ends = [i for i, x in enumerate(es) if known(eq(x, 13)) is True]
            if ends and ends[0] < len(es) - 1:
                return v.undecided("bytes are read beyond the terminator")
            if not ends and (timeout is None or not over(tail, clocks(before), timeout)):
                return v.undecided("recv returns without the terminator although the timeout has not expired")
            v.ok()
        explore(body)

    def deep(v, kind, n, timeout):
        """A link that delivers n bytes without a terminator, then the terminator, in no time: one exact trace"""
        def body():
            w = kind.where("recv")
            o = connected_with(kind, timeout)
            path = {"socket.socket": ("socket.socket", "recv"), "serial.Serial": ("serial.Serial", "read")}[handles()[0].path]
            count, seen = Tape([0]), {}

            def deliver(h, args, kw):
                k = count.get()
                want = args[0] if args else kw.get("size", 1)
                if not isinstance(want, int) or want < 1:
                    raise Gap("a read of unknown size")
                m = min(want, n + 1 - k) or 1
                xs = [13 if k + i >= n else L(atom("in", "link", k + i, lo=0, hi=255)) for i in range(m)]
                for x in xs:
                    if not isinstance(x, int) and not R.facts.assume(eq(x, 13), False):
                        raise Infeasible()
                count.set(k + m)
                d = rope("b", [("e", x) for x in xs])
                I.effect("ext", ".".join(path), h, tuple(args), (), "data", d)
                return d
            at = len(R.effects)
            with ticks(still=True), following(n + 3):
                old = E.OPS[path]
                E.OPS[path] = deliver
                try:
                    g, _ = do(o, "recv")
                finally:
                    E.OPS[path] = old
            data = reads(R.effects[at:])
            if g[0] == "exc":
                return v.fail(w, f"recv raises {exc_text(g[1])} although data was delivered", certain=True)
            if count.get() <= n:
                return v.fail(w, f"recv returns after {count.get()} bytes without the terminator although the timeout has not expired", certain=True)
            if count.get() > n + 1:
                return v.fail(w, "bytes are read beyond the terminator", certain=True)
            v.same(g[1], cat(*data), w, "bytes received")
        explore(body)

    def full(x):
        return x[2] == 0 and x[3] == x[1].len

    def starts(x, lead):
        x = x[1] if isinstance(x, tuple) and x and x[0] == "barr" else x
        try:
            return is_str(x) and M.equal(x, lead) is True
        except Gap:
            return False

    def appended(S, cell, key, p, want):
        got = None
        if key in p.cap:
            val = p.cap[key][3]
            base = cell.head[1] if cell.box else cell.head
            got = loops.strip_prefix(val[1] if cell.box else val, base)
        else:
            got = b""
        if got is None:
            return False
        base = R.facts
        R.facts = p.facts
        try:
            return M.equal(got, want) is True
        except Gap:
            return False
        finally:
            R.facts = base
    far = 20000 if os.environ.get("VERIF_TIER") == "thorough" else 2000
    for k in KINDS:
        c.ob(f"{k.name}: {far} bytes delivered at once", rule, lambda v, k=k: deep(v, k, far, ivar("seconds of time", 1)), fix=())
        for label, mk in (("any timeout", lambda: ivar("timeout", 0)), ("no timeout", lambda: None)):
            c.ob(f"{k.name}: frames of any length, {label}", rule, lambda v, k=k, mk=mk: general(v, k, mk()), fix=())
            c.ob(f"{k.name}: up to 6 bytes after an earlier receive, {label}", rule, lambda v, k=k, mk=mk: exact(v, k, 6, mk(), True), fix=())
            c.ob(f"{k.name}: up to {big} bytes, {label}", rule, lambda v, k=k, mk=mk: exact(v, k, big, mk()), fix=())


# ------------------------------------------------------------------ C32

POSITIONAL = {"serial.Serial": ("port", "baudrate", "bytesize", "parity", "stopbits", "timeout"), "socket.create_connection": ("address", "timeout")}


def C32(c):
    c.explain = ("Opening calls are recorded with their arguments and compared with the configuration; the bytes handed to the link by send are compared with "
                 "the argument as terms, a partially accepting write counting only what it accepted.")

    def opened(n=0):
        """Parameters in effect on the last handle opened"""
        out = {}
        for e in outside(n):
            op, h, args, kw = e.data[0], e.data[1], e.data[2], dict(e.data[3])
            names = POSITIONAL.get(op, ())
            kw.update(zip(names, args))
            if op == "socket.create_connection":
                out.update(address=kw.get("address"), timeout=kw.get("timeout"))
            elif op == "serial.Serial":
                out.update(port=kw.get("port"), baudrate=kw.get("baudrate", 9600), timeout=kw.get("timeout"))
            elif op == "socket.socket":
                out.update(timeout=None)
            elif op in ("socket.connect",):
                out.update(address=args[0])
            elif op == "socket.settimeout":
                out.update(timeout=args[0])
            elif op == "socket.setblocking":
                out.update(timeout=None if args[0] is True else 0)
        for e in R.effects[n:]:
            if e.kind == "extset" and len(e.data) >= 3 and e.data[1] in ("port", "baudrate", "timeout"):
                out[e.data[1]] = e.data[2]
        return out

    def link(v, kind, how):
        def body():
            d = kind.args()
            if how == "default timeout":
                d.pop("timeout")
                want = 10
            elif how == "no timeout":
                d["timeout"] = want = None
            else:
                want = d["timeout"] = ivar("seconds", 0)
            o = I.call(get(kind.cls), [], d)
            n = len(R.effects)
            g, _ = do(o, "connect")
            if g[0] == "exc":
                return v.ok()
            w, got = kind.where("connect"), opened(n)
            if kind.name == "SerialTransport":
                v.same(got.get("port"), d["port"], w, "serial port opened")
                v.same(got.get("baudrate"), d["baud_rate"], w, "baud rate of the serial port")
            else:
                v.same(got.get("address"), (d["host"], d["port"]), w, "address the socket connects to")
            v.same(got.get("timeout"), want, w, "timeout of the link")
        explore(body)

    def send(v, kind, twice):
        def body():
            o = connected(kind)
            n = len(R.effects)
            want = [inp("b", f"data{i + 1}") for i in range(2 if twice else 1)]
            w = kind.where("send")
            for x in want:
                if do(o, "send", x)[0][0] == "exc":
                    return v.ok()
            out = []
            for e in R.effects[n:]:
                if e.kind == "loop" and any(x.kind == "ext" for p in e.data[0].nexts for x in p.effects):
                    return v.undecided("data is sent in a loop")
                if e.kind != "ext":
                    continue
                op = e.data[0]
                if op in ("socket.sendall", "serial.write"):
                    out.append(plain(e.data[2][0]))
                elif op == "socket.send":
                    out.append(T.slice_(plain(e.data[2][0]), 0, e.data[5]))
                elif op.rsplit(".", 1)[1] in ("sendto", "sendmsg", "sendfile", "writelines"):
                    return v.undecided(f"data is sent with {op}")
            v.same(cat(*out) if out else b"", cat(*want), w, "bytes handed to the link")
        explore(body)
    for k in KINDS:
        for how in ("given timeout", "default timeout", "no timeout"):
            c.ob(f"{k.name}: link opened, {how}", "the configured host and port or serial port and baud rate, with the configured timeout (10 seconds unless given)", lambda v, k=k, how=how: link(v, k, how), fix=())
        for twice in (False, True):
            c.ob(f"{k.name}: {'two sends' if twice else 'send'}", "all bytes of the argument, once, in order, unmodified", lambda v, k=k, t=twice: send(v, k, t), fix=(0, 1, 2, 3))


# ------------------------------------------------------------------ C33

class jump(ticks):
    """A clock that stands still until the link has been read k times and then is past the deadline for good. With creep, it has already moved on, by less than
    the timeout, when the first of those reads ends, and is just past the deadline after the last: a deadline set anew in between is still ahead"""

    def __init__(self, k, timeout, count, creep=False):
        self.k, self.timeout, self.count, self.creep = k, timeout, count, creep

    def __enter__(self):
        self.old = {n: E.EXT["time." + n] for n in CLOCKS}
        origin = L(atom("in", "clock", "origin"))
        passed = L(atom("in", "clock", "passed", lo=2))

        def read(name):
            n = self.count.get()
            if n >= self.k:
                t = add(add(origin, self.timeout), 1 if self.creep else L(atom("in", "clock", E.counter("late"), lo=1)))
            else:
                t = add(origin, passed) if self.creep and n else origin
            I.effect("clock", name, t)
            return t
        for n in CLOCKS:
            if n.endswith("_ns"):
                E.EXT["time." + n] = Builtin("time." + n, lambda: (_ for _ in ()).throw(Gap("a clock of nanoseconds")))
            else:
                E.EXT["time." + n] = Builtin("time." + n, lambda n=n: read(n))
        return self


READS = ("recv", "read", "recv_into", "read_until", "readline")


def C33(c):
    c.explain = ("The link keeps delivering bytes other than the terminator, one per read, and the clock passes the deadline after the k-th of them; the receive must end without another "
                 "read. For any k the summary of one arbitrary iteration is used: an iteration that continues has read the clock since the link and found the deadline not reached.")
    rule = "no read of the link begins once the configured time has passed since the receive was called"
    most = 40 if os.environ.get("VERIF_TIER") == "thorough" else 12

    def trickle(v, kind, k, timeout, creep=False):
        def body():
            w = kind.where("recv")
            if creep and not R.facts.assume(ge(timeout, add(L(atom("in", "clock", "passed", lo=2)), 1)), True):
                raise Infeasible()
            o = kind.new(timeout=timeout)
            if do(o, "connect")[0][0] == "exc":
                raise Infeasible()
            count = Number(0)
            path = {"socket.socket": ("socket.socket", "recv"), "serial.Serial": ("serial.Serial", "read")}[handles()[0].path]

            def deliver(h, args, kw):
                n = count.get() + 1
                count.set(n)
                if n > k:
                    raise Late()
                x = L(atom("in", "link", n, lo=0, hi=255))
                if not R.facts.assume(eq(x, 13), False):
                    raise Infeasible()
                d = rope("b", [("e", x)])
                I.effect("ext", ".".join(path), h, tuple(args), (), "data", d)
                return d
            late = False
            with jump(k, timeout, count, creep), following(k + 3):
                old = E.OPS[path]
                E.OPS[path] = deliver
                try:
                    do(o, "recv")
                except Late:
                    late = True
                finally:
                    E.OPS[path] = old
            if late:
                return v.fail(w, f"the link is read again after {k} bytes although the configured time has passed", certain=True)
            if count.get() < k:
                return v.ok()       # ended before: the concern of the property on the terminator
            v.ok()
        explore(body)

    def general(v, kind, timeout):
        def body():
            w = kind.where("recv")
            with ticks():
                o = kind.new(timeout=timeout)
                if do(o, "connect")[0][0] == "exc":
                    raise Infeasible()
                at = len(R.effects)
                do(o, "recv")
            eff = R.effects[at:]
            recs = [(i, e.data[0]) for i, e in enumerate(eff) if e.kind == "loop" and any(x.kind == "ext" for p in e.data[0].nexts + e.data[0].exits for x in p.effects)]
            if not recs:
                return v.ok()           # left before a second read
            if len(recs) != 1:
                return v.undecided("the link is read by several loops")
            i, rec = recs[0]
            first = clocks(eff[:i])
            if not first:
                return v.undecided("the clock is not read before the loop")
            for p in rec.nexts:
                last = max([j for j, e in enumerate(p.effects) if e.kind == "ext"], default=None)
                if last is None:
                    continue
                ts = clocks(p.effects[last:])
                base = R.facts
                R.facts = p.facts
                try:
                    if not any(known(ge(t, add(first[0], timeout))) is False for t in ts):
                        return v.undecided("an iteration may continue without having found the deadline ahead")
                finally:
                    R.facts = base
            v.ok()
        explore(body)

    class Late(BaseException):
        pass
    for k in KINDS:
        for n in range(1, most + 1):
            c.ob(f"{k.name}: deadline passes after {n} bytes", rule, lambda v, k=k, n=n: trickle(v, k, n, ivar("timeout", 0)), fix=())
            if n > 1:
                c.ob(f"{k.name}: deadline passes after {n} bytes that arrive over time", rule, lambda v, k=k, n=n: trickle(v, k, n, ivar("timeout", 0), True), fix=())
        c.ob(f"{k.name}: deadline passes after any number of bytes", rule, lambda v, k=k: general(v, k, ivar("timeout", 0)), fix=())
