"""The connection: encryption, state machine, receive path, construction."""
import builtins
from ..harness import *
from ..harness import _short
from .. import textops as T

CONN = "elgas.connection.ElgasConnection"
STATE = "elgas.state.ElgasState"
APP = "elgas.application."
PAIRS = (("ReadInstantaneousValues", 0x64), ("ReadTime", 0x6C), ("ReadDeviceParameters", 0x70), ("ReadArchiveByTime", 0x7D),
         ("ReadArchive", 0x7C), ("WriteTime", 0x71))
ADDR = ("destination_address_1", "destination_address_2", "source_address_1", "source_address_2")
ERRORS = ("WrongPasswordError", "SettingArchiveFull", "SwitchOff", "BlockedBuffer", "DataError", "CipherKeyError",
          "WrongEncryptionKeysError", "WriteError")
NO_END = 1 << 0x0D          # bytes that never occur
UNESC = "elgas.utils.return_characters"
FACTORY = "elgas.frames.ResponseFactory.from_bytes"
RAISED = ("ValueError", "OverflowError", "TypeError", "AttributeError", "KeyError", "UnicodeEncodeError")


def request_cls(n):
    return get(APP + n + "Request")


def response_cls(n):
    return get(APP + n + "Response")


def make(cls, tag="", **kw):
    """An instance with arbitrary field values"""
    vals = {}
    for f in cls.fields or ():
        if f.init:
            vals[f.alias] = kw[f.name] if f.name in kw else VALUES[f.name] if f.name in VALUES else Opq("any", (cls.name, f.name, tag))
    return I.call(cls, [], vals)


VALUES = {"password": "secret", "object_count": 0, "buffer_length": 1024, "amount": 1, "oldest_record_id": 1, "cryout": False}


def through(f, a, k):
    """The function itself"""
    return I.run_func(f, I.bind_args(f, a, k))


def instance_of_error(names):
    return [getattr(builtins, n) for n in names]


def connection(v=None, **kw):
    a = dict(zip(ADDR, (1, 0, 0, 0)), password="secret", password_id=801)
    a.update(kw)
    return used(I.call(get(CONN), [], a), exchanged)


ANSWER = bytes.fromhex("103312300506") + b"\0\0\0"


def exchanged(o):
    """An earlier exchange on a connection"""
    kind = choose(3, "earlier exchange: answered, refused by the device, answer lost in noise")
    payload = (ANSWER, b"\x10", ANSWER)[kind]
    ctx = I.getattr_(o, "cipher_context")
    if isinstance(ctx, Inst) and "CipherContext" not in HISTORY_OF:
        box = b"\x31" * 16
        with stubs({"elgas.security.CipherContext.encrypt": lambda f, a, k: box,
                    "elgas.security.CipherContext.decrypt": lambda f, a, k: payload}):
            return exchange(o, kind, box, True)
    if isinstance(ctx, Inst):
        return exchange(o, kind, None, True)
    exchange(o, kind, payload, False)


def exchange(o, kind, payload, enc):
    I.call(I.getattr_(o, "send"), [I.call(request_cls("ReadTime"), [], {})], {})
    if payload is None:
        payload = I.call(I.getattr_(I.getattr_(o, "cipher_context"), "encrypt"), [(ANSWER, b"\x10", ANSWER)[kind]], {})
    f = spec("frame", 0x87 if enc else 0x86, 0x6C, 0, 0, 1, 0, payload)
    f = I.call(get("elgas.utils.escape_characters"), [f], {})
    if kind == 2:
        I.call(I.getattr_(o, "receive_data"), [b"\x02\x86\x0d"], {})
        outcome(lambda: I.call(I.getattr_(o, "next_event"), [], {}))
    I.call(I.getattr_(o, "receive_data"), [f], {})
    outcome(lambda: I.call(I.getattr_(o, "next_event"), [], {}))
    if state_of(o) is not get("elgas.state.IDLE") or known(eq(T.length(buffer_of(o)), 0)) is not True:
        raise Infeasible()


def call(o, name, *a):
    return outcome(lambda: I.call(I.getattr_(o, name), list(a), {}))


def attr_of(o, path):
    try:
        for p in path.split("."):
            o = I.getattr_(o, p)
        return o
    except PyRaise:
        raise Anchor(f"attribute {path} of a connection does not exist")


def state_of(o):
    return attr_of(o, "elgas_state.current_state")


def buffer_of(o):
    return plain(attr_of(o, "buffer"))


def need_data():
    return get("elgas.state.NEED_DATA")


def where(name):
    return fnwhere(get(f"{CONN}.{name}"))


class Requests:
    """Serialisation of the requests replaced by an arbitrary payload per class (or an error)"""

    def __init__(self, payload):
        self.payload = payload

    def table(self):
        t = {}
        for n, s in PAIRS:
            t[f"{APP}{n}Request.to_bytes"] = lambda f, a, k, n=n: self.payload(n)
        return t


def short_requests():
    return Requests(lambda n: b"\x01\x02\x03\x04").table()


# ------------------------------------------------------------------ C08

def C08(c):
    c.explain = ("Sending is evaluated on an arbitrary serialised request, arbitrary addresses, key and key id; the cipher is an uninterpreted "
                 "function of the key id and key of the context it is applied in. The bytes sent are compared with the escaped specified frame. "
                 "Receiving is evaluated with an encrypted frame of arbitrary payload.")
    rule = "the bytes sent are the escaped plain frame of the payload without a key, and the escaped encrypted frame of the encryption of the payload with one"

    def key_of():
        return inp("b", "key", lo=1)

    def cipher(seen):
        def enc(f, a, k):
            o, d = a[0], (a[1] if len(a) > 1 else list(k.values())[0])
            seen.append((I.getattr_(o, "key_id"), I.getattr_(o, "key"), plain(d)))
            return whole(src("b", "in", "encryption", hi=60000))
        return enc

    def plain_frame(v, name, service, kid):
        def body():
            p = whole(src("b", "in", "payload", hi=60000))
            ad = [ivar(a, 0, 65535 if a.endswith("1") else 255) for a in ADDR]
            seen = Tape()
            with stubs(dict(Requests(lambda n: p).table(), **{"elgas.security.CipherContext.encrypt": cipher(seen)})):
                o = connection(**dict(zip(ADDR, ad)), **kid)
                g = call(o, "send", make(request_cls(name)))
            w = where("send")
            if g[0] == "exc":
                return v.fail(w, f"send({name}Request) raises {exc_text(g[1])}")
            if kid.get("encryption_key") is not None:
                if len(seen) != 1:
                    return v.fail(w, f"a key is set and the request was encrypted {len(seen)} times", certain=True)
                i, key, d = seen[0]
                v.same(d, p, w, "text that is encrypted")
                v.same(i, kid["encryption_key_id"], w, "key id of the encryption")
                v.same(key, kid["encryption_key"], w, "key of the encryption")
                want = spec("frame", 0x85, service, *ad, whole(src("b", "in", "encryption", hi=60000)))
            else:
                if len(seen):
                    return v.fail(w, "no key is set and the request is encrypted", certain=True)
                want = spec("frame", 0x84, service, *ad, p)
            v.same(g[1], spec("escape", want), w, f"bytes sent for {name}Request")
        explore(body)

    for name, service in PAIRS:
        c.ob(f"plain {name}Request", rule, lambda v, n=name, s=service: plain_frame(v, n, s, {}), fix=())
        c.ob(f"encrypted {name}Request", rule,
             lambda v, n=name, s=service: plain_frame(v, n, s, {"encryption_key": key_of(), "encryption_key_id": ivar("key_id", 0, 255)}), fix=())

    def second(v):
        """The second request on a connection, after a first one has been answered or has failed"""
        def body():
            seen = Tape()
            with stubs(dict(short_requests(), **{"elgas.security.CipherContext.encrypt": cipher(seen)})):
                o = connection(encryption_key=key_of(), encryption_key_id=ivar("key_id", 0, 255))
                begin = state_of(o)
                for n, s in PAIRS:
                    g = call(o, "send", make(request_cls(n)))
                    if g[0] == "exc":
                        return v.fail(where("send"), f"send({n}Request) raises {exc_text(g[1])}")
                    I.setattr_(attr_of(o, "elgas_state"), "current_state", begin)
                if len(seen) != len(PAIRS):
                    return v.fail(where("send"), f"{len(PAIRS)} requests sent, {len(seen)} of them encrypted", certain=True)
                v.ok()
        explore(body)
    c.ob("every request of a sequence is encrypted", "encryptions == requests sent", second, fix=())

    def refused(v):
        def body():
            key = key_of()
            g = outcome(lambda: connection(encryption_key=key))
            w = fnwhere(get(CONN))
            if g[0] == "ret":
                return v.fail(w, "a connection with an encryption key and no key id is created")
            if not is_exc(g[1], "ValueError"):
                return v.fail(w, f"a key without a key id raises {exc_text(g[1])}")
            v.ok()
        explore(body)
    c.ob("key without key id", "creating the connection raises ValueError", refused, fix=())

    def received(v, name, service):
        def body():
            seen, parsed = Tape(), Tape()
            cip = whole(src("b", "in", "ciphertext", lo=1))
            clear = whole(src("b", "in", "plaintext", lo=2))

            def dec(f, a, k):
                o, d = a[0], (a[1] if len(a) > 1 else list(k.values())[0])
                seen.append((I.getattr_(o, "key_id"), I.getattr_(o, "key"), plain(d)))
                return one_of("decryption", lambda: clear, ValueError, AssertionError)
            pdu = marker(name)
            key, kid = key_of(), ivar("key_id", 0, 255)
            t = dict(short_requests(), **reply(lambda x: frame_of("EncryptedResponse", service, cip)))
            t["elgas.security.CipherContext.decrypt"] = dec
            t["elgas.security.CipherContext.encrypt"] = lambda f, a, k: b"\x01\x02"
            t.update(pdus(lambda n, d: parsed.append((n, plain(d))) or pdu))
            with stubs(t):
                o = connection(encryption_key=key, encryption_key_id=kid)
                I.call(I.getattr_(o, "send"), [make(request_cls(name))], {})
                call(o, "receive_data", b"\x02\x0d")
                g = call(o, "next_event")
            w = where("next_event")
            if len(seen) != 1:
                return v.fail(w, f"an encrypted response is decrypted {len(seen)} times", certain=True)
            v.same(seen[0][2], cip, w, "text that is decrypted")
            v.same(seen[0][0], kid, w, "key id of the decryption")
            v.same(seen[0][1], key, w, "key of the decryption")
            if g[0] == "ret" and g[1] is pdu:
                if len(parsed) != 1:
                    return v.fail(w, "the response is interpreted more than once", certain=True)
                return v.same(parsed[0][1], clear, w, "text that is interpreted")
            if len(parsed):
                return v.fail(w, f"an encrypted response is interpreted but not delivered: {_short(g[1])}", certain=True)
            if g[0] == "ret" and g[1] is not need_data():
                return v.fail(w, f"an encrypted response yields {_short(g[1])}", certain=True)
            v.ok()
        explore(body)
    for name, service in PAIRS:
        c.ob(f"encrypted reply to {name}Request", "decrypted once with the connection's key and id, interpreted as the decrypted text",
             lambda v, n=name, s=service: received(v, n, s), fix=())

    def clear_reply(v):
        """A plain response is never run through the cipher"""
        def body():
            seen = Tape()
            data = whole(src("b", "in", "data", lo=2))
            t = dict(short_requests(), **reply(lambda x: frame_of("Response", 0x6C, data)))
            t["elgas.security.CipherContext.decrypt"] = lambda f, a, k: seen.append(1) or b"\x01\x02"
            got = Tape()
            pdu = marker("ReadTime")
            t.update(pdus(lambda n, d: got.append(plain(d)) or pdu))
            with stubs(t):
                o = connection()
                I.call(I.getattr_(o, "send"), [make(request_cls("ReadTime"))], {})
                call(o, "receive_data", b"\x02\x0d")
                g = call(o, "next_event")
            if g[0] == "exc" or g[1] is not pdu or len(seen):
                return v.fail(where("next_event"), f"a plain response yields {_short(g[1])}", certain=True)
            v.same(got[0], data, where("next_event"), "text that is interpreted")
        explore(body)
    c.ob("plain reply without a key", "interpreted unchanged", clear_reply, fix=())

    def client(v, with_key):
        def body():
            cls = get("elgas.client.ElgasClient")
            key, kid = key_of(), ivar("key_id", 0, 255)
            kw = {"encryption_key": key, "encryption_key_id": kid} if with_key else {}
            g = outcome(lambda: I.call(cls, [], dict(transport=Opq("any", ("transport",)), password="secret", password_id=801, **kw)))
            if g[0] == "exc":
                return v.fail(fnwhere(cls), f"a client {'with' if with_key else 'without'} a key cannot be created: {exc_text(g[1])}")
            o = g[1]
            x = attr_of(o, "elgas_connection")
            w = fnwhere(cls)
            seen = Tape()
            with stubs(dict(short_requests(), **{"elgas.security.CipherContext.encrypt": cipher(seen)})):
                g = call(x, "send", make(request_cls("ReadTime")))
            if g[0] == "exc":
                return v.fail(w, f"sending on a client's connection raises {exc_text(g[1])}", certain=True)
            if not with_key:
                return v.ok() if not len(seen) else v.fail(w, "a client without a key encrypts", certain=True)
            if len(seen) != 1:
                return v.fail(w, "a client with a key sends plain text", certain=True)
            v.same(seen[0][0], kid, w, "key id a client gives its connection")
            v.same(seen[0][1], key, w, "key a client gives its connection")
        explore(body)
    for k in (True, False):
        c.ob(f"client {'with' if k else 'without'} a key", "its connection encrypts with exactly the client's key and key id", lambda v, k=k: client(v, k), fix=())

    def client_refused(v):
        def body():
            cls = get("elgas.client.ElgasClient")
            g = outcome(lambda: I.call(cls, [], dict(transport=Opq("any", ("transport",)), password="secret", password_id=801,
                                                      encryption_key=key_of())))
            if g[0] == "ret":
                return v.fail(fnwhere(cls), "a client with an encryption key and no key id is created")
            v.ok()
        explore(body)
    c.ob("client with a key and no key id", "creating the client fails", client_refused, fix=())


# ------------------------------------------------------------------ models of the receiving side

def service_of(n):
    r = outcome(lambda: I.call(get("elgas.constants.ServiceNumber"), [n], {}))
    if r[0] == "exc":
        raise Anchor(f"service {n:#x} is not in ServiceNumber")
    return r[1]


def frame_of(cls, service, data):
    kw = dict(zip(ADDR, (0, 0, 1, 0)), service=service_of(service) if isinstance(service, int) else service, data=data)
    return I.call(get("elgas.frames." + cls), [], kw)


def reply(decoder, seen=None):
    """Un-escaping marked, frame decoding replaced by decoder(what it is given)"""
    def unesc(f, a, k):
        d = plain(a[0] if a else list(k.values())[0])
        return ("unescaped", d)

    def dec(f, a, k):
        d = plain(a[-1] if a else list(k.values())[0])
        if not (isinstance(d, tuple) and len(d) == 2 and d[0] == "unescaped"):
            d = ("as received", d)
        if seen is not None:
            seen.append(d)
        return decoder(d)
    return {UNESC: unesc, FACTORY: dec}


def pdus(build):
    """Response payload decoders replaced by build(name, data)"""
    t = {}
    for n, _ in PAIRS:
        t[f"{APP}{n}Response.from_bytes"] = lambda f, a, k, n=n: build(n, a[-1] if a else list(k.values())[0])
    return t


def marker(name):
    return make(response_cls(name), "delivered")


def events():
    """Every class of the application layer that can be an event"""
    out = []
    for n, x in sorted(get("elgas.application").env.vars.items()):
        if isinstance(x, ClassO) and x.fields is not None and n.endswith(("Request", "Response")):
            out.append((n, x))
    return out


def is_state(a, b):
    return a is b or (isinstance(a, (EnumM, str, int)) and a == b)


# ------------------------------------------------------------------ C09

def C09(c):
    c.explain = ("The transition relation is derived by evaluating the event handler for every pair of a state and an event class; the states are those "
                 "reachable from a new object. Sending and delivering are evaluated on the connection in every such state, and the service numbers of "
                 "requests, responses and the response chosen for a received frame are compared.")
    proc = STATE + ".process_event"

    def new_state():
        return I.call(get(STATE), [], {})

    def step(s, ev):
        return outcome(lambda: I.call(I.getattr_(s, "process_event"), [ev], {}))

    def cur(s):
        return attr_of(s, "current_state")

    def idle(v):
        def body():
            w = fnwhere(get(proc))
            idle_ = cur(new_state())
            n = 0
            for name, cls in events():
                s = new_state()
                g = step(s, make(cls))
                if name[:-7] in dict(PAIRS) and name.endswith("Request"):
                    n += 1
                    if g[0] == "exc":
                        v.fail(w, f"a new connection refuses {name}: {exc_text(g[1])}", certain=True)
                    elif is_state(cur(s), idle_):
                        v.fail(w, f"after {name} the state is still idle", certain=True)
                    else:
                        v.ok()
                elif g[0] == "ret":
                    v.fail(w, f"a new connection accepts {name}", certain=True)
                elif not is_exc(g[1], "LocalElgasProtocolError"):
                    v.fail(w, f"{name} while idle raises {exc_text(g[1])}", certain=True)
                elif not is_state(cur(s), idle_):
                    v.fail(w, f"refused {name} changes the idle state", certain=True)
                else:
                    v.ok()
            if n != len(PAIRS):
                v.fail(w, f"only {n} of {len(PAIRS)} requests exist", certain=True)
        explore(body)
    c.ob("transitions while idle", "exactly the six requests are accepted, everything else is the local protocol error without a change", idle, fix=())

    def pending(v, x):
        def body():
            w = fnwhere(get(proc))
            idle_ = cur(new_state())
            for name, cls in [*events(), ("int", None)]:
                s = new_state()
                if step(s, make(request_cls(x)))[0] == "exc":
                    return v.fail(w, f"a new connection refuses {x}Request", certain=True)
                before = cur(s)
                g = step(s, make(cls) if cls is not None else 5)
                if name == x + "Response":
                    if g[0] == "exc":
                        v.fail(w, f"{name} is refused while waiting for it: {exc_text(g[1])}", certain=True)
                    elif not is_state(cur(s), idle_):
                        v.fail(w, f"after {name} the state is not idle", certain=True)
                    else:
                        again = [n for n, _ in PAIRS if step_again(s, n, idle_)]
                        v.ok() if not again else v.fail(w, f"after {name} these requests are refused: {again}", certain=True)
                elif g[0] == "ret":
                    v.fail(w, f"{name} is accepted while waiting for {x}Response", certain=True)
                elif not is_exc(g[1], "LocalElgasProtocolError"):
                    v.fail(w, f"{name} while waiting for {x}Response raises {exc_text(g[1])}", certain=True)
                elif not is_state(cur(s), before):
                    v.fail(w, f"refused {name} changes the state of waiting for {x}Response", certain=True)
                elif step(s, make(response_cls(x)))[0] == "exc" or not is_state(cur(s), idle_):
                    v.fail(w, f"after a refused {name} {x}Response is not accepted any more", certain=True)
                else:
                    v.ok()
        explore(body)

    def step_again(s, n, idle_):
        if step(s, make(request_cls(n)))[0] == "exc":
            return True
        return step(s, make(response_cls(n)))[0] == "exc" or not is_state(cur(s), idle_)
    for x, _ in PAIRS:
        c.ob(f"transitions while waiting for {x}Response", "only that response is accepted and leads to idle; everything else is refused without a change",
             lambda v, x=x: pending(v, x), fix=())

    def services(v):
        def body():
            for n, s in PAIRS:
                for k in ("Request", "Response"):
                    cls = get(APP + n + k)
                    g = plain(I.getattr_(cls, "service"))
                    if g != s:
                        v.fail(fnwhere(cls), f"{n}{k} belongs to service {g!r} instead of {s:#x}", certain=True)
                    else:
                        v.ok()
        explore(body)
    c.ob("service numbers", "request and response classes carry the service number of their pair", services, fix=())

    def all_services():
        cls = get("elgas.constants.ServiceNumber")
        return [x for x in range(256) if outcome(lambda: I.call(cls, [x], {}))[0] == "ret"]

    def chosen(v):
        def body():
            f = get("elgas.connection.ResponsePduFactory.from_response")
            w = fnwhere(f)
            data = inp("b", "data")
            for s in all_services():
                seen = Tape()
                with stubs(pdus(lambda n, d: seen.append((n, plain(d))) or marker(n))):
                    g = outcome(lambda: I.call(f, [frame_of("Response", s, data)], {}))
                want = {b: a for a, b in PAIRS}.get(s)
                if want is None:
                    v.ok() if g[0] == "exc" else v.fail(w, f"service {s:#x} is interpreted as {_short(g[1])}", certain=True)
                elif g[0] == "exc":
                    v.fail(w, f"service {s:#x} is not interpreted: {exc_text(g[1])}", certain=True)
                elif [x for x, _ in seen] != [want] or not isinstance(g[1], Inst) or g[1].cls is not response_cls(want):
                    v.fail(w, f"service {s:#x} is interpreted as {[x for x, _ in seen]} instead of {want}Response", certain=True)
                else:
                    v.same(seen[0][1], data, w, "text given to the response class")
        explore(body)
    c.ob("response class chosen for a frame", "a frame's service selects the response class of that service and no other", chosen, fix=())

    def send_pending(v, x, crypt):
        def body():
            w = where("send")
            with stubs(dict(short_requests(), **{"elgas.security.CipherContext.encrypt": lambda f, a, k: b"\x01\x02"})):
                for name, cls in events():
                    o = connection(**crypt)
                    first = state_of(o)
                    if call(o, "send", make(request_cls(x)))[0] == "exc":
                        return v.fail(w, f"a new connection cannot send {x}Request", certain=True)
                    before = state_of(o)
                    if is_state(before, first):
                        return v.fail(w, f"sending {x}Request leaves the connection idle", certain=True)
                    g = call(o, "send", make(cls))
                    if name == x + "Response":
                        continue
                    if g[0] == "ret":
                        v.fail(w, f"{name} is sent while waiting for {x}Response", certain=True)
                    elif not is_exc(g[1], "LocalElgasProtocolError"):
                        v.fail(w, f"sending {name} while waiting for {x}Response raises {exc_text(g[1])}", certain=True)
                    elif not is_state(state_of(o), before):
                        v.fail(w, f"refused {name} changes the state", certain=True)
                    else:
                        v.ok()
        explore(body)
    for x, _ in PAIRS:
        c.ob(f"sending while waiting for {x}Response", "refused with the local protocol error, state unchanged", lambda v, x=x: send_pending(v, x, {}), fix=())

    def deliver(v, x):
        """x None: nothing outstanding"""
        def body():
            w = where("next_event")
            for enc in (False, True):
                for s in all_services():
                    data = whole(src("b", "in", "data", lo=2))
                    t = dict(short_requests(), **reply(lambda d: frame_of("EncryptedResponse" if enc else "Response", s, data)))
                    t.update(pdus(lambda n, d: marker(n)))
                    t["elgas.security.CipherContext.encrypt"] = lambda f, a, k: b"\x01\x02"
                    t["elgas.security.CipherContext.decrypt"] = lambda f, a, k: data
                    with stubs(t):
                        o = connection(**({"encryption_key": b"k" * 16, "encryption_key_id": 1} if enc else {}))
                        first = state_of(o)
                        if x:
                            I.call(I.getattr_(o, "send"), [make(request_cls(x))], {})
                        before = state_of(o)
                        call(o, "receive_data", b"\x02\x0d")
                        g = call(o, "next_event")
                    want = {b: a for a, b in PAIRS}.get(s)
                    st = state_of(o)
                    what = f"a {'n encrypted' if enc else ''} response of service {s:#x} while {'waiting for ' + x + 'Response' if x else 'idle'}".replace("a n", "an").replace("a  ", "a ")
                    if x and want == x:
                        if g[0] == "exc":
                            v.fail(w, f"{what} raises {exc_text(g[1])}", certain=True)
                        elif not isinstance(g[1], Inst) or g[1].cls is not response_cls(x):
                            v.fail(w, f"{what} yields {_short(g[1])}", certain=True)
                        elif not is_state(st, first):
                            v.fail(w, f"{what} does not lead back to idle", certain=True)
                        else:
                            v.ok()
                        continue
                    if g[0] == "ret" and g[1] is not need_data():
                        v.fail(w, f"{what} is delivered as {_short(g[1])}", certain=True)
                    elif want and (g[0] == "ret" or not is_exc(g[1], "LocalElgasProtocolError")):
                        v.fail(w, f"{what} gives {exc_text(g[1]) if g[0] == 'exc' else _short(g[1])} instead of the local protocol error", certain=True)
                    elif not is_state(st, before):
                        v.fail(w, f"{what} changes the state", certain=True)
                    else:
                        v.ok()
        explore(body)
    for x in [None, *[n for n, _ in PAIRS]]:
        c.ob(f"frames received while {'waiting for ' + x + 'Response' if x else 'idle'}", "only the response belonging to the request is delivered and leads to idle",
             lambda v, x=x: deliver(v, x), fix=())


# ------------------------------------------------------------------ C10

def C10(c):
    c.explain = ("Sending is evaluated with every step (serialising, encrypting, framing, escaping) returning or raising any of the exceptions the code "
                 "can produce; on every trace that raises, state and receive buffer must be what they were and a following request must be sent.")
    rule = "send raises => state and buffer as before the call and a following valid request is sent"

    def steps(fail_at):
        def site(name, normal):
            def f(fn, a, k):
                if fail_at[0] is None:
                    return normal(fn, a, k)
                r = one_of(name, "go", *instance_of_error(RAISED))
                return normal(fn, a, k)
            return f
        t = {}
        for n, _ in PAIRS:
            t[f"{APP}{n}Request.to_bytes"] = site("to_bytes", lambda fn, a, k: b"\x01\x02\x03")
        t["elgas.security.CipherContext.encrypt"] = site("encrypt", lambda fn, a, k: b"\x04\x05")
        for n in ("Request", "EncryptedRequest"):
            t[f"elgas.frames.{n}.to_bytes"] = site("frame", through)
        t["elgas.utils.escape_characters"] = site("escape", through)
        return t

    def raising(v, x, crypt):
        def body():
            w = where("send")
            on = [None]
            with stubs(steps(on)):
                o = connection(**crypt)
                old = inp("b", "buffered", lo=1)
                call(o, "receive_data", old)
                kept = buffer_of(o)
                first = state_of(o)
                on[0] = True
                g = call(o, "send", make(request_cls(x)))
                on[0] = None
                if g[0] == "ret":
                    return v.ok()
                if not is_state(state_of(o), first):
                    return v.fail(w, f"sending {x}Request raises {exc_text(g[1])} and the state is {_short(state_of(o))}", certain=True)
                v.same(buffer_of(o), kept, w, "receive buffer after a failed send")
                for n, _ in PAIRS:
                    g = call(o, "send", make(request_cls(n)))
                    if g[0] == "ret":
                        break
                    return v.fail(w, f"after a failed {x}Request {n}Request raises {exc_text(g[1])}", certain=True)
        explore(body)
    crypts = (("plain", {}), ("encrypted", {"encryption_key": b"k" * 16, "encryption_key_id": 1}))
    for x, _ in PAIRS:
        for cn, crypt in crypts:
            c.ob(f"{cn} {x}Request failing at any step", rule, lambda v, x=x, crypt=crypt: raising(v, x, crypt), fix=())

    def refused(v, x):
        """Sending while another request is outstanding"""
        def body():
            w = where("send")
            on = [None]
            with stubs(steps(on)):
                for name, cls in events():
                    o = connection()
                    if call(o, "send", make(request_cls(x)))[0] == "exc":
                        return v.fail(w, f"a new connection cannot send {x}Request", certain=True)
                    old = whole(src("b", "in", "buffered", lo=1, mask=NO_END))
                    call(o, "receive_data", old)
                    kept, before = buffer_of(o), state_of(o)
                    if name == x + "Response":
                        continue
                    g = call(o, "send", make(cls))
                    if g[0] == "ret":
                        v.fail(w, f"{name} is sent while waiting for {x}Response", certain=True)
                    elif not is_state(state_of(o), before):
                        v.fail(w, f"refused {name} changes the state of waiting for {x}Response", certain=True)
                    else:
                        v.same(buffer_of(o), kept, w, "receive buffer after a refused request")
        explore(body)
    for x, _ in PAIRS:
        c.ob(f"requests refused while waiting for {x}Response", "state and buffer unchanged", lambda v, x=x: refused(v, x), fix=())

    def real(v, name, kw):
        def body():
            w = where("send")
            o = connection()
            first = state_of(o)
            vals = kw()
            g = call(o, "send", make(request_cls(name), **vals))
            if g[0] == "exc" and not is_state(state_of(o), first):
                return v.fail(w, f"{name}Request raising {exc_text(g[1])} leaves the state {_short(state_of(o))}")
            v.ok()
        explore(body)
    pw = lambda: inp("s", "password")
    c.ob("password that cannot be encoded", rule, lambda v: real(v, "ReadInstantaneousValues", lambda: {"password": pw()}), fix=())
    c.ob("numbers that do not fit", rule, lambda v: real(v, "ReadDeviceParameters", lambda: {
        "object_count": ivar("object_count"), "buffer_length": ivar("buffer_length")}), fix=())
    c.ob("record id that does not fit", rule, lambda v: real(v, "ReadArchive", lambda: {
        "archive": 1, "amount": ivar("amount"), "oldest_record_id": ivar("oldest_record_id")}), fix=())


# ------------------------------------------------------------------ C11

def C11(c):
    c.explain = ("The receive path is evaluated with a response whose payload is one symbolic byte between 1 and 255, for every service, plain and encrypted, "
                 "with and without an outstanding request; the exception class must stand for a bit that is set on every trace.")
    rule = "raises the documented exception of a set bit; then the reply is consumed and a new request is sent"

    def err(v, x, s, enc, rest=b""):
        def body():
            w = where("next_event")
            e = ivar("error", 1, 255)
            data = rope("b", [("e", e)])
            seen = Tape()
            t = dict(short_requests(), **reply(lambda d: frame_of("EncryptedResponse" if enc else "Response", s, b"\x01\x02\x03" if enc else data), seen))
            t["elgas.security.CipherContext.encrypt"] = lambda f, a, k: b"\x01\x02"
            t["elgas.security.CipherContext.decrypt"] = lambda f, a, k: one_of("type of decrypted text", data, lambda: BArr(data))
            with stubs(t):
                o = connection(**({"encryption_key": b"k" * 16, "encryption_key_id": 1} if enc else {}))
                if x:
                    I.call(I.getattr_(o, "send"), [make(request_cls(x))], {})
                call(o, "receive_data", cat(b"\x02\x0d", rest))
                g = call(o, "next_event")
                if g[0] == "ret":
                    return v.fail(w, f"a reply with one non-zero byte gives {_short(g[1])}")
                bits = [i for i, n in enumerate(ERRORS) if is_exc(g[1], n)]
                if not bits:
                    return v.fail(w, f"a reply with one non-zero byte raises {exc_text(g[1])}")
                if not any(known(eq(bitop(e, 1 << i, "and", R.facts), 0)) is False for i in bits):
                    return v.fail(w, f"raises {exc_name(g[1])} although bit {bits[0]} need not be set")
                n = len(seen)
                h = call(o, "next_event")
                if h != ("ret", need_data()) and not (h[0] == "ret" and h[1] is need_data()) or len(seen) != n:
                    return v.fail(w, f"after the error the reply is examined again: {_short(h[1])}")
                h = call(o, "send", make(request_cls(x or "ReadTime")))
                if h[0] == "exc":
                    return v.fail(w, f"after the error a new request raises {exc_text(h[1])}")
                v.ok()
        explore(body)
    for n, s in PAIRS:
        for enc in (False, True):
            c.ob(f"{'encrypted' if enc else 'plain'} error reply to {n}Request", rule, lambda v, n=n, s=s, enc=enc: err(v, n, s, enc), fix=())
            c.ob(f"{'encrypted' if enc else 'plain'} error reply to {n}Request with the beginning of another chunk behind it", rule,
                 lambda v, n=n, s=s, enc=enc: err(v, n, s, enc, whole(src("b", "in", "rest", mask=NO_END, lo=1))), fix=())

    def other(v):
        cls = get("elgas.constants.ServiceNumber")
        for s in [x for x in range(256) if outcome(lambda: I.call(cls, [x], {}))[0] == "ret"]:
            for x in ("ReadTime", None):
                err(v, x, s, False)
    c.ob("error replies of every service", rule, other, fix=())

    def classes(v):
        def body():
            for n in ERRORS:
                cls = get("elgas.exceptions." + n)
                v.ok() if any(getattr(k, "name", "") == "ElgasError" for k in mro_of(cls)) else v.fail(fnwhere(cls), f"{n} is not a library error", certain=True)
        explore(body)
    c.ob("error classes", "every documented error is a library error", classes, fix=())


# ------------------------------------------------------------------ C12

def C12(c):
    c.explain = ("The receive path is evaluated on arbitrary chunks: bytes A without the terminator, the terminator, arbitrary bytes after it; un-escaping is "
                 "marked and frame decoding replaced by every possible outcome. Buffer contents are compared as terms, which gives the inductive step over "
                 "any number of chunks.")
    A = lambda n="A", **kw: whole(src("b", "in", n, mask=NO_END, **kw))
    END = b"\x0d"

    def model(kinds, seen, x="ReadTime"):
        """kinds: outcomes of examining a chunk, by name"""
        s = dict(PAIRS)[x]
        good = whole(src("b", "in", "data", lo=2))

        def decoder(d):
            return {"invalid": lambda: I.throw(ValueError, "frame"),
                    "broken": lambda: I.throw(IndexError, "frame"),
                    "error": lambda: frame_of("Response", s, b"\x02"),
                    "other": lambda: frame_of("Response", 0x64 if s != 0x64 else 0x6C, good),
                    "unknown": lambda: frame_of("Response", 0x87, good),
                    "cipher": lambda: frame_of("EncryptedResponse", s, good),
                    "unreadable": lambda: frame_of("Response", s, good),
                    "good": lambda: frame_of("Response", s, good)}[next_kind()]()
        todo = Tape(kinds)
        cur = Tape()

        def next_kind():
            cur.set(todo.take() if len(todo) else "good")
            return cur.get()

        def pdu(n, d):
            if cur.get() == "unreadable":
                I.throw(ValueError, "payload")
            return marker(n)
        t = dict(short_requests(), **reply(decoder, seen))
        t.update(pdus(pdu))
        return t

    def start(x="ReadTime"):
        o = connection()
        I.call(I.getattr_(o, "send"), [make(request_cls(x))], {})
        return o

    def need(v, g, what):
        if g[0] == "exc":
            v.fail(where("next_event"), f"{what}: raises {exc_text(g[1])}")
            return False
        if g[1] is not need_data():
            v.fail(where("next_event"), f"{what}: yields {_short(g[1])} instead of asking for more data")
            return False
        return True

    def delivered(v, g, what, x="ReadTime"):
        if g[0] == "exc":
            v.fail(where("next_event"), f"{what}: raises {exc_text(g[1])}")
            return False
        if not isinstance(g[1], Inst) or g[1].cls is not response_cls(x):
            v.fail(where("next_event"), f"{what}: yields {_short(g[1])} instead of the response")
            return False
        return True

    def append(v, kind):
        def body():
            w = where("receive_data")
            seen = Tape()
            with stubs(model([], seen)):
                o = start()
                st = state_of(o)
                old = A("old")
                call(o, "receive_data", old)
                new = inp("b", "chunk")
                g = call(o, "receive_data", BArr(new) if kind == "bytearray" else new)
                if g[0] == "exc":
                    return v.fail(w, f"receive_data raises {exc_text(g[1])}")
                if len(seen) or not is_state(state_of(o), st):
                    return v.fail(w, "receiving data changes the state or examines it")
                if decide(eq(T.length(old), 0)) and decide(M.equal(new, END)):
                    return v.same(buffer_of(o), b"", w, "buffer after a lone terminator")
                v.same(buffer_of(o), cat(old, new), w, "buffer after receiving a chunk")
        explore(body)
    for k in ("bytes", "bytearray"):
        c.ob(f"appending a chunk of {k}", "buffer + chunk, in order; a lone 0x0D on an empty buffer is ignored", lambda v, k=k: append(v, k), fix=(0, 1, 2))

    def incomplete(v):
        def body():
            w = where("next_event")
            seen = Tape()
            with stubs(model([], seen)):
                o = start()
                st = state_of(o)
                old = A("old")
                call(o, "receive_data", old)
                g = call(o, "next_event")
                if not need(v, g, "buffer without a terminator"):
                    return
                if len(seen):
                    return v.fail(w, "an incomplete chunk is examined")
                if not is_state(state_of(o), st):
                    return v.fail(w, "asking for more data changes the state")
                v.same(buffer_of(o), old, w, "buffer after asking for more data")
        explore(body)
    c.ob("buffer without a terminator", "asks for more data, buffer and state unchanged, nothing examined", incomplete, fix=(0, 1, 2))

    OUT = ("invalid", "broken", "error", "other", "unknown", "cipher", "unreadable", "good")

    def examine(v, kind):
        def body():
            w = where("next_event")
            seen = Tape()
            with stubs(model([kind], seen)):
                o = start()
                st = state_of(o)
                a = A("A", lo=1)
                rest = whole(src("b", "in", "rest"))
                call(o, "receive_data", cat(a, END, rest))
                g = call(o, "next_event")
                if len(seen) != 1:
                    return v.fail(w, f"a terminated chunk is examined {len(seen)} times")
                v.same(seen[0], ("unescaped", cat(a, END)), w, "what is examined")
                buf = buffer_of(o)
                if kind == "good":
                    if not delivered(v, g, "valid frame"):
                        return
                    return v.same(buf, b"", w, "buffer after a delivered response")
                if kind == "invalid":
                    if not need(v, g, "invalid frame"):
                        return
                    if not is_state(state_of(o), st):
                        return v.fail(w, "an invalid frame changes the state")
                    return v.same(buf, rest, w, "buffer after a discarded chunk")
                if g[0] == "ret" and g[1] is not need_data():
                    return v.fail(w, f"a chunk that cannot be interpreted ({kind}) yields {_short(g[1])}")
                r, _ = agree(buf, rest)
                if r is True:
                    return v.ok()
                v.same(buf, b"", w, f"buffer after a chunk whose interpretation fails ({kind})")
        explore(body)
    for k in OUT:
        c.ob(f"examining a terminated chunk: {k}", "exactly the bytes up to the first terminator are examined and they are consumed", lambda v, k=k: examine(v, k), fix=())

    def leading(v):
        """A buffer that begins with a terminator (never left by receive_data alone, but after a consumed chunk)"""
        def body():
            seen = Tape()
            with stubs(model(["invalid", "invalid"], seen)):
                o = start()
                a = A("A", lo=1)
                rest = A("rest")
                call(o, "receive_data", cat(a, END, END, rest))
                g = call(o, "next_event")
                if not need(v, g, "invalid frame"):
                    return
                g = call(o, "next_event")
                if not need(v, g, "stray terminator in the buffer"):
                    return
                v.same(buffer_of(o), rest, where("next_event"), "buffer after a stray terminator")
        explore(body)
    c.ob("stray terminator after a discarded chunk", "consumed, the bytes behind it stay", leading, fix=())

    def split(v):
        """A frame in three arbitrary pieces with or without looking in between; only the public interface"""
        def body():
            w = where("next_event")
            seen = Tape()
            with stubs(model(["good"], seen)):
                o = start()
                a, b, d = A("first", lo=1), A("second"), A("third")
                for p in (a, b):
                    call(o, "receive_data", p)
                    if choose(2, "look") and not need(v, call(o, "next_event"), "part of a frame"):
                        return
                if len(seen):
                    return v.fail(w, "an incomplete frame is examined")
                call(o, "receive_data", cat(d, END))
                if not delivered(v, call(o, "next_event"), "frame received in pieces"):
                    return
                if len(seen) != 1:
                    return v.fail(w, "the frame is examined more than once")
                v.same(seen[0], ("unescaped", cat(a, b, d, END)), w, "frame put together from its pieces")
        explore(body)
    c.ob("frame split at any two places", "decoded once, from all pieces in order", split, fix=())

    def stray(v):
        def body():
            seen = Tape()
            with stubs(model(["good"], seen)):
                o = start()
                for _ in range(2):
                    call(o, "receive_data", END)
                    if choose(2, "look") and not need(v, call(o, "next_event"), "lone terminator"):
                        return
                a = A("A", lo=1)
                call(o, "receive_data", cat(a, END))
                if not delivered(v, call(o, "next_event"), "frame after lone terminators"):
                    return
                if len(seen) != 1:
                    return v.fail(where("next_event"), "a lone terminator is examined")
                v.same(seen[0], ("unescaped", cat(a, END)), where("next_event"), "frame after lone terminators")
        explore(body)
    c.ob("lone terminators while nothing is buffered", "ignored", stray, fix=())

    def recover(v, kind, together):
        """A bad chunk, then a valid frame in the same or in the next feed"""
        def body():
            w = where("next_event")
            seen = Tape()
            with stubs(model([kind, "good"], seen)):
                o = start()
                a, b = A("bad", lo=1), A("good", lo=1)
                call(o, "receive_data", cat(a, END, b, END) if together else cat(a, END))
                g = call(o, "next_event")
                if kind == "invalid" and not need(v, g, "invalid frame"):
                    return
                if g[0] == "ret" and g[1] is not need_data():
                    return v.fail(w, f"a chunk that cannot be interpreted ({kind}) yields {_short(g[1])}")
                if not together:
                    if len(seen) != 1:
                        return v.fail(w, "the bad chunk is examined more than once")
                    g = call(o, "next_event")
                    if not need(v, g, "nothing received since the bad chunk"):
                        return
                    if len(seen) != 1:
                        return v.fail(w, "the bad chunk is examined again")
                    if kind == "error":
                        h = call(o, "send", make(request_cls("ReadTime")))
                        if h[0] == "exc":
                            return v.fail(w, f"after an error reply a request raises {exc_text(h[1])}")
                    call(o, "receive_data", cat(b, END))
                elif kind != "invalid":
                    return v.ok()
                g = call(o, "next_event")
                if not delivered(v, g, "valid frame behind a bad one"):
                    return
                if len(seen) != 2:
                    return v.fail(w, f"{len(seen)} chunks are examined instead of 2")
                v.same(seen[1], ("unescaped", cat(b, END)), w, "frame behind a bad one")
        explore(body)
    for k in OUT[:-1]:
        for tg in ((True, False) if k == "invalid" else (False,)):
            c.ob(f"valid frame after a bad chunk ({k}{', same feed' if tg else ''})", "the bad chunk is examined once, the valid frame is delivered",
                 lambda v, k=k, tg=tg: recover(v, k, tg), fix=())

    def two(v):
        """Two requests and their responses on one connection"""
        def body():
            seen = Tape()
            with stubs(model(["good", "good"], seen)):
                o = start()
                for i in range(2):
                    a = A(f"frame{i}", lo=1)
                    call(o, "receive_data", cat(a, END))
                    if not delivered(v, call(o, "next_event"), f"response {i + 1}"):
                        return
                    v.same(seen[i], ("unescaped", cat(a, END)), where("next_event"), f"frame of response {i + 1}")
                    if not need(v, call(o, "next_event"), "after a delivered response"):
                        return
                    if i == 0 and call(o, "send", make(request_cls("ReadTime")))[0] == "exc":
                        return v.fail(where("send"), "after a response a new request is refused")
                v.same(buffer_of(o), b"", where("next_event"), "buffer after a delivered response")
        explore(body)
    c.ob("two exchanges", "each response is decoded from its own bytes", two, fix=())


# ------------------------------------------------------------------ C25

def C25(c):
    c.explain = "The constructor is evaluated on arbitrary integers and a password of any length; it must return exactly inside the ranges and raise ValueError outside."
    rule = "returns iff every parameter is in its range, raises ValueError otherwise"
    LIM = {"source_address_1": (0, 65535), "source_address_2": (0, 255), "destination_address_1": (0, 65535), "destination_address_2": (0, 255),
           "password_id": (801, 849)}

    def one(v, names):
        def body():
            cls = get(CONN)
            w = fnwhere(cls)
            kw = {}
            inside = True
            for n in names:
                kw[n] = inp("s", "password") if n == "password" else ivar(n)
            g = outcome(lambda: connection(**kw))
            for n in names:
                conds = [ge(6, T.length(kw[n]))] if n == "password" else [ge(kw[n], LIM[n][0]), ge(LIM[n][1], kw[n])]
                if not all([decide(x) for x in conds]):
                    inside = False
                    break
            if g[0] == "ret":
                if not inside:
                    return v.fail(w, f"{n} outside its range is accepted")
                for n in names:
                    v.same(I.getattr_(g[1], n), kw[n], w, f"stored {n}")
            elif inside:
                v.fail(w, f"values inside all ranges raise {exc_text(g[1])}")
            elif not is_exc(g[1], "ValueError"):
                v.fail(w, f"{n} outside its range raises {exc_text(g[1])}")
            else:
                v.ok()
        explore(body)
    for n in [*LIM, "password"]:
        c.ob(f"range of {n}", rule, lambda v, n=n: one(v, [n]), fix=())
    c.ob("all parameters together", rule, lambda v: one(v, [*LIM, "password"]), fix=())
