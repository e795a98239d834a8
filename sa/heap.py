"""Abstract heap, traces and trace partitioning."""
from .terms import *
from .terms import _s
from .ropes import *


class PyRaise(Exception):
    """An exception of the analysed program"""

    def __init__(self, inst):
        self.inst = inst


class Infeasible(Exception):
    pass


class NeedFork(Exception):
    pass


class BreakE(Exception):
    pass


class ContinueE(Exception):
    pass


class ReturnE(Exception):
    def __init__(self, v):
        self.v = v


class Missing:
    def __repr__(self):
        return "<unset>"


MISSING = Missing()


class Poison:
    """Value of a loop temporary at the loop head: must not be read."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<indeterminate {self.why}>"


class Run:
    """State of the current trace."""

    def __init__(self):
        self.serial = 0
        self.mark = 0
        self.journal = []
        self.effects = []
        self.facts = Facts()
        self.oracles = []
        self.counters = {}
        self.paths = 0
        self.steps = 0
        self.at_load = 0
        self.loaded = 0         # serial of the last object made by importing the package
        self.private = []       # writes to attributes, of objects that live on, whose meaning is not known
        self.kept = []          # what outlives a call: writes to objects made by importing the package
        self.unknown = 0        # results of calls that are not modelled, so far


R = Run()


def fresh_serial():
    R.serial += 1
    return R.serial


def counter(name):
    """Deterministic per-trace counter"""
    c = R.counters.get(name, 0)
    R.counters[name] = c + 1
    return c


class Oracle:
    __slots__ = ("prefix", "taken", "nofork")

    def __init__(self, prefix, nofork=False):
        self.prefix, self.taken, self.nofork = prefix, [], nofork


def choose(n, label=""):
    if n == 1:
        return 0
    if not R.oracles:
        raise Gap("undetermined choice outside exploration: " + str(label))
    o = R.oracles[-1]
    if o.nofork:
        raise NeedFork()
    k = len(o.taken)
    i = o.prefix[k] if k < len(o.prefix) else 0
    o.taken.append((n, i, label))
    if k > 3000:
        raise Gap("too many decisions on one trace")
    return i


def decide(c):
    """Truth value of a condition on this trace; partitions the trace when it is open."""
    if c is True or c is False:
        return c
    r = R.facts.decide(c)
    if r is not None:
        return r
    if c.k[0] == "and":
        return all(decide(x) for x in c.k[1])
    if c.k[0] == "not":
        return not decide(c.k[1])
    t = choose(2, c) == 0
    if not R.facts.assume(c, t):
        raise Infeasible()
    return t


def known(c):
    if c is True or c is False:
        return c
    return R.facts.decide(c)


def assume(c):
    if not R.facts.assume(c, True):
        raise Infeasible()


class Path:
    __slots__ = ("kind", "value", "facts", "effects", "taken", "cap", "prefix")

    def __repr__(self):
        return f"Path({self.kind}, {self.value})"


def explore(fn, capture=None, limit=20000, setup=None):
    """All traces of fn() from the current state; the state is restored afterwards."""
    out = []
    prefix = []
    base_facts, base_mark, base_eff = R.facts, R.mark, R.effects
    base_counters = R.counters
    jm = len(R.journal)
    n = 0
    try:
        while True:
            R.facts = base_facts.copy()
            R.effects = []
            R.counters = dict(base_counters)
            R.mark = fresh_serial()
            o = Oracle(prefix)
            R.oracles.append(o)
            p = Path()
            p.prefix = None
            R.paths += 1
            try:
                p.value = fn()
                p.kind = "ret"
            except PyRaise as e:
                p.kind, p.value = "exc", e.inst
            except BreakE:
                p.kind, p.value = "break", None
            except ContinueE:
                p.kind, p.value = "continue", None
            except ReturnE as e:
                p.kind, p.value = "return", e.v
            except Infeasible:
                p = None
            except RecursionError:
                raise Gap("recursion too deep")
            finally:
                R.oracles.pop()
                if p is not None and hasattr(p, "kind"):
                    p.facts, p.effects = R.facts, R.effects
                    p.taken = list(o.taken)
                    p.prefix = [t[1] for t in o.taken]
                    p.cap = capture(p) if capture else None
                rollback(jm)
            if p is not None:
                out.append(p)
            n += 1
            if n > limit:
                raise Gap(f"more than {limit} traces")
            taken = o.taken
            while taken and taken[-1][1] + 1 >= taken[-1][0]:
                taken.pop()
            if not taken:
                return out
            prefix = [t[1] for t in taken]
            prefix[-1] += 1
    finally:
        R.facts, R.mark, R.effects, R.counters = base_facts, base_mark, base_eff, base_counters


def replay(fn, prefix):
    """Run fn() on this trace following one previously explored decision sequence."""
    o = Oracle(list(prefix))
    R.oracles.append(o)
    try:
        return fn()
    finally:
        R.oracles.pop()


def trial(fn):
    """Run fn() if it needs no decision; returns (True, value) or (False, None) with the state restored."""
    jm = len(R.journal)
    base_facts, base_mark = R.facts, R.mark
    ne = len(R.effects)
    cnt = dict(R.counters)
    R.facts = base_facts.copy()
    R.mark = fresh_serial()
    R.oracles.append(Oracle([], nofork=True))
    done = False
    try:
        v = fn()
        done = True
        return True, v
    except NeedFork:
        return False, None
    except (Gap, Infeasible):
        raise
    except Exception:
        done = True
        raise
    finally:
        R.oracles.pop()
        if not done:
            rollback(jm)
            R.facts = base_facts
            del R.effects[ne:]
            R.counters = cnt
        R.mark = base_mark


def rollback(jm):
    j = R.journal
    while len(j) > jm:
        o, k, old = j.pop()
        o.put_raw(k, old)


class Obj:
    __slots__ = ("serial", "__weakref__")

    def __init__(self):
        self.serial = fresh_serial()

    def put(self, k, v):
        if self.serial < R.mark:
            old = self.get_raw(k)
            R.journal.append((self, k, old))
            if self.serial <= R.loaded and old is not v and R.loaded:
                R.kept.append((self, k))
        self.put_raw(k, v)


class Env(Obj):
    __slots__ = ("vars", "parent", "kind", "globals", "nonlocals", "name", "ann", "locals_")

    def __init__(self, parent=None, kind="func", name=""):
        super().__init__()
        self.vars, self.parent, self.kind = {}, parent, kind
        self.globals, self.nonlocals = set(), set()
        self.name = name

    def get_raw(self, k):
        return self.vars.get(k, MISSING)

    def put_raw(self, k, v):
        if v is MISSING:
            self.vars.pop(k, None)
        else:
            self.vars[k] = v


class BArr(Obj):
    """bytearray"""
    __slots__ = ("v",)

    def __init__(self, v):
        super().__init__()
        self.v = v

    def get_raw(self, k):
        return self.v

    def put_raw(self, k, v):
        self.v = v

    def set(self, v):
        self.put(None, v)

    def __repr__(self):
        return f"bytearray({self.v!r})"


class LSeg:
    """A run of list elements produced by a summarised loop."""

    def __init__(self, key, template, n, seq=None, elem=None):
        self.key, self.template, self.n, self.seq, self.elem = key, template, n, seq, elem

    def __repr__(self):
        return f"*[{', '.join(map(repr, self.template))} for each of {show(self.n) if self.n is not None else '?'}]"


class ListO(Obj):
    __slots__ = ("items",)

    def __init__(self, items=()):
        super().__init__()
        self.items = list(items)

    def get_raw(self, k):
        return self.items

    def put_raw(self, k, v):
        self.items = v

    def set(self, items):
        self.put(None, list(items))

    def __repr__(self):
        return f"list{self.items!r}"


class DictO(Obj):
    __slots__ = ("d",)

    def __init__(self, d=None):
        super().__init__()
        self.d = dict(d or {})

    def get_raw(self, k):
        return self.d

    def put_raw(self, k, v):
        self.d = v

    def set(self, d):
        self.put(None, d)

    def __repr__(self):
        return "dict{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.d.values()) + "}"


class SetO(DictO):
    __slots__ = ("frozen",)

    def __init__(self, d=None, frozen=False):
        super().__init__(d)
        self.frozen = frozen

    def __repr__(self):
        return "set{" + ", ".join(f"{k!r}" for k, v in self.d.values()) + "}"


# what the objects that live longer than one call are known to hold; anything else may depend on earlier calls
WATCHED = {
    "ElgasConnection": {"source_address_1", "source_address_2", "destination_address_1", "destination_address_2", "password", "password_id",
                        "encryption_key", "encryption_key_id", "buffer", "elgas_state", "cipher_context"},
    "ElgasState": {"current_state"},
    "CipherContext": {"key_id", "key"},
    "ElgasClient": {"transport", "password", "password_id", "encryption_key", "encryption_key_id", "elgas_connection"},
    "ScadaParameterParser": {"data"},
    "BlockingTcpTransport": {"host", "port", "timeout", "tcp_socket"},
    "SerialTransport": {"port", "baud_rate", "timeout", "serial_port"},
}


class Inst(Obj):
    __slots__ = ("cls", "attrs", "payload")

    def __init__(self, cls, attrs=None, payload=None):
        super().__init__()
        self.cls, self.attrs, self.payload = cls, dict(attrs or {}), payload

    def put(self, k, v):
        w = WATCHED.get(getattr(self.cls, "name", None))
        if w is not None and k not in w and not k.startswith("\u00b7"):
            R.private.append((self.cls.name, k))
        Obj.put(self, k, v)

    def get_raw(self, k):
        return self.attrs.get(k, MISSING)

    def put_raw(self, k, v):
        if v is MISSING:
            self.attrs.pop(k, None)
        else:
            self.attrs[k] = v

    def __repr__(self):
        n = self.cls.name if isinstance(self.cls, ClassO) else getattr(self.cls, "__name__", str(self.cls))
        if self.payload is not None:
            return f"{n}<{self.payload!r}>"
        return f"{n}({', '.join(f'{k}={_r(v)}' for k, v in self.attrs.items())})"


class AttrsView(DictO):
    """The __dict__ of an instance: writes reach the instance"""
    __slots__ = ("owner", "mk")

    def __init__(self, owner, mk):
        self.owner, self.mk = owner, mk
        Obj.__init__(self)

    @property
    def d(self):
        return {self.mk(k): (k, x) for k, x in self.owner.attrs.items() if not k.startswith("\u00b7")}

    def put(self, k, d):
        old, new = self.d, {k: x for k, x in d.values()}
        for k, x in old.values():
            if k not in new:
                self.owner.put(k, MISSING)
        for k, x in new.items():
            if not isinstance(k, str):
                raise Gap("attribute name that is not known text")
            if self.owner.attrs.get(k, MISSING) is not x:
                self.owner.put(k, x)


def _r(v, d=[0]):
    if d[0] > 2:
        return "..."
    d[0] += 1
    try:
        return repr(v)
    finally:
        d[0] -= 1


class ClassO(Obj):
    __slots__ = ("name", "bases", "ns", "mro", "module", "node", "meta", "fields", "members", "qual", "opts", "ann")

    def __init__(self, name, bases, ns, module=None, node=None):
        super().__init__()
        self.name, self.bases, self.ns, self.module, self.node = name, tuple(bases), ns, module, node
        self.meta = type
        self.fields = None    # attrs-style fields
        self.members = None   # enum members
        self.opts = {}
        self.ann = {}
        self.qual = (module + "." if module else "") + name
        self.mro = c3(self)

    def get_raw(self, k):
        return self.ns.get(k, MISSING)

    def put_raw(self, k, v):
        if v is MISSING:
            self.ns.pop(k, None)
        else:
            self.ns[k] = v

    def __repr__(self):
        return f"<class {self.qual}>"


def mro_of(c):
    if isinstance(c, ClassO):
        return c.mro
    if isinstance(c, type):
        return list(c.__mro__)
    return [c]


def c3(cls):
    seqs = [list(mro_of(b)) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            break
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Gap("inconsistent class hierarchy")
        out.append(c)
        for t in seqs:
            if t[0] is c:
                del t[0]
    if object not in out:
        out.append(object)
    return out


class FuncO(Obj):
    __slots__ = ("node", "env", "name", "qual", "module", "defaults", "kwdefaults", "isgen", "owner", "attrs", "locals")

    def __init__(self, node, env, name, qual, module):
        super().__init__()
        self.node, self.env, self.name, self.qual, self.module = node, env, name, qual, module
        self.defaults, self.kwdefaults = [], {}
        self.isgen = False
        self.owner = None
        self.attrs = {}

    def get_raw(self, k):
        return self.attrs.get(k, MISSING)

    def put_raw(self, k, v):
        if v is MISSING:
            self.attrs.pop(k, None)
        else:
            self.attrs[k] = v

    def __repr__(self):
        return f"<function {self.qual}>"


class BoundM:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return f"<bound {self.func!r}>"

    def __eq__(self, o):
        return isinstance(o, BoundM) and self.func is o.func and self.self is o.self

    def __hash__(self):
        return hash((id(self.func), id(self.self)))


class Builtin:
    __slots__ = ("name", "fn", "attrs")

    def __init__(self, name, fn, attrs=None):
        self.name, self.fn, self.attrs = name, fn, attrs or {}

    def __repr__(self):
        return f"<builtin {self.name}>"


class PropO:
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class SuperO:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ModuleO(Obj):
    __slots__ = ("name", "env", "ext")

    def __init__(self, name, env, ext=False):
        super().__init__()
        self.name, self.env, self.ext = name, env, ext

    def __repr__(self):
        return f"<module {self.name}>"


class EnumM:
    """Enumeration member"""

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class EnumSym:
    """Some member of an integer enumeration, with its symbolic value"""

    def __init__(self, cls, value):
        self.cls, self.value = cls, value

    def __repr__(self):
        return f"{self.cls.name}({show(self.value)})"

    def __eq__(self, o):
        return isinstance(o, EnumSym) and o.cls is self.cls and o.value == self.value

    def __hash__(self):
        return hash((id(self.cls), self.value))


class Opq:
    """Opaque value: result of an external or uninterpreted operation, identified by how it was computed."""

    def __init__(self, op, args=(), ty=None, attrs=None):
        self.op, self.args, self.ty, self.attrs = op, tuple(args), ty, attrs or {}
        if op == "call" and ty == "any":
            R.unknown += 1

    def __repr__(self):
        return f"{self.op}({', '.join(_s(a) for a in self.args)})"

    def __eq__(self, o):
        return isinstance(o, Opq) and o.op == self.op and o.args == self.args

    def __hash__(self):
        return hash((self.op, self.args))


class ExtObj(Obj):
    """Object of an external library (socket, serial port, logger ...); each operation on it is an effect."""
    __slots__ = ("path", "attrs", "state")

    def __init__(self, path, attrs=None):
        super().__init__()
        self.path, self.attrs, self.state = path, dict(attrs or {}), None

    def get_raw(self, k):
        return self.attrs.get(k, MISSING)

    def put_raw(self, k, v):
        if v is MISSING:
            self.attrs.pop(k, None)
        else:
            self.attrs[k] = v

    def __repr__(self):
        return f"<{self.path}>"


class DT:
    """datetime with abstract fields"""
    FIELDS = ("year", "month", "day", "hour", "minute", "second", "microsecond")

    def __init__(self, f, tz=None):
        self.f, self.tz = tuple(f), tz

    def __repr__(self):
        return "datetime(" + ", ".join(show(x) for x in self.f) + ")"

    def __eq__(self, o):
        return isinstance(o, DT) and self.f == o.f and self.tz == o.tz

    def __hash__(self):
        return hash(self.f)


class OneOf:
    """One of finitely many values, resolved on first use"""

    def __init__(self, name, options):
        self.name, self.options = name, list(options)

    def __repr__(self):
        return f"oneof {self.name}"


class Effect:
    __slots__ = ("kind", "data", "where", "node")

    def __init__(self, kind, data, where, node=None):
        self.kind, self.data, self.where, self.node = kind, data, where, node

    def __repr__(self):
        return f"{self.kind}:{self.data}@{self.where}"
