"""Abstract interpreter over the syntax trees of the analysed package.

The package is never imported or executed: its sources are parsed and their statements are given their meaning
over the abstract values of terms/ropes/heap.  Values are numbers or byte strings *described by how they
are computed from the inputs*; conditions that the known facts do not settle partition the trace.
"""
import ast
import datetime as _datetime
import os
import sys
from .heap import *
from .terms import _s

sys.setrecursionlimit(20000)


class Frame:
    __slots__ = ("func", "name", "line", "module")

    def __init__(self, func, name, module):
        self.func, self.name, self.line, self.module = func, name, 0, module


STACK = []


def where():
    for f in reversed(STACK):
        if f.module is not None:
            return f"{f.module}:{f.name}:{f.line}"
    return "?"


def where_fn():
    for f in reversed(STACK):
        if f.module is not None:
            return f"{f.module}:{f.name}"
    return "?"


def effect(kind, *data):
    R.effects.append(Effect(kind, data, where()))


def throw(cls, *args):
    if R.unknown and cls is TypeError:
        raise Gap(f"{cls.__name__} {args[:1]} after a call that is not modelled")
    e = Inst(cls, {"args": tuple(args)})
    raise PyRaise(mark_exc(e))


def sample(v):
    """A real Python value that behaves as v does where types are checked, or MISSING"""
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    if isinstance(v, Lin):
        return 5
    if isinstance(v, Cond):
        return True
    if isinstance(v, Rope):
        return b"ab" if v.kind == "b" else "ab"
    if isinstance(v, BArr):
        return bytearray(b"ab")
    if isinstance(v, (tuple, ListO)):
        items = v if isinstance(v, tuple) else v.items
        if any(isinstance(x, LSeg) for x in items):
            return MISSING
        out = [sample(x) for x in items]
        return MISSING if any(x is MISSING for x in out) else tuple(out) if isinstance(v, tuple) else out
    if isinstance(v, SetO):
        return frozenset() if v.frozen else set()
    if isinstance(v, DictO):
        return {}
    if isinstance(v, RangeV):
        return range(2)
    if isinstance(v, (EnumM, EnumSym)):
        return 5 if is_int_enum(v.cls) else object() if not any(isinstance(b, type) and b is not object for b in v.cls.mro) else MISSING
    if isinstance(v, (FuncO, BoundM)):
        return lambda: None
    if isinstance(v, Opq) and v.ty == "float":
        return 0.5
    if isinstance(v, Opq) and v.ty == "int":
        return 5
    if isinstance(v, DT) or isinstance(v, Opq) and v.ty == "datetime.datetime":
        return _datetime.datetime(2020, 1, 1)
    if isinstance(v, Opq) and v.ty == "datetime.timedelta":
        return _datetime.timedelta(1)
    if isinstance(v, Inst) and isinstance(v.cls, ClassO):
        if isinstance(v.payload, tuple):
            return sample(v.payload)
        if v.payload is not None or v.cls.fields is not None:
            return MISSING
        for b in v.cls.mro:
            if isinstance(b, type) and b is not object or isinstance(b, ClassO) and any(str(n).startswith("__") and n not in PLAIN_DUNDERS for n in b.ns):
                return MISSING
        return object()
    return MISSING


PLAIN_DUNDERS = {"__init__", "__module__", "__qualname__", "__doc__", "__annotations__", "__repr__", "__str__", "__dict__",
                 "__slots__", "__weakref__", "__new__", "__init_subclass__", "__post_init__", "__attrs_post_init__"}


def bad_type(probe, msg, *vals):
    """A TypeError where Python gives one for values of these types; a gap in the model otherwise"""
    xs = [sample(v) for v in vals]
    if not any(x is MISSING for x in xs):
        try:
            probe(*xs)
        except TypeError:
            throw(TypeError, msg)
        except Exception:
            pass
    raise Gap(f"not modelled: {msg}")


def mark_exc(e):
    if "·at" not in e.attrs:
        e.attrs["·at"] = where()
    return e


# ------------------------------------------------------------------ numbers and truth

def is_int_enum(c):
    return isinstance(c, ClassO) and any(b is int for b in c.mro)


def num(v):
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, Lin):
        return v
    if isinstance(v, EnumM) and is_int_enum(v.cls):
        return v.value
    if isinstance(v, EnumSym) and is_int_enum(v.cls):
        return v.value
    if isinstance(v, Cond):
        return cond_int(v)
    if isinstance(v, Inst) and v.payload is not None and isinstance(v.payload, (int, Lin)):
        return v.payload
    return None


def cond_bit(c):
    """Algebraic normal form of a condition over the bits of its quantities, or None"""
    try:
        return cond_bit0(c)
    except Gap:
        return None


def cond_bit0(c):
    k = c.k[0]
    if k == "not":
        b = cond_bit(c.k[1])
        return None if b is None else bnot(b)
    if k == "and":
        r = ONE
        for x in c.k[1]:
            b = cond_bit(x)
            if b is None:
                return None
            r = band(r, b)
        return r
    if k == "mask":
        _, a, m = c.k
        return mask_bit(a, m)
    if k == "eq":
        bs = to_bits(c.k[1])
        if bs is not None and len(bs) <= 1:
            return bnot(bs[0] if bs else ZERO)
        bb = sorted(bases(c.k[1]))
        if len(bb) == 1 and bb[0].op in ("h", "fold", "bvh") and bb[0].hi is not None and bb[0].hi <= 0xFFFF:
            v = c.k[1]
            # a test of a few bits of a wider quantity
            if v.c == 0 and len(v.t) == 1:
                bs = to_bits(v)
                if bs is not None and len(bs) <= 12:
                    r = ONE
                    for b in bs:
                        r = band(r, bnot(b))
                    return r
        if bs is not None and len(bs) <= 10:
            try:
                r = ONE
                for b in bs:
                    r = band(r, bnot(b))
                return r
            except Gap:
                return None
    return None


_mb = {}


def mask_bit(a, m):
    key = (a, m)
    if key in _mb:
        return _mb[key]
    n = max(1, a.hi.bit_length())
    f = [m >> x & 1 for x in range(1 << n)]
    full = full_mask(a)
    # free choice outside the domain: try single bits first
    dom = [x for x in range(a.lo, a.hi + 1) if full >> x & 1]
    res = None
    for i in range(n):
        if all((x >> i & 1) == (m >> x & 1) for x in dom):
            res = bitvar(a, i)
            break
        if all((x >> i & 1) != (m >> x & 1) for x in dom):
            res = bnot(bitvar(a, i))
            break
    if res is None:
        g = list(f)
        for i in range(n):
            for x in range(1 << n):
                if x >> i & 1:
                    g[x] ^= g[x ^ (1 << i)]
        mono = []
        for x in range(1 << n):
            if g[x]:
                mono.append(frozenset((a, i) for i in range(n) if x >> i & 1))
        res = frozenset(mono)
    _mb[key] = res
    return res


def cond_int(c):
    b = cond_bit(c)
    if b is not None and len(b) <= 64:
        return from_bits([b])
    return 1 if decide(c) else 0


def lin_truth(v):
    return c_not(eq0(v))


def truthc(v):
    """bool or Cond, no trace partitioning for basic values"""
    if isinstance(v, Cond):
        return v
    if v is None or isinstance(v, (bool, int, float, str, bytes, tuple, complex)):
        return bool(v)
    n = num(v)
    if n is not None:
        return lin_truth(n) if isinstance(n, Lin) else bool(n)
    if isinstance(v, Rope):
        return ge(rlen(v), 1)
    if isinstance(v, BArr):
        return truthc(v.v)
    if isinstance(v, ListO):
        if not any(isinstance(x, LSeg) for x in v.items):
            return bool(v.items)
        if any(not isinstance(x, LSeg) for x in v.items):
            return True
        return c_not(c_and([eq0(x.n) for x in v.items]))
    if isinstance(v, DictO):
        return bool(v.d)
    if isinstance(v, Inst):
        if v.payload is not None:
            return truthc(v.payload)
        if isinstance(v.cls, ClassO):
            f = class_lookup(v.cls, "__bool__")
            if f is not MISSING:
                return truthc(call(BoundM(f, v), [], {}))
            f = class_lookup(v.cls, "__len__")
            if f is not MISSING:
                return truthc(call(BoundM(f, v), [], {}))
        return True
    if isinstance(v, Opq):
        if v.ty in ("float",):
            return pred("nonzero", v)
        if v.ty == "any":
            return pred("truth", v)
        return True
    if isinstance(v, Poison):
        raise Gap(f"use of loop temporary {v!r}")
    if isinstance(v, RangeV):
        return truthc(v.length())
    return True


def truth(v):
    c = truthc(v)
    return c if isinstance(c, bool) else decide(c)


class RangeV:
    def __init__(self, a, b, s=1):
        self.a, self.b, self.s = a, b, s

    def length(self):
        if isinstance(self.a, int) and isinstance(self.b, int) and isinstance(self.s, int):
            return len(range(self.a, self.b, self.s))
        d = sub(self.b, self.a)
        if self.s == 1:
            return d if decide(ge(d, 0)) else 0
        if isinstance(self.s, int) and self.s > 1:
            return div(add(d, self.s - 1), self.s) if decide(ge(d, 0)) else 0
        if self.s == -1:
            d = mulc(d, -1)
            return d if decide(ge(d, 0)) else 0
        raise Gap("range with this step")

    def at(self, i):
        return add(self.a, mulc(i, self.s))

    def __repr__(self):
        return f"range({_s(self.a)}, {_s(self.b)}, {self.s})"


class IterO(Obj):
    """Iterator: kind seq(data, idx) | enum(sub, start) | zip(subs) | map(f, subs) | filter(f, sub) | call(f, sentinel)"""
    __slots__ = ("kind", "data", "idx")

    def __init__(self, kind, data, idx=0):
        super().__init__()
        self.kind, self.data, self.idx = kind, data, idx

    def get_raw(self, k):
        return self.data if k == "data" else self.idx

    def put_raw(self, k, v):
        if k == "data":
            self.data = v
        else:
            self.idx = v


class SliceV:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class CellEnv:
    pass


# ------------------------------------------------------------------ payloads

def txt(v):
    """Underlying text / bytes of a value, or None"""
    if isinstance(v, (str, bytes, Rope)):
        return v
    if isinstance(v, BArr):
        return v.v
    if isinstance(v, Inst) and v.payload is not None and is_str(v.payload):
        return v.payload
    return None


# ------------------------------------------------------------------ class machinery

def class_lookup(c, name):
    for k in mro_of(c):
        if isinstance(k, ClassO):
            if name in k.ns:
                return k.ns[name]
    return MISSING


def class_lookup_after(c, after, name):
    m = mro_of(c)
    i = m.index(after) + 1
    for k in m[i:]:
        if isinstance(k, ClassO):
            if name in k.ns:
                return k.ns[name], k
        elif isinstance(k, type) and k is not object and name in k.__dict__:
            return ("native", k, name), k
    return MISSING, None


def subclass(c, d):
    if isinstance(c, ClassO):
        if isinstance(d, ClassO):
            return d in c.mro
        if isinstance(d, type):
            return any(isinstance(k, type) and issubclass(k, d) for k in c.mro)
        return False
    if isinstance(c, type) and isinstance(d, type):
        return issubclass(c, d)
    return False


def type_of(v):
    if isinstance(v, Inst):
        return v.cls
    if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
        return type(v)
    if isinstance(v, Lin):
        return int
    if isinstance(v, Cond):
        return bool
    if isinstance(v, Rope):
        return bytes if v.kind == "b" else str
    if isinstance(v, BArr):
        return bytearray
    if isinstance(v, ListO):
        return list
    if isinstance(v, SetO):
        return frozenset if v.frozen else set
    if isinstance(v, DictO):
        return dict
    if isinstance(v, (EnumM, EnumSym)):
        return v.cls
    if isinstance(v, ClassO):
        m = v.opts.get("·class")
        return m if m is not None else v.meta
    if isinstance(v, type):
        return type
    if isinstance(v, (FuncO, BoundM, Builtin)):
        return FUNCTION_TYPE
    if isinstance(v, DT):
        return models.EXTCLASS["datetime.datetime"]
    if isinstance(v, RangeV):
        return range
    if isinstance(v, Opq):
        if v.ty == "float":
            return float
        if v.ty is not None and v.ty in models.EXTCLASS:
            return models.EXTCLASS[v.ty]
        return Opq("type", (v,))
    if isinstance(v, ExtObj):
        return models.EXTCLASS.get(v.path, Opq("type", (v.path,)))
    if isinstance(v, ModuleO):
        return Opq("type", ("module",))
    return Opq("type", (str(type(v)),))


FUNCTION_TYPE = Opq("type", ("function",))


def isinst(v, c):
    if isinstance(c, tuple):
        r = False
        for x in c:
            y = isinst(v, x)
            if y is True:
                return True
        return r
    if isinstance(c, Opq):
        if c.op == "typing":
            nm = c.args[0].split(".")[-1]
            if nm in ("Callable",):
                return isinstance(v, (FuncO, BoundM, Builtin, ClassO, type))
            mp = {"List": list, "Dict": dict, "Tuple": tuple, "Set": set, "Type": type}
            if nm in mp:
                return isinst(v, mp[nm])
            if nm in ("Mapping",):
                return isinst(v, dict)
            if nm in ("Iterable", "Sequence", "Collection"):
                return isinstance(v, (ListO, tuple, Rope, bytes, str, BArr, DictO, SetO, RangeV, IterO))
        if c.op == "ext" and c.args[0].startswith("collections.abc."):
            return isinst(v, Opq("typing", (c.args[0],)))
        if isinstance(v, (type(None), bool, int, float, str, bytes, tuple, Lin, Rope, BArr, ListO, DictO, DT, Cond)):
            return False
        if isinstance(v, ExtObj):
            return c.op == "ext" and c.args[0] == v.path
        raise Gap(f"isinstance of {v!r} and {c!r}")
    t = type_of(v)
    if isinstance(t, Opq):
        if isinstance(v, Opq) and v.ty == "any":
            return decide(pred("isinstance", v, c if isinstance(c, (type, ClassO)) else str(c)))
        return c is object
    if isinstance(t, ClassO) and t.opts.get("proto") and False:
        return False
    if isinstance(c, ClassO) and c.opts.get("protocol"):
        return False
    return subclass(t, c)


def set_class_var(cls, name, v):
    cls.put(name, v)


# ------------------------------------------------------------------ attribute access

def bind(attr, obj, cls):
    if isinstance(attr, FuncO):
        return BoundM(attr, obj)
    if isinstance(attr, Builtin):
        if attr.attrs.get("method"):
            return BoundM(attr, obj)
        return attr
    if isinstance(attr, PropO):
        if attr.cached and isinstance(obj, Inst):
            nm = attr.fget.name
            v = call(attr.fget, [obj], {})
            obj.put(nm, v)
            return v
        return call(attr.fget, [obj], {})
    if isinstance(attr, StaticM):
        return attr.f
    if isinstance(attr, ClassM):
        return BoundM(attr.f, cls)
    if isinstance(attr, Inst) and isinstance(attr.cls, ClassO):
        g = class_lookup(attr.cls, "__get__")
        if g is not MISSING:
            return call(BoundM(g, attr), [obj, cls], {})
    return attr


def getattr_(v, name, default=MISSING):
    try:
        return getattr0(v, name)
    except PyRaise as e:
        if default is not MISSING and e.inst.cls is AttributeError:
            return default
        raise


def attr_error(v, name):
    if isinstance(v, Inst) and isinstance(v.cls, ClassO):
        for b in v.cls.mro:
            if isinstance(b, type) and hasattr(b, name):
                raise Gap(f"not modelled: {b.__name__}.{name}")
        throw(AttributeError, f"{v.cls.name} has no attribute {name}")
    x = sample(v)
    if x is MISSING or hasattr(x, name):
        if isinstance(v, (Opq, ExtObj, ModuleO)):
            raise Gap(f"not modelled: attribute {name} of {type_of(v)!r}")
        if x is not MISSING:
            raise Gap(f"not modelled: {type(x).__name__}.{name}")
    throw(AttributeError, f"no attribute {name}")


def getattr0(v, name):
    if isinstance(v, Poison):
        raise Gap(f"use of loop temporary {v!r}")
    if isinstance(v, Inst):
        if isinstance(v.cls, ClassO):
            a = class_lookup(v.cls, name)
            if isinstance(a, PropO) and not (a.cached and name in v.attrs):
                return bind(a, v, v.cls)
            if name in v.attrs:
                return v.attrs[name]
            if a is not MISSING:
                return bind(a, v, v.cls)
            if name == "__class__":
                return v.cls
            if name == "__dict__":
                return AttrsView(v, models.key)
            ga = class_lookup(v.cls, "__getattr__")
            if ga is not MISSING:
                return call(BoundM(ga, v), [name], {})
        elif name in v.attrs:
            return v.attrs[name]
        if v.payload is not None:
            return getattr0(v.payload, name)
        if subclass(v.cls, BaseException):
            if name == "args":
                return v.attrs.get("args", ())
            if name in ("__cause__", "__context__", "__traceback__"):
                return v.attrs.get(name, None)
            if name == "with_traceback":
                return Builtin("with_traceback", lambda tb: v)
            if name in ("errno", "strerror"):
                return Opq("exc." + name, (), ty="any")
        if name in ("__init__",):
            return Builtin("object.__init__", lambda *a, **k: None)
        if name in ("__repr__", "__str__"):
            return Builtin(name, lambda: models.b_repr(v))
        if name == "__eq__":
            return Builtin(name, lambda o: models.equal(v, o))
        if name in ("__attrs_attrs__",):
            return tuple(f.name for f in v.cls.fields or ())
        m = models.ext_method(v, name)
        if m is not None:
            return m
        attr_error(v, name)
    if isinstance(v, ClassO):
        if v.meta is not type and isinstance(v.meta, ClassO) and name not in ("__name__",):
            a = class_lookup(v.meta, name)
            if isinstance(a, PropO):
                return bind(a, v, v.meta)
        if v.members is not None:
            if name in v.members:
                return v.members[name]
            if name == "__members__":
                return DictO({models.key(k): (k, m) for k, m in v.members.items()})
        a = class_lookup(v, name)
        if a is not MISSING:
            if isinstance(a, StaticM):
                return a.f
            if isinstance(a, ClassM):
                return BoundM(a.f, v)
            if isinstance(a, Inst) and isinstance(a.cls, ClassO) and class_lookup(a.cls, "__get__") is not MISSING:
                return bind(a, None, v)
            return a
        if name in ("__name__", "__qualname__"):
            return v.name
        if name == "__module__":
            return v.module
        if name == "__mro__":
            return tuple(v.mro)
        if name == "__bases__":
            return v.bases
        if name == "__doc__":
            return None
        if name == "__class__":
            return type_of(v)
        if name == "__annotations__":
            return DictO({models.key(k): (k, Opq("annotation", (k,))) for k in v.ann})
        if name == "__dict__":
            return DictO({models.key(k): (k, x) for k, x in v.ns.items()})
        if name == "__subclasses__":
            subs = [c for c in ALL_CLASSES if v in c.bases]
            return Builtin("__subclasses__", lambda: ListO(subs))
        if name == "mro":
            return Builtin("mro", lambda: ListO(v.mro))
        if v.meta is not type and isinstance(v.meta, ClassO):
            a = class_lookup(v.meta, name)
            if a is not MISSING:
                return bind(a, v, v.meta)
        m = models.class_attr(v, name)
        if m is not None:
            return m
        for k in v.mro:
            if isinstance(k, type):
                m = models.type_attr(k, name, v)
                if m is not None:
                    return m
        attr_error(v, name)
    if isinstance(v, ModuleO):
        a = v.env.vars.get(name, MISSING)
        if a is not MISSING:
            return a
        if not v.ext:
            sub_ = LOADER.submodule(v.name, name)
            if sub_ is not None:
                return sub_
            if name == "__name__":
                return v.name
            throw(AttributeError, f"module {v.name} has no attribute {name}")
        return models.ext_attr(v, name)
    if isinstance(v, SuperO):
        a, k = class_lookup_after(type_of(v.obj) if not isinstance(v.obj, ClassO) else v.obj, v.cls, name)
        if a is MISSING:
            if name == "__init__":
                def init(*args, **kw):
                    if isinstance(v.obj, Inst) and subclass(v.obj.cls, BaseException):
                        v.obj.put("args", tuple(args))
                return Builtin("object.__init__", init)
            if name == "__new__":
                return Builtin("__new__", lambda c, *a, **k: models.raw_new(c, a, k))
            if name in ("__repr__", "__str__"):
                return Builtin(name, lambda: models.base_repr(v.obj))
            if name == "__setattr__":
                return Builtin(name, lambda n, x: setattr_raw(v.obj, n, x))
            if name == "__init_subclass__":
                return Builtin(name, lambda **k: None)
            if isinstance(v.obj, Inst) and v.obj.payload is not None:
                return getattr0(v.obj.payload, name)
            m = models.ext_method(v.obj, name)
            if m is not None:
                return m
            throw(AttributeError, f"super has no attribute {name}")
        if isinstance(a, tuple) and a and a[0] == "native":
            if name in ("__repr__", "__str__"):
                return Builtin(name, lambda: models.base_repr(v.obj))
            if name == "__new__":
                return Builtin("__new__", lambda c, *a, **k: models.raw_new(c, a, k))
            if name == "__init__":
                def init2(*args, **kw):
                    if isinstance(v.obj, Inst) and subclass(v.obj.cls, BaseException):
                        v.obj.put("args", tuple(args))
                return Builtin("init", init2)
            if isinstance(v.obj, Inst) and v.obj.payload is not None:
                return getattr0(v.obj.payload, name)
            if name == "__setattr__":
                return Builtin(name, lambda n, x: setattr_raw(v.obj, n, x))
            raise Gap(f"super().{name} of {k}")
        return bind(a, v.obj, type_of(v.obj) if not isinstance(v.obj, ClassO) else v.obj)
    if isinstance(v, FuncO):
        if name in ("__name__", "__qualname__"):
            return v.attrs.get(name, v.name)
        if name in v.attrs:
            return v.attrs[name]
        if name in ("__doc__",):
            return None
        if name == "__wrapped__":
            throw(AttributeError, name)
        if name == "__module__":
            return v.module
        if name == "__get__":
            return Builtin("__get__", lambda o, c=None: BoundM(v, o))
        if name == "__dict__":
            return DictO()
        throw(AttributeError, f"function has no attribute {name}")
    if isinstance(v, BoundM):
        if name == "__self__":
            return v.self
        if name == "__func__":
            return v.func
        return getattr0(v.func, name)
    if isinstance(v, Builtin):
        if name in v.attrs:
            return v.attrs[name]
        if name in ("__name__", "__qualname__"):
            return v.name
        throw(AttributeError, f"builtin {v.name} has no attribute {name}")
    if isinstance(v, (EnumM, EnumSym)):
        if name == "value" or name == "_value_":
            return v.value
        if name == "name" or name == "_name_":
            if isinstance(v, EnumM):
                return v.name
            return rope("s", segs(whole(src("s", "enumname", v.cls.qual, v.value))))
        a = class_lookup(v.cls, name)
        if a is not MISSING:
            return bind(a, v, v.cls)
        if name == "__class__":
            return v.cls
        if is_int_enum(v.cls):
            return getattr0(v.value, name)
        attr_error(v, name)
    if isinstance(v, PropO):
        if name == "setter":
            return Builtin("setter", lambda f: PropO(v.fget, f))
        if name == "getter":
            return Builtin("getter", lambda f: PropO(f, v.fset))
        if name == "fget":
            return v.fget
    if isinstance(v, (StaticM, ClassM)):
        if name == "__func__":
            return v.f
    m = models.method(v, name)
    if m is not None:
        return m
    attr_error(v, name)


def setattr_raw(o, name, val):
    o.put(name, val)


def setattr_(o, name, val):
    if isinstance(o, Inst) and isinstance(o.cls, ClassO):
        sa = class_lookup(o.cls, "__setattr__")
        if isinstance(sa, FuncO):
            call(BoundM(sa, o), [name, val], {})
            return
        a = class_lookup(o.cls, name)
        if isinstance(a, PropO):
            if a.cached:
                o.put(name, val)
                return
            if a.fset is None:
                throw(AttributeError, f"can't set {name}")
            call(a.fset, [o, val], {})
            return
        if o.cls.opts.get("frozen"):
            throw(AttributeError, "frozen instance")
        if o.cls.fields is not None and o.cls.opts.get("on_setattr"):
            for f in o.cls.fields:
                if f.name == name:
                    val = models.convert_validate(o, f, val, o.cls.opts["on_setattr"])
        o.put(name, val)
        return
    if isinstance(o, Inst):
        o.put(name, val)
        return
    if isinstance(o, ClassO):
        if name == "__class__":
            o.opts["·class"] = val
            return
        effect("classwrite", o, name, val)
        o.put(name, val)
        return
    if isinstance(o, ExtObj):
        effect("extset", o, name, val)
        o.put(name, val)
        return
    if isinstance(o, FuncO):
        o.put(name, val)
        return
    if isinstance(o, ModuleO):
        effect("modwrite", o.name, name, val)
        o.env.put(name, val)
        return
    if isinstance(o, BoundM) or o is None or isinstance(o, (int, str, bytes, tuple, Rope, Lin)):
        throw(AttributeError, f"can't set {name}")
    raise Gap(f"attribute assignment on {o!r}")


# ------------------------------------------------------------------ calls

MAXDEPTH = 120
SUMMARIES = {}     # qualified function name -> model(func, args, kwargs) or None to interpret
CALL_HOOKS = []    # observers: fn(func, args, kwargs) for every interpreted call


def call(f, args, kwargs):
    if isinstance(f, BoundM):
        return call(f.func, [f.self] + list(args), kwargs)
    if isinstance(f, FuncO):
        return call_func(f, list(args), dict(kwargs))
    if isinstance(f, Builtin):
        return call_builtin(f, args, kwargs)
    if isinstance(f, ClassO):
        return instantiate(f, list(args), dict(kwargs))
    if isinstance(f, type):
        return models.call_type(f, list(args), dict(kwargs))
    if isinstance(f, StaticM):
        return call(f.f, args, kwargs)
    if isinstance(f, Inst) and isinstance(f.cls, ClassO):
        c = class_lookup(f.cls, "__call__")
        if c is not MISSING:
            return call(c, [f] + list(args), kwargs)
        throw(TypeError, f"{f.cls.name} object is not callable")
    if isinstance(f, Opq):
        return models.call_opaque(f, list(args), dict(kwargs))
    if isinstance(f, ExtObj):
        return models.call_ext(f, "__call__", list(args), dict(kwargs))
    if isinstance(f, Poison):
        raise Gap(f"call of loop temporary {f!r}")
    if f is None or isinstance(f, (int, str, bytes, tuple, Lin, Rope, BArr, ListO, DictO, EnumM)):
        throw(TypeError, f"{f!r} is not callable")
    raise Gap(f"call of {f!r}")


def call_builtin(f, args, kwargs):
    try:
        return f.fn(*args, **kwargs)
    except TypeError as e:
        if "argument" in str(e) and e.__traceback__.tb_next is None:
            raise Gap(f"call of {f.name} with {len(args)} arguments, {sorted(kwargs)}: {e}")
        raise


def bind_args(f, args, kwargs):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    n = len(names)
    if len(args) > n:
        if a.vararg is None:
            throw(TypeError, f"{f.qual}() takes {n} positional arguments but {len(args)} were given")
        out[a.vararg.arg] = tuple(args[n:])
        args = args[:n]
    elif a.vararg is not None:
        out[a.vararg.arg] = ()
    for k, v in zip(names, args):
        out[k] = v
    extra = {}
    kwnames = {x.arg for x in a.kwonlyargs}
    pos = {x.arg for x in a.posonlyargs}
    for k, v in kwargs.items():
        if (k in names and k not in pos) or k in kwnames:
            if k in out:
                throw(TypeError, f"{f.qual}() got multiple values for argument {k!r}")
            out[k] = v
        elif a.kwarg is not None:
            extra[k] = v
        else:
            throw(TypeError, f"{f.qual}() got an unexpected keyword argument {k!r}")
    if a.kwarg is not None:
        out[a.kwarg.arg] = DictO({models.key(k): (k, v) for k, v in extra.items()})
    d = f.defaults
    for i, k in enumerate(names):
        if k not in out:
            j = i - (n - len(d))
            if j >= 0:
                out[k] = d[j]
            else:
                throw(TypeError, f"{f.qual}() missing required argument {k!r}")
    for x in a.kwonlyargs:
        if x.arg not in out:
            if x.arg in f.kwdefaults:
                out[x.arg] = f.kwdefaults[x.arg]
            else:
                throw(TypeError, f"{f.qual}() missing keyword argument {x.arg!r}")
    return out


def call_func(f, args, kwargs):
    s = SUMMARIES.get(f.qual)
    if s is not None:
        return s(f, args, kwargs)
    for h in CALL_HOOKS:
        h(f, args, kwargs)
    bound = bind_args(f, args, kwargs)
    if PHI and PHI_OK(f, bound):
        return phi_call(f, bound)
    return run_func(f, bound)


def run_func(f, bound):
    env = Env(f.env, "func", f.qual)
    env.vars.update(bound)
    env.locals_ = None
    if len(STACK) > MAXDEPTH:
        raise Gap(f"call depth exceeds {MAXDEPTH} at {f.qual}")
    fr = Frame(f, f.name, f.module)
    STACK.append(fr)
    sd = len(STACK)
    try:
        if isinstance(f.node, ast.Lambda):
            fr.line = f.node.lineno
            return ev_expr(f.node.body, env)
        if f.isgen:
            env.vars["·yield"] = ListO()
            try:
                run_block(f.node.body, env)
            except ReturnE:
                pass
            return IterO("seq", env.vars["·yield"])
        run_block(f.node.body, env)
        return None
    except ReturnE as r:
        return r.v
    finally:
        del STACK[sd - 1:]


# functions whose result is kept as "one of these values, by condition"
PHI = []


def PHI_OK(f, bound):
    return f.qual in PHI


class Phi:
    __slots__ = ("alts",)


def phi_call(f, bound):
    """Merge the traces of a pure function returning text/bytes into one conditional value."""
    eff = len(R.effects)
    paths = explore(lambda: run_func(f, dict(bound)), limit=64)
    if any(p.kind != "ret" or not is_str(p.value) or any(e.kind != "log" for e in p.effects) for p in paths) or not paths:
        return run_func(f, bound)
    n0 = len(R.facts.log)
    alts = []
    for p in paths:
        alts.append((tuple(p.facts.log[n0:]), p.value))
    if len(alts) == 1:
        return alts[0][1]
    k = kind_of(alts[0][1])
    if any(kind_of(a[1]) != k for a in alts):
        return run_func(f, bound)
    s = src(k, "phi", tuple(alts))
    return whole(s)


def expand_phi(v):
    """All (assumptions, value) alternatives of a rope that consists of one conditional value."""
    if isinstance(v, Rope) and len(v.segs) == 1 and v.segs[0][0] == "s" and v.segs[0][1].op == "phi":
        g = v.segs[0]
        if g[2] == 0 and g[3] == g[1].len:
            return list(g[1].args[0])
    return [((), v)]


def force(v):
    """Resolve conditional values (partitions the trace)."""
    if isinstance(v, Rope) and any(g[0] == "s" and g[1].op == "phi" for g in v.segs):
        out = []
        for g in v.segs:
            if g[0] == "s" and g[1].op == "phi":
                if not (g[2] == 0 and g[3] == g[1].len):
                    raise Gap("part of a conditional value")
                alts = g[1].args[0]
                i = choose(len(alts), ("phi", g[1]))
                for c, t in alts[i][0]:
                    if not R.facts.assume(c, t):
                        raise Infeasible()
                for c, t in alts[i][0]:
                    if R.facts.decide(c) is (not t):
                        raise Infeasible()
                out.extend(segs(alts[i][1]))
            else:
                out.append(g)
        return rope(v.kind, out)
    return v


def instantiate(cls, args, kwargs):
    if isinstance(cls.meta, ClassO):
        c = class_lookup(cls.meta, "__call__")
        if c is not MISSING:
            return call(c, [cls] + args, kwargs)
    return models.instantiate(cls, args, kwargs)


# ------------------------------------------------------------------ statements

def run_block(stmts, env):
    for s in stmts:
        run_stmt(s, env)


def run_stmt(s, env):
    R.steps += 1
    if R.steps > STEP_LIMIT[0]:
        raise Gap("analysis step limit")
    STACK[-1].line = s.lineno
    return STMT[type(s)](s, env)


STEP_LIMIT = [60_000_000]


def s_expr(s, env):
    ev_expr(s.value, env)


def s_pass(s, env):
    pass


def s_assign(s, env):
    v = ev_expr(s.value, env)
    for t in s.targets:
        assign(t, v, env)


def s_annassign(s, env):
    if env.kind == "class" and isinstance(s.target, ast.Name):
        env.ann[s.target.id] = s.annotation
    if s.value is not None:
        assign(s.target, ev_expr(s.value, env), env)


def s_augassign(s, env):
    t = s.target
    if isinstance(t, ast.Name):
        cur = lookup(t.id, env)
        new = inplace(s.op, cur, ev_expr(s.value, env))
        assign(t, new, env)
    elif isinstance(t, ast.Attribute):
        o = ev_expr(t.value, env)
        cur = getattr_(o, t.attr)
        setattr_(o, t.attr, inplace(s.op, cur, ev_expr(s.value, env)))
    else:
        o = ev_expr(t.value, env)
        i = ev_index(t.slice, env)
        cur = models.getitem(o, i)
        models.setitem(o, i, inplace(s.op, cur, ev_expr(s.value, env)))


def inplace(op, a, b):
    if isinstance(a, BArr) and isinstance(op, ast.Add):
        models.barr_extend(a, b)
        return a
    if isinstance(a, ListO) and isinstance(op, ast.Add):
        models.list_extend(a, b)
        return a
    if isinstance(a, SetO) and isinstance(op, ast.BitOr):
        d = dict(a.d)
        d.update(b.d)
        a.set(d)
        return a
    if isinstance(a, DictO) and isinstance(op, ast.BitOr):
        d = dict(a.d)
        d.update(b.d)
        a.set(d)
        return a
    if isinstance(a, Inst) and isinstance(a.cls, ClassO):
        nm = {ast.Add: "__iadd__", ast.BitOr: "__ior__", ast.BitXor: "__ixor__"}.get(type(op))
        f = class_lookup(a.cls, nm) if nm else MISSING
        if f is not MISSING:
            return call(BoundM(f, a), [b], {})
    return models.binop(op, a, b)


def assign(t, v, env):
    if isinstance(t, ast.Name):
        bindname(t.id, v, env)
    elif isinstance(t, ast.Attribute):
        setattr_(ev_expr(t.value, env), t.attr, v)
    elif isinstance(t, ast.Subscript):
        o = ev_expr(t.value, env)
        models.setitem(o, ev_index(t.slice, env), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        n = len(t.elts)
        items = models.unpack(v, n if not star else None)
        if star:
            i = star[0]
            if len(items) < n - 1:
                throw(ValueError, "not enough values to unpack")
            k = len(items) - (n - 1)
            for e, x in zip(t.elts[:i], items[:i]):
                assign(e, x, env)
            assign(t.elts[i].value, ListO(items[i:i + k]), env)
            for e, x in zip(t.elts[i + 1:], items[i + k:]):
                assign(e, x, env)
        else:
            if len(items) != n:
                throw(ValueError, f"expected {n} values to unpack, got {len(items)}")
            for e, x in zip(t.elts, items):
                assign(e, x, env)
    else:
        raise Gap(f"assignment target {type(t).__name__}")


def bindname(name, v, env):
    if env.kind == "comp":
        # walrus in comprehension goes outwards; loop targets are set directly
        env.put(name, v)
        return
    if name in env.globals:
        g = env
        while g.parent is not None:
            g = g.parent
        effect("globalwrite", name, g.name, v)
        g.put(name, v)
        return
    if name in env.nonlocals:
        e = env.parent
        while e is not None:
            if e.kind != "class" and name in e.vars:
                e.put(name, v)
                return
            e = e.parent
    env.put(name, v)


_locals = {}


def local_names(fnode):
    r = _locals.get(fnode)
    if r is None:
        r = set()
        skip = set()

        def walk(n, top=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
                r.add(n.name)
                return
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and not top:
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        r.add(x.target.id)
                return
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                r.add(n.name)
            if isinstance(n, ast.alias):
                r.add((n.asname or n.name).split(".")[0])
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                r.add(n.name)
            for c in ast.iter_child_nodes(n):
                walk(c)

        if isinstance(fnode, ast.Lambda):
            pass
        else:
            for s in fnode.body:
                walk(s)
        r -= skip
        _locals[fnode] = r
    return r


def lookup(name, env):
    e = env
    first = True
    while e is not None:
        if e.kind == "class" and not first:
            e = e.parent
            continue
        if name in e.globals:
            while e.parent is not None:
                e = e.parent
        v = e.vars.get(name, MISSING)
        if v is not MISSING:
            if isinstance(v, Poison):
                raise Gap(f"use of loop temporary {name}: {v!r}")
            return v
        if e.kind == "func" and first and STACK and STACK[-1].func is not None:
            fn = STACK[-1].func
            if fn.qual == e.name and name in local_names(fn.node) and name not in e.nonlocals and name not in e.globals:
                throw(UnboundLocalError, f"local variable {name!r} referenced before assignment")
        if e.kind != "comp":
            first = False
        e = e.parent
    v = models.BUILTINS.get(name, MISSING)
    if v is MISSING:
        throw(NameError, f"name {name!r} is not defined")
    return v


def s_return(s, env):
    raise ReturnE(None if s.value is None else ev_expr(s.value, env))


def s_raise(s, env):
    if s.exc is None:
        cur = CUR_EXC[-1] if CUR_EXC else None
        if cur is None:
            throw(RuntimeError, "No active exception to reraise")
        raise PyRaise(cur)
    e = ev_expr(s.exc, env)
    if isinstance(e, (ClassO, type)):
        e = call(e, [], {})
    if not isinstance(e, Inst) or not subclass(e.cls, BaseException):
        throw(TypeError, "exceptions must derive from BaseException")
    if s.cause is not None:
        c = ev_expr(s.cause, env)
        e.put("__cause__", c)
    if CUR_EXC:
        e.put("__context__", CUR_EXC[-1])
    mark_exc(e)
    e.attrs["·at"] = where()
    raise PyRaise(e)


CUR_EXC = []


def exc_match(inst, t):
    if isinstance(t, tuple):
        return any(exc_match(inst, x) for x in t)
    if isinstance(t, Opq):
        raise Gap(f"unknown exception class {t!r}")
    return subclass(inst.cls, t)


def s_try(s, env):
    sd = len(STACK)
    cd = len(CUR_EXC)

    def inner():
        try:
            run_block(s.body, env)
        except PyRaise as e:
            del STACK[sd:]
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    ok = exc_match(e.inst, ev_expr(h.type, env))
                if ok:
                    effect("caught", e.inst, where())
                    if h.name:
                        bindname(h.name, e.inst, env)
                    CUR_EXC.append(e.inst)
                    try:
                        run_block(h.body, env)
                    finally:
                        del CUR_EXC[cd:]
                    if h.name:
                        env.put(h.name, MISSING)
                    return
            raise
        else:
            run_block(s.orelse, env)

    if not s.finalbody:
        inner()
        return
    pend = None
    try:
        inner()
    except (PyRaise, ReturnE, BreakE, ContinueE, models.ext.WithExit) as e:
        pend = e
    del STACK[sd:]
    if isinstance(pend, PyRaise):
        CUR_EXC.append(pend.inst)
    try:
        run_block(s.finalbody, env)
    finally:
        del CUR_EXC[cd:]
    if pend is not None:
        raise pend


def s_if(s, env):
    c = truthc(ev_expr(s.test, env))
    if isinstance(c, Cond):
        k = R.facts.decide(c)
        if k is None:
            if simple_block(s.body) and simple_block(s.orelse):
                b = mergeable_bit(c)
                if b is not None and merge_if(c, b, s, env):
                    return
            k = decide(c)
        c = k
    run_block(s.body if c else s.orelse, env)


def mergeable_bit(c):
    b = cond_bit(c)
    if b is None or len(b) > 24:
        return None
    if all(len(m) <= 1 for m in b):
        return b
    return None


_simple = {}


def simple_block(stmts):
    for s in stmts:
        r = _simple.get(s)
        if r is None:
            r = isinstance(s, ast.Pass)
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                r = all(isinstance(t, ast.Name) for t in ts)
                for x in ast.walk(s.value):
                    if isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr, ast.Lambda, ast.ListComp)):
                        r = False
            elif isinstance(s, ast.If):
                r = simple_block(s.body) and simple_block(s.orelse)
            _simple[s] = r
        if not r:
            return False
    return True


def merge_if(c, bit, s, env):
    """Both branches only assign numbers to local names: keep one trace with selected values."""
    res = []
    jm = len(R.journal)
    if env.kind == "class":
        return False
    mark = R.mark
    for t, blk in ((True, s.body), (False, s.orelse)):
        f0 = R.facts
        ne = len(R.effects)
        R.facts = f0.copy()
        R.mark = fresh_serial()
        R.oracles.append(Oracle([], nofork=True))
        ok = False
        try:
            if not R.facts.assume(c, t):
                return False
            run_block(blk, env)
            ok = len(R.effects) == ne
            if ok:
                ch = {}
                for o, k, old in R.journal[jm:]:
                    if o is not env:
                        ok = False
                    ch[k] = env.vars.get(k, MISSING)
                res.append(ch)
        except (NeedFork, PyRaise, ReturnE, BreakE, ContinueE):
            ok = False
        finally:
            R.oracles.pop()
            R.facts = f0
            R.mark = mark
            rollback(jm)
            del R.effects[ne:]
        if not ok:
            return False
    out = {}
    for k in set(res[0]) | set(res[1]):
        a = res[0].get(k, env.vars.get(k, MISSING))
        b = res[1].get(k, env.vars.get(k, MISSING))
        if a is MISSING or b is MISSING:
            return False
        v = mux(bit, a, b)
        if v is None:
            return False
        out[k] = v
    for k, v in out.items():
        bindname(k, v, env)
    return True


def mux(bit, a, b):
    """a where bit is set, else b"""
    if a is b:
        return a
    if isinstance(a, (str, bytes, type(None))) or isinstance(b, (str, bytes, type(None))):
        return None
    isb = isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond))
    x, y = num(a), num(b)
    if x is None or y is None:
        return None
    if isb:
        return None
    if x == y:
        return x
    d = sub(x, y)
    if isinstance(d, int) and len(bit) == 1:
        return add(y, mulc(from_bits([bit]), d))
    X, Y = to_bits(x, R.facts), to_bits(y, R.facts)
    if X is None or Y is None:
        if isinstance(d, int):
            return add(y, mulc(from_bits([bit]), d))
        return None
    n = max(len(X), len(Y))
    X = X + [ZERO] * (n - len(X))
    Y = Y + [ZERO] * (n - len(Y))
    try:
        return from_bits([bxor(q, band(bit, bxor(p, q))) for p, q in zip(X, Y)])
    except Gap:
        return None


def s_while(s, env):
    loops.while_loop(s, env)


def s_for(s, env):
    loops.for_loop(s, env)


def s_break(s, env):
    raise BreakE()


def s_continue(s, env):
    raise ContinueE()


def s_assert(s, env):
    if not truth(ev_expr(s.test, env)):
        throw(AssertionError)


def s_funcdef(s, env):
    f = make_func(s, env, s.name)
    for d in reversed(s.decorator_list):
        f = call(ev_expr(d, env), [f], {})
    bindname(s.name, f, env)


_gen = {}


def is_gen(node):
    r = _gen.get(node)
    if r is None:
        r = False
        todo = list(node.body) if not isinstance(node, ast.Lambda) else []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        _gen[node] = r
    return r


def module_of(env):
    while env.parent is not None:
        env = env.parent
    return env.name


def make_func(node, env, name):
    mod = module_of(env)
    prefix = env.name + "." if env.kind in ("class", "func") else mod + "."
    f = FuncO(node, env, name, prefix + name, mod)
    a = node.args
    f.defaults = [ev_expr(x, env) for x in a.defaults]
    f.kwdefaults = {x.arg: ev_expr(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    f.isgen = is_gen(node)
    return f


ALL_CLASSES = []


def s_classdef(s, env):
    bases = []
    meta = None
    flags = {}
    for b in s.bases:
        v = ev_expr(b, env)
        if isinstance(v, Opq):
            nm = str(v.args[0]).split(".")[-1] if v.args else ""
            if nm == "Protocol":
                flags["protocol"] = True
            elif nm == "NamedTuple":
                flags["namedtuple"] = True
            elif nm in ("Generic", "ABC"):
                pass
            elif v.op in ("typing",):
                pass
            else:
                flags["extbase"] = v
            continue
        bases.append(v)
    kw = {}
    for k in s.keywords:
        if k.arg == "metaclass":
            meta = ev_expr(k.value, env)
        else:
            kw[k.arg] = ev_expr(k.value, env)
    cenv = Env(env, "class", (env.name + "." if env.kind in ("class", "func") else module_of(env) + ".") + s.name)
    cenv_ann = {}
    CLASS_ANN[id(cenv)] = cenv_ann
    run_block(s.body, ClassEnvProxy.attach(cenv, cenv_ann))
    c = models.make_class(s.name, bases, dict(cenv.vars), module_of(env), s, meta, cenv_ann, flags, kw)
    cenv.vars["__class__"] = c
    for v in c.ns.values():
        for f in models.funcs_in(v):
            if f.owner is None:
                f.owner = c
    ALL_CLASSES.append(c)
    r = c
    for d in reversed(s.decorator_list):
        r = call(ev_expr(d, env), [r], {})
    bindname(s.name, r, env)


CLASS_ANN = {}


class ClassEnvProxy:
    @staticmethod
    def attach(env, ann):
        env.ann = ann
        return env


def s_import(s, env):
    for a in s.names:
        m = LOADER.import_(a.name)
        if a.asname:
            bindname(a.asname, m, env)
        else:
            bindname(a.name.split(".")[0], LOADER.import_(a.name.split(".")[0]), env)


def s_importfrom(s, env):
    name = s.module or ""
    if s.level:
        pkg = LOADER.package_of(module_of(env), s.level)
        name = pkg + ("." + name if name else "")
    if name == "__future__":
        return
    m = LOADER.import_(name)
    for a in s.names:
        if a.name == "*":
            for k, v in LOADER.star(m).items():
                bindname(k, v, env)
            continue
        if m.ext:
            v = models.ext_attr(m, a.name)
        else:
            v = m.env.vars.get(a.name, MISSING)
            if v is MISSING and LOADER.find(name + "." + a.name) is not None:
                v = LOADER.import_(name + "." + a.name)
            elif v is MISSING and os.path.isdir(os.path.join(LOADER.root, *name.split("."), a.name)):
                v = LOADER.import_(name + "." + a.name)
        if v is MISSING:
            throw(ImportError, f"cannot import name {a.name} from {name}")
        bindname(a.asname or a.name, v, env)


def s_global(s, env):
    env.globals.update(s.names)


def s_nonlocal(s, env):
    env.nonlocals.update(s.names)


def s_delete(s, env):
    for t in s.targets:
        if isinstance(t, ast.Name):
            lookup(t.id, env)
            env.put(t.id, MISSING)
        elif isinstance(t, ast.Subscript):
            models.delitem(ev_expr(t.value, env), ev_index(t.slice, env))
        elif isinstance(t, ast.Attribute):
            o = ev_expr(t.value, env)
            getattr_(o, t.attr)
            o.put(t.attr, MISSING)
        else:
            raise Gap("del target")


def s_with(s, env, i=0):
    if i == len(s.items):
        run_block(s.body, env)
        return
    it = s.items[i]
    cm = ev_expr(it.context_expr, env)
    if isinstance(cm, ExtObj) and cm.path == "·gencm":
        return gen_with(s, env, i, it, cm)
    v = models.cm_enter(cm)
    if it.optional_vars is not None:
        assign(it.optional_vars, v, env)
    sd = len(STACK)
    try:
        s_with(s, env, i + 1)
    except PyRaise as e:
        del STACK[sd:]
        if models.cm_exit(cm, e.inst):
            return
        raise
    except (ReturnE, BreakE, ContinueE):
        models.cm_exit(cm, None)
        raise
    models.cm_exit(cm, None)


def gen_with(s, env, i, it, cm):
    """Generator based context manager: the with body runs at the yield."""
    WithExit = models.ext.WithExit
    outer = list(STACK)
    f = cm.attrs["·f"]

    def body(v):
        inner = list(STACK)
        STACK[:] = outer
        try:
            if it.optional_vars is not None:
                assign(it.optional_vars, v, env)
            s_with(s, env, i + 1)
        except (ReturnE, BreakE, ContinueE) as e:
            raise WithExit(e)
        finally:
            STACK[:] = inner

    bound = bind_args(f, list(cm.attrs["·a"]), dict(cm.attrs["·k"]))
    e2 = Env(f.env, "func", f.qual)
    e2.vars.update(bound)
    e2.vars["·cmbody"] = body
    STACK.append(Frame(f, f.name, f.module))
    try:
        run_block(f.node.body, e2)
    except ReturnE:
        pass
    except WithExit as w:
        del STACK[len(outer):]
        raise w.e
    finally:
        del STACK[len(outer):]


def s_match(s, env):
    v = ev_expr(s.subject, env)
    for c in s.cases:
        b = {}
        if not match(c.pattern, v, env, b):
            continue
        for k, x in b.items():
            bindname(k, x, env)
        if c.guard is not None and not truth(ev_expr(c.guard, env)):
            continue
        run_block(c.body, env)
        return


def match(p, v, env, b):
    if isinstance(p, ast.MatchValue):
        return truth(models.equal(v, ev_expr(p.value, env)))
    if isinstance(p, ast.MatchSingleton):
        return truth(models.is_(v, p.value))
    if isinstance(p, ast.MatchAs):
        if p.pattern is not None and not match(p.pattern, v, env, b):
            return False
        if p.name:
            b[p.name] = v
        return True
    if isinstance(p, ast.MatchOr):
        return any(match(x, v, env, b) for x in p.patterns)
    if isinstance(p, ast.MatchClass):
        c = ev_expr(p.cls, env)
        if not isinst(v, c):
            return False
        for n, x in zip(p.kwd_attrs, p.kwd_patterns):
            a = getattr_(v, n, MISSING)
            if a is MISSING or not match(x, a, env, b):
                return False
        if p.patterns:
            if len(p.patterns) == 1 and c in (int, str, bytes, bool, float, list, tuple, dict, bytearray):
                return match(p.patterns[0], v, env, b)
            ma = getattr_(c, "__match_args__", MISSING)
            names = list(models.unpack(ma)) if ma is not MISSING else [f.name for f in c.fields or ()]
            for n, x in zip(names, p.patterns):
                if not match(x, getattr_(v, n), env, b):
                    return False
        return True
    if isinstance(p, ast.MatchSequence):
        if not isinstance(v, (tuple, ListO)):
            return False
        items = models.unpack(v)
        st = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
        if not st:
            return len(items) == len(p.patterns) and all(match(x, y, env, b) for x, y in zip(p.patterns, items))
        i = st[0]
        k = len(items) - (len(p.patterns) - 1)
        if k < 0:
            return False
        if not all(match(x, y, env, b) for x, y in zip(p.patterns[:i], items[:i])):
            return False
        if p.patterns[i].name:
            b[p.patterns[i].name] = ListO(items[i:i + k])
        return all(match(x, y, env, b) for x, y in zip(p.patterns[i + 1:], items[i + k:]))
    raise Gap(f"pattern {type(p).__name__}")


STMT = {
    ast.Expr: s_expr, ast.Pass: s_pass, ast.Assign: s_assign, ast.AnnAssign: s_annassign,
    ast.AugAssign: s_augassign, ast.Return: s_return, ast.Raise: s_raise, ast.Try: s_try, ast.If: s_if,
    ast.While: s_while, ast.For: s_for, ast.Break: s_break, ast.Continue: s_continue, ast.Assert: s_assert,
    ast.FunctionDef: s_funcdef, ast.ClassDef: s_classdef, ast.Import: s_import, ast.ImportFrom: s_importfrom,
    ast.Global: s_global, ast.Nonlocal: s_nonlocal, ast.Delete: s_delete, ast.With: s_with, ast.Match: s_match,
}


# ------------------------------------------------------------------ expressions

def ev_expr(e, env):
    f = EXPR.get(type(e))
    if f is None:
        raise Gap(f"expression {type(e).__name__}")
    return f(e, env)


def e_const(e, env):
    return e.value


def e_name(e, env):
    return lookup(e.id, env)


def e_attr(e, env):
    return getattr_(ev_expr(e.value, env), e.attr)


def ev_index(sl, env):
    if isinstance(sl, ast.Slice):
        g = lambda x: None if x is None else ev_expr(x, env)
        return SliceV(g(sl.lower), g(sl.upper), g(sl.step))
    return ev_expr(sl, env)


def e_sub(e, env):
    o = ev_expr(e.value, env)
    return models.getitem(o, ev_index(e.slice, env))


def e_slice(e, env):
    return ev_index(e, env)


def e_call(e, env):
    if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in env.vars:
        if e.args:
            a = [ev_expr(x, env) for x in e.args]
            return SuperO(a[0], a[1])
        fn = STACK[-1].func
        self_ = None
        en = env
        while en is not None and en.kind == "comp":
            en = en.parent
        first = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
        self_ = en.vars[first]
        return SuperO(fn.owner, self_)
    f = ev_expr(e.func, env)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            args.extend(models.unpack(ev_expr(a.value, env)))
        else:
            args.append(ev_expr(a, env))
    kw = {}
    for k in e.keywords:
        if k.arg is None:
            d = ev_expr(k.value, env)
            if not isinstance(d, DictO):
                raise Gap("** of a non-dictionary")
            for kk, v in d.d.values():
                if kk in kw:
                    throw(TypeError, "multiple values for keyword argument")
                kw[kk] = v
        else:
            kw[k.arg] = ev_expr(k.value, env)
    STACK[-1].line = e.lineno
    if isinstance(f, Builtin) and f.attrs.get("env"):
        return f.fn(env, *args, **kw)
    return call(f, args, kw)


def e_binop(e, env):
    return models.binop(e.op, ev_expr(e.left, env), ev_expr(e.right, env))


def e_unary(e, env):
    v = ev_expr(e.operand, env)
    if isinstance(e.op, ast.Not):
        c = truthc(v)
        return c_not(c)
    if isinstance(e.op, ast.USub):
        n = num(v)
        if n is not None:
            return mulc(n, -1)
        if isinstance(v, float):
            return -v
        return models.opaque_op("neg", v)
    if isinstance(e.op, ast.Invert):
        n = num(v)
        if n is not None:
            return sub(-1, n)
    if isinstance(e.op, ast.UAdd):
        return v
    raise Gap("unary operator")


def e_boolop(e, env):
    is_and = isinstance(e.op, ast.And)
    vals = e.values
    conds = []
    for i, x in enumerate(vals):
        v = ev_expr(x, env)
        if i == len(vals) - 1:
            if conds:
                if isinstance(v, (Cond, bool)):
                    return c_and(conds + [v]) if is_and else c_or(conds + [v])
                # value needed: resolve what was delayed
                c = c_and(conds) if is_and else c_or(conds)
                t = decide(c)
                if is_and:
                    return v if t else False
                return True if t else v
            return v
        if isinstance(v, (Cond,)):
            k = R.facts.decide(v)
            if k is None and pure_test(vals[i + 1:]) and len(vals) <= 4 and all_bool_tests(vals[i + 1:]):
                conds.append(v)
                continue
            if k is None:
                k = decide(v)
            if k != is_and:
                if conds:
                    c = c_and(conds) if is_and else c_or(conds)
                    if is_and:
                        return False
                    return True
                return k
            continue
        t = truth(v)
        if t != is_and:
            if conds:
                if isinstance(v, bool):
                    return v
                c = c_and(conds) if is_and else c_or(conds)
                t2 = decide(c)
                if is_and:
                    return v if t2 else False
                return True if t2 else v
            return v
    raise Gap("boolean operator")


_pure = {}


def pure_test(xs):
    """Evaluating these can neither raise nor have effects: simple comparisons of local names and constants."""
    for x in xs:
        r = _pure.get(x)
        if r is None:
            r = all(isinstance(n, (ast.Compare, ast.Name, ast.Constant, ast.BoolOp, ast.And, ast.Or, ast.Not, ast.UnaryOp,
                                   ast.cmpop, ast.expr_context, ast.USub)) for n in ast.walk(x))
            _pure[x] = r
        if not r:
            return False
    return True


def all_bool_tests(xs):
    return False


def e_compare(e, env):
    left = ev_expr(e.left, env)
    if len(e.ops) == 1:
        return models.compare(e.ops[0], left, ev_expr(e.comparators[0], env))
    for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
        right = ev_expr(c, env)
        r = models.compare(op, left, right)
        if i == len(e.ops) - 1:
            return r
        if not truth(r):
            return False
        left = right


def e_ifexp(e, env):
    c = truthc(ev_expr(e.test, env))
    if isinstance(c, Cond):
        k = R.facts.decide(c)
        if k is None:
            b = mergeable_bit(c)
            if b is not None and not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Subscript)) for y in (e.body, e.orelse) for x in ast.walk(y)):
                try:
                    R.oracles.append(Oracle([], nofork=True))
                    x = ev_expr(e.body, env)
                    y = ev_expr(e.orelse, env)
                except (NeedFork, PyRaise):
                    x = y = MISSING
                finally:
                    R.oracles.pop()
                if x is not MISSING:
                    v = mux(b, x, y)
                    if v is not None:
                        return v
            k = decide(c)
        c = k
    return ev_expr(e.body if c else e.orelse, env)


def e_lambda(e, env):
    return make_func(e, env, "<lambda>")


def e_tuple(e, env):
    return tuple(ev_elts(e.elts, env))


def ev_elts(elts, env):
    out = []
    for x in elts:
        if isinstance(x, ast.Starred):
            out.extend(models.unpack(ev_expr(x.value, env)))
        else:
            out.append(ev_expr(x, env))
    return out


def e_list(e, env):
    return ListO(ev_elts(e.elts, env))


def e_set(e, env):
    return SetO({models.key(v): (v, v) for v in ev_elts(e.elts, env)})


def e_dict(e, env):
    d = {}
    for k, v in zip(e.keys, e.values):
        if k is None:
            x = ev_expr(v, env)
            d.update(x.d)
            continue
        kk = ev_expr(k, env)
        d[models.key(kk)] = (kk, ev_expr(v, env))
    return DictO(d)


def e_joined(e, env):
    parts = []
    for x in e.values:
        if isinstance(x, ast.Constant):
            parts.append(x.value)
        else:
            parts.append(e_fvalue(x, env))
    return models.concat_text(parts)


def e_fvalue(x, env):
    v = ev_expr(x.value, env)
    spec = ""
    if x.format_spec is not None:
        spec = ev_expr(x.format_spec, env)
    if x.conversion == ord("r"):
        v = models.b_repr(v)
    elif x.conversion == ord("s"):
        v = models.b_str(v)
    return models.b_format(v, spec)


def e_named(e, env):
    v = ev_expr(e.value, env)
    en = env
    while en.kind == "comp":
        en = en.parent
    bindname(e.target.id, v, en)
    return v


def e_listcomp(e, env):
    out = ListO()
    loops.comprehension(e.generators, env, lambda en: models.list_append(out, ev_expr(e.elt, en)))
    return out


def e_setcomp(e, env):
    out = SetO()

    def addit(en):
        v = ev_expr(e.elt, en)
        d = dict(out.d)
        d[models.key(v)] = (v, v)
        out.set(d)

    loops.comprehension(e.generators, env, addit)
    return out


def e_dictcomp(e, env):
    out = DictO()

    def addit(en):
        k = ev_expr(e.key, en)
        v = ev_expr(e.value, en)
        d = dict(out.d)
        d[models.key(k)] = (k, v)
        out.set(d)

    loops.comprehension(e.generators, env, addit)
    return out


def e_genexp(e, env):
    g = e.generators
    if len(g) == 1 and not g[0].ifs:
        it = ev_expr(g[0].iter, env)
        base = models.iter_(it)

        def f(item):
            en = Env(env, "comp", env.name)
            assign(g[0].target, item, en)
            return ev_expr(e.elt, en)

        return IterO("map", (Builtin("<genexpr>", f), [base]))
    out = ListO()
    loops.comprehension(g, env, lambda en: models.list_append(out, ev_expr(e.elt, en)))
    return IterO("seq", out)


def e_yield(e, env):
    v = None if e.value is None else ev_expr(e.value, env)
    en = env
    while "·yield" not in en.vars and "·cmbody" not in en.vars:
        en = en.parent
    if "·cmbody" in en.vars:
        en.vars["·cmbody"](v)
        return None
    models.list_append(en.vars["·yield"], v)
    return None


def e_yieldfrom(e, env):
    v = ev_expr(e.value, env)
    en = env
    while "·yield" not in en.vars:
        en = en.parent
    models.list_extend(en.vars["·yield"], v)
    return None


def e_starred(e, env):
    raise Gap("starred expression")


EXPR = {
    ast.Constant: e_const, ast.Name: e_name, ast.Attribute: e_attr, ast.Subscript: e_sub, ast.Slice: e_slice, ast.Call: e_call,
    ast.BinOp: e_binop, ast.UnaryOp: e_unary, ast.BoolOp: e_boolop, ast.Compare: e_compare, ast.IfExp: e_ifexp,
    ast.Lambda: e_lambda, ast.Tuple: e_tuple, ast.List: e_list, ast.Set: e_set, ast.Dict: e_dict,
    ast.JoinedStr: e_joined, ast.FormattedValue: e_fvalue, ast.NamedExpr: e_named, ast.ListComp: e_listcomp,
    ast.SetComp: e_setcomp, ast.DictComp: e_dictcomp, ast.GeneratorExp: e_genexp, ast.Yield: e_yield,
    ast.YieldFrom: e_yieldfrom, ast.Starred: e_starred,
}


# ------------------------------------------------------------------ modules

class Loader:
    def __init__(self, root, extra=()):
        self.root = root
        self.mods = {}
        self.paths = {}
        self.extra = dict(extra)      # top package name -> directory
        self.sources = {}

    def find(self, name):
        parts = name.split(".")
        base = self.extra.get(parts[0], self.root)
        p = os.path.join(base, *parts)
        for q in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.isfile(q):
                return q
        return None

    def is_internal(self, name):
        return self.find(name.split(".")[0]) is not None or os.path.isdir(os.path.join(self.root, name.split(".")[0]))

    def import_(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = self.find(name)
        if path is None:
            top = name.split(".")[0]
            if top in self.extra or self.find(top) is not None:
                throw(ImportError, f"No module named {name}")
            m = ModuleO(name, Env(None, "module", name), ext=True)
            self.mods[name] = m
            return m
        if "." in name:
            self.import_(name.rsplit(".", 1)[0])
        with open(path, encoding="utf-8") as f:
            text = f.read()
        self.sources[name] = (path, text)
        tree = ast.parse(text, path)
        env = Env(None, "module", name)
        env.vars["__name__"] = name
        env.vars["__file__"] = path
        m = ModuleO(name, env)
        self.mods[name] = m
        self.paths[name] = path
        STACK.append(Frame(None, "<module>", name))
        try:
            run_block(tree.body, env)
        finally:
            STACK.pop()
        if "." in name:
            par, ch = name.rsplit(".", 1)
            self.mods[par].env.vars[ch] = m
        return m

    def submodule(self, name, sub_):
        full = name + "." + sub_
        if full in self.mods:
            return self.mods[full]
        return None

    def package_of(self, name, level):
        path = self.paths.get(name, "")
        parts = name.split(".")
        if not path.endswith("__init__.py"):
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return ".".join(parts)

    def star(self, m):
        if m.ext:
            return models.ext_star(m)
        al = m.env.vars.get("__all__")
        if al is not None:
            return {k: getattr_(m, k) for k in models.unpack(al)}
        return {k: v for k, v in m.env.vars.items() if not k.startswith("_")}


LOADER = None


def set_loader(l):
    global LOADER
    LOADER = l


from . import models  # noqa: E402
from . import loops   # noqa: E402
