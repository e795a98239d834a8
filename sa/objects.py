"""Class creation, instantiation, enumerations and attrs/dataclass style field processing."""
import ast
from . import interp as I
from . import textops as T
from .heap import *
from .interp import throw, call, num, truth, class_lookup, subclass, FuncO, BoundM, Builtin, effect
from . import models as M


class AttrIb:
    """attr.ib() / dataclasses.field() before the class is processed"""

    def __init__(self, **kw):
        self.kw = kw

    def __repr__(self):
        return "<attr.ib>"


class FactoryV:
    def __init__(self, f, takes_self=False):
        self.f, self.takes_self = f, takes_self

    def __repr__(self):
        return "<Factory>"


class Field:
    def __init__(self, name, ann):
        self.name, self.ann = name, ann
        self.default = MISSING       # value or FactoryV
        self.init = True
        self.repr = True
        self.eq = True
        self.kw_only = False
        self.converter = None
        self.validator = None
        self.alias = name.lstrip("_")
        self.inherited = False

    def __repr__(self):
        return f"<field {self.name}>"


def funcs_in(v):
    if isinstance(v, FuncO):
        return [v]
    if isinstance(v, (I.StaticM, I.ClassM)):
        return funcs_in(v.f)
    if isinstance(v, I.PropO):
        return [f for f in (v.fget, v.fset) if isinstance(f, FuncO)]
    if isinstance(v, BoundM):
        return []
    if isinstance(v, Builtin):
        return list(v.attrs.get("funcs", ()))
    return []


# ------------------------------------------------------------------ enumerations

def enum_base(bases):
    for b in bases:
        if isinstance(b, ClassO) and b.opts.get("enum"):
            return b
    return None


AUTO = Opq("enum.auto", ())


def make_enum(c, ns):
    members = {}
    c.members = members
    c.opts["enum"] = True
    last = 0
    isint = I.is_int_enum(c)
    c.opts["flag"] = any(isinstance(b, ClassO) and b.opts.get("flag") for b in c.mro)
    for k, v in list(ns.items()):
        if k.startswith("_") or isinstance(v, (FuncO, I.PropO, I.StaticM, I.ClassM, Builtin)) or isinstance(v, (ClassO, type)):
            continue
        if v == AUTO:
            if any(b is str for b in c.mro):
                v = k.lower()
            elif c.opts["flag"]:
                v = 1 << (last.bit_length() if last else 0)
            else:
                v = last + 1
        if isint:
            if isinstance(v, tuple) and v and "__new__" not in ns:
                v = M.call_type(int, list(v), {})
            n = num(v)
            if n is None:
                throw(TypeError, "enumeration value is not an integer")
            v = n
        if "__new__" in ns:
            raise Gap("enumeration with __new__")
        dup = None
        for m in members.values():
            if type(m.value) is type(v) and M.equal(m.value, v) is True:
                dup = m
        if k in members:
            throw(TypeError, f"{k!r} already defined")
        members[k] = dup or EnumM(c, k, v)
        del ns[k]
        if isinstance(v, int):
            last = v
        init = class_lookup(c, "__init__")
        if init is not MISSING and isinstance(init, FuncO):
            raise Gap("enumeration with __init__")


def enum_lookup(cls, v):
    if isinstance(v, (EnumM, EnumSym)) and v.cls is cls:
        return v
    n = num(v) if I.is_int_enum(cls) else None
    if n is not None:
        n = T.S(n)
        if isinstance(n, Lin):
            vals = sorted({m.value for m in cls.members.values()})
            c = c_or([eq(n, x) for x in vals])
            if not decide(c):
                return enum_missing(cls, v)
            n = T.S(n)
            if isinstance(n, Lin):
                return EnumSym(cls, n)
        for m in cls.members.values():
            if m.value == n:
                return m
        return enum_missing(cls, v)
    for m in cls.members.values():
        if truth(M.equal(m.value, v)):
            return m
    return enum_missing(cls, v)


def enum_missing(cls, v):
    f = class_lookup(cls, "_missing_")
    if f is not MISSING:
        r = call(BoundM(f.f if isinstance(f, I.ClassM) else f, cls), [v], {})
        if r is not None:
            return r
    throw(ValueError, M.concat_text([M.b_repr(v), f" is not a valid {cls.name}"]))


# ------------------------------------------------------------------ classes

def make_class(name, bases, ns, module=None, node=None, meta=None, ann=None, flags=None, kw=None):
    flags = flags or {}
    ns = {k: v for k, v in ns.items()}
    for k in ("__name__",):
        ns.pop(k, None)
    if isinstance(meta, ClassO):
        f = class_lookup(meta, "__new__")
        if f is not MISSING and not flags.get("raw"):
            f = f.f if isinstance(f, I.StaticM) else f
            d = DictO({M.key(k): (k, v) for k, v in ns.items()})
            c = call(f, [meta, name, tuple(bases), d], dict(kw or {}))
            if isinstance(c, ClassO):
                c.node, c.ann = node, dict(ann or {})
                i = class_lookup(meta, "__init__")
                if i is not MISSING:
                    call(BoundM(i, c), [name, tuple(bases), d], dict(kw or {}))
            return c
    for b in bases:
        if not isinstance(b, (ClassO, type)):
            raise Gap(f"class {name} derives from {b!r}")
    c = ClassO(name, [b for b in bases if b is not object], ns, module, node)
    c.ann = dict(ann or {})
    if meta is None:
        for b in bases:
            if isinstance(b, ClassO) and b.meta is not type:
                meta = b.meta
    c.meta = meta if isinstance(meta, ClassO) else type
    if flags.get("protocol"):
        c.opts["protocol"] = True
    if flags.get("extbase") is not None:
        c.opts["extbase"] = flags["extbase"]
    for b in bases:
        if isinstance(b, ClassO) and b.fields is not None:
            c.fields = list(b.fields)
            for k in ("repr", "eq", "frozen", "on_setattr", "hashable"):
                if k in b.opts:
                    c.opts[k] = b.opts[k]
            break
    if enum_base(bases) is not None:
        make_enum(c, ns)
    if flags.get("namedtuple"):
        make_namedtuple(c)
    for k, v in list(ns.items()):
        if isinstance(v, Inst) and isinstance(v.cls, ClassO):
            f = class_lookup(v.cls, "__set_name__")
            if f is not MISSING:
                call(BoundM(f, v), [c, k], {})
        elif isinstance(v, I.PropO) and v.cached:
            pass
    for k in c.mro[1:]:
        if isinstance(k, ClassO) and "__init_subclass__" in k.ns:
            f = k.ns["__init_subclass__"]
            call(f.f if isinstance(f, I.ClassM) else f, [c], dict(kw or {}))
            break
    return c


def make_namedtuple(c, names=None, defaults=None):
    if names is None:
        names = [k for k in c.ann if not is_classvar(c.ann[k])]
        defaults = {k: c.ns[k] for k in names if k in c.ns}
    c.opts["nt"] = tuple(names)
    c.opts["ntdef"] = dict(defaults or {})
    c.bases = (tuple,)
    from .heap import c3
    c.mro = c3(c)
    for i, k in enumerate(names):
        c.ns[k] = I.PropO(Builtin(k, lambda self, i=i: self.payload[i]))
    c.ns["_fields"] = tuple(names)

    def rep(self, **kw):
        vals = dict(zip(names, self.payload))
        vals.update(kw)
        return Inst(c, payload=tuple(vals[k] for k in names))

    c.ns["_replace"] = Builtin("_replace", rep, {"method": True})
    c.ns["_asdict"] = Builtin("_asdict", lambda self: DictO({M.key(k): (k, v) for k, v in zip(names, self.payload)}), {"method": True})


def new_namedtuple(c, args, kwargs):
    names = c.opts["nt"]
    vals = dict(zip(names, args))
    if len(args) > len(names):
        throw(TypeError, "too many arguments")
    for k, v in kwargs.items():
        if k not in names or k in vals:
            throw(TypeError, f"unexpected argument {k}")
        vals[k] = v
    for k in names:
        if k not in vals:
            if k in c.opts["ntdef"]:
                vals[k] = c.opts["ntdef"][k]
            else:
                throw(TypeError, f"missing argument {k!r}")
    return Inst(c, payload=tuple(vals[k] for k in names))


def native_base(cls):
    for k in cls.mro:
        if isinstance(k, type) and k is not object:
            return k
    return None


def raw_new(c, args, kwargs):
    args = list(args)
    if not isinstance(c, ClassO):
        return M.call_type(c, args, dict(kwargs))
    if subclass(c, type):
        name, bases, ns = args[:3]
        d = {k: v for k, v in ns.d.values()}
        return make_class(name, list(bases), d, I.where_fn().split(":")[0], None, c, None, {"raw": True})
    if c.opts.get("nt"):
        return new_namedtuple(c, args, kwargs)
    b = native_base(c)
    if b is None:
        return Inst(c)
    if issubclass(b, BaseException):
        return Inst(c, {"args": tuple(args)})
    if b is str:
        return Inst(c, payload=M.b_str(*args, **kwargs))
    if b in (bytes, int, float, tuple):
        v = M.call_type(b, args, dict(kwargs))
        return Inst(c, payload=v)
    if b in (dict, list, set, bytearray):
        raise Gap(f"class {c.name} derives from {b.__name__}")
    return Inst(c)


def instantiate(cls, args, kwargs):
    if cls.members is not None:
        if len(args) == 1 and not kwargs:
            return enum_lookup(cls, args[0])
        raise Gap("functional enumeration")
    if cls.opts.get("ext_new"):
        return cls.opts["ext_new"](cls, args, kwargs)
    if subclass(cls, type):
        if len(args) == 1 and not kwargs:
            return I.type_of(args[0])
        f = class_lookup(cls, "__new__")
        if f is not MISSING:
            o = call(f.f if isinstance(f, I.StaticM) else f, [cls] + args, kwargs)
        else:
            o = raw_new(cls, args, kwargs)
        I.ALL_CLASSES.append(o)
        i = class_lookup(cls, "__init__")
        if i is not MISSING:
            call(i, [o] + args, kwargs)
        return o
    ab = cls.opts.get("abstract")
    f = class_lookup(cls, "__new__")
    if f is not MISSING:
        f = f.f if isinstance(f, I.StaticM) else f
        o = call(f, [cls] + args, kwargs)
        if not (isinstance(o, Inst) and subclass(o.cls, cls)):
            return o
    else:
        i = class_lookup(cls, "__init__")
        b = native_base(cls)
        if b is None:
            if i is MISSING and (args or kwargs):
                throw(TypeError, f"{cls.name}() takes no arguments")
            o = Inst(cls)
        elif issubclass(b, BaseException):
            if kwargs and i is MISSING:
                throw(TypeError, f"{cls.name}() takes no keyword arguments")
            o = Inst(cls, {"args": tuple(args)})
        else:
            o = raw_new(cls, args, kwargs)
    i = class_lookup(cls, "__init__")
    if i is not MISSING:
        call(BoundM(i, o), args, kwargs)
    return o


# ------------------------------------------------------------------ attrs and dataclasses

def is_classvar(a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return False
    if isinstance(a, ast.Subscript):
        a = a.value
    return isinstance(a, ast.Name) and a.id == "ClassVar" or isinstance(a, ast.Attribute) and a.attr == "ClassVar"


def make_field(name, ann, val, dc):
    f = Field(name, ann)
    if dc:
        f.alias = name
    if isinstance(val, AttrIb):
        kw = val.kw
        f.default = kw.get("default", MISSING)
        fac = kw.get("factory", kw.get("default_factory"))
        if fac is not None and fac is not MISSING:
            f.default = FactoryV(fac)
        f.init = kw.get("init", True)
        f.repr = kw.get("repr", True)
        f.eq = kw.get("eq", kw.get("compare", True)) is not False
        f.kw_only = bool(kw.get("kw_only", False))
        f.converter = kw.get("converter")
        f.validator = kw.get("validator")
        f.on_setattr = kw.get("on_setattr")
        if kw.get("alias"):
            f.alias = kw["alias"]
    elif val is not MISSING:
        f.default = val
        if dc and isinstance(val, (ListO, DictO, BArr)):
            throw(ValueError, f"mutable default for field {name}")
    return f


def process_fields(cls, auto_attribs, opts, dc=False, detect=False):
    own = []
    names = []
    for k, a in cls.ann.items():
        if is_classvar(a):
            continue
        if dc and isinstance(a, (ast.Name, ast.Attribute)) and (getattr(a, "id", None) == "KW_ONLY" or getattr(a, "attr", None) == "KW_ONLY"):
            opts = dict(opts, kw_only=True)
            continue
        names.append(k)
    has_ib = [k for k, v in cls.ns.items() if isinstance(v, AttrIb)]
    if auto_attribs is None:
        auto_attribs = not any(k not in names for k in has_ib)
    if auto_attribs:
        for k in has_ib:
            if k not in names:
                throw(TypeError, f"attribute {k} without annotation")
        for k in names:
            own.append(make_field(k, cls.ann.get(k), cls.ns.get(k, MISSING), dc))
    else:
        for k in has_ib:
            own.append(make_field(k, cls.ann.get(k), cls.ns[k], dc))
    for f in own:
        if opts.get("kw_only"):
            f.kw_only = True
        if isinstance(cls.ns.get(f.name), AttrIb):
            if dc and f.default is not MISSING and not isinstance(f.default, FactoryV):
                cls.ns[f.name] = f.default
            else:
                cls.ns.pop(f.name, None)
        elif not dc:
            cls.ns.pop(f.name, None)
    base = []
    ownn = {f.name for f in own}
    seen = set()
    if dc:
        order = {}
        for k in reversed(cls.mro[1:]):
            if isinstance(k, ClassO) and k.opts.get("ownfields") is not None:
                for f in k.opts["ownfields"]:
                    order[f.name] = f
        for f in own:
            order[f.name] = f
        fields = list(order.values())
    else:
        for k in reversed(cls.mro[1:]):
            if isinstance(k, ClassO) and k.opts.get("ownfields") is not None:
                for f in k.opts["ownfields"]:
                    if f.name in ownn:
                        continue
                    if f.name in seen:
                        base = [g for g in base if g.name != f.name]
                    seen.add(f.name)
                    base.append(f)
        fields = base + own
    had = False
    for f in fields:
        if not f.init or f.kw_only:
            continue
        if f.default is not MISSING:
            had = True
        elif had:
            throw(ValueError, f"no mandatory attributes allowed after an attribute with a default value: {f.name}")
    cls.fields = fields
    cls.opts["ownfields"] = own
    cls.opts["repr"] = opts.get("repr", True)
    cls.opts["eq"] = opts.get("eq", True)
    cls.opts["frozen"] = opts.get("frozen", False)
    cls.opts["on_setattr"] = opts.get("on_setattr")
    cls.opts["hashable"] = opts.get("hashable", opts.get("frozen", False))
    cls.opts["dc"] = dc

    def keep(n):
        return n in cls.ns and (detect or dc) and not isinstance(cls.ns[n], Builtin)

    if opts.get("init", True) and not keep("__init__"):
        cls.ns["__init__"] = Builtin("__init__", lambda self, *a, **k: fields_init(cls, self, list(a), k), {"method": True})
    if opts.get("repr", True):
        if not keep("__repr__"):
            cls.ns["__repr__"] = Builtin("__repr__", lambda self: M.base_repr(self), {"method": True})
    if opts.get("eq", True) and not keep("__eq__"):
        cls.ns["__eq__"] = Builtin("__eq__", fields_eq, {"method": True})
    return cls


def fields_eq(a, b):
    if not (isinstance(b, Inst) and b.cls is a.cls):
        return Opq("NotImplemented")
    return c_and([M.equal(a.attrs.get(f.name), b.attrs.get(f.name)) for f in a.cls.fields if f.eq])


def fields_init(cls, self, args, kwargs):
    fs = cls.fields
    pos = [f for f in fs if f.init and not f.kw_only]
    given = {}
    if len(args) > len(pos):
        throw(TypeError, f"{cls.name}.__init__() takes {len(pos) + 1} positional arguments but {len(args) + 1} were given")
    for f, v in zip(pos, args):
        given[f.name] = v
    byalias = {f.alias: f for f in fs if f.init}
    for k, v in kwargs.items():
        f = byalias.get(k)
        if f is None:
            throw(TypeError, f"{cls.name}.__init__() got an unexpected keyword argument {k!r}")
        if f.name in given:
            throw(TypeError, f"{cls.name}.__init__() got multiple values for argument {k!r}")
        given[f.name] = v
    missing = [f.name for f in fs if f.init and f.name not in given and f.default is MISSING]
    if missing:
        throw(TypeError, f"{cls.name}.__init__() missing required arguments: {', '.join(missing)}")
    pre = class_lookup(cls, "__attrs_pre_init__")
    if pre is not MISSING:
        call(BoundM(pre, self), [], {})
    for f in fs:
        if f.name in given:
            v = given[f.name]
        elif f.default is MISSING:
            continue
        elif isinstance(f.default, FactoryV):
            v = call(f.default.f, [self] if f.default.takes_self else [], {})
        else:
            v = f.default
        if f.converter is not None:
            v = convert(f, v)
        self.put(f.name, v)
    for f in fs:
        if f.validator is not None and f.name in self.attrs:
            validate(self, f, f.validator, self.attrs[f.name])
    post = class_lookup(cls, "__post_init__" if cls.opts.get("dc") else "__attrs_post_init__")
    if post is not MISSING:
        call(BoundM(post, self), [], {})


def convert(f, v):
    c = f.converter
    for x in (M.unpack(c) if isinstance(c, (ListO, tuple)) else [c]):
        v = call(x, [v], {})
    return v


class AttrObj:
    """The attribute description handed to validators"""

    def __init__(self, f):
        self.f = f


def validate(o, f, validator, v):
    if isinstance(validator, (ListO, tuple)):
        for x in M.unpack(validator):
            validate(o, f, x, v)
        return
    call(validator, [o, ExtObj("attr.Attribute", {"name": f.name}), v], {})


def convert_validate(o, f, v, how):
    if "convert" in how and f.converter is not None:
        v = convert(f, v)
    if "validate" in how and f.validator is not None:
        validate(o, f, f.validator, v)
    return v
