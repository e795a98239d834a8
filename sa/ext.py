"""Models of the standard library and third-party modules the package uses."""
import datetime as _dt
import struct as _struct
import string as _string
import socket as _socket
import typing as _typing
from . import interp as I
from . import textops as T
from .heap import *
from .interp import throw, call, num, truth, truthc, txt, effect, RangeV, IterO, class_lookup, subclass
from . import models as M
from . import objects as O
from . import builtin as B

S = T.S
EXT = {}
EXTCLASS = {}
OPS = {}       # (object path, method) -> model(obj, args, kw)


def reg(path, name=None, **attrs):
    def d(f):
        EXT[path] = Builtin(name or path, f, attrs)
        return f
    return d


def ident(f=None, *a, **k):
    if f is None or a or k and not isinstance(f, (FuncO, ClassO)):
        return Builtin("decorator", lambda g: g)
    return f


def canon(path):
    if path == "attrs" or path.startswith("attrs."):
        return "attr" + path[5:]
    if path.startswith("typing_extensions."):
        return "typing." + path.split(".", 1)[1]
    return path


def ext_attr(m, name):
    return ext_path(m.name, name)


def ext_path(mod, name):
    path = canon(mod + "." + name)
    if path in OWN and "spec" in I.LOADER.extra:
        return I.getattr_(I.LOADER.import_("spec.lib"), name)
    v = EXT.get(path, MISSING)
    if v is not MISSING:
        return v
    if path in EXTCLASS:
        return EXTCLASS[path]
    if path.startswith("typing.") or path.startswith("collections.abc."):
        return Opq("typing", (path,))
    if name == "__name__":
        return mod
    if any(k.startswith(path + ".") for k in EXT) or any(k.startswith(path + ".") for k in EXTCLASS) or path in I.LOADER.mods:
        return I.LOADER.import_(path)
    return Opq("ext", (path,))


OWN = ("io.BytesIO", "re.compile", "re.sub")       # given in sa/spec/lib.py


def _re_parse(pattern, flags=0):
    """A pattern of single byte classes: (values of each, spans of the groups)"""
    import re._parser as P
    import re._constants as K
    if not isinstance(pattern, bytes) or flags != 0:
        raise Gap("a regular expression that is not modelled")
    items, groups = [], {}

    def one(op, arg):
        if op is K.LITERAL:
            return {arg}
        if op is K.NOT_LITERAL:
            return set(range(256)) - {arg}
        if op is K.IN:
            out, neg = set(), False
            for o, a in arg:
                if o is K.NEGATE:
                    neg = True
                elif o is K.LITERAL:
                    out.add(a)
                elif o is K.RANGE:
                    out.update(range(a[0], a[1] + 1))
                else:
                    raise Gap("a regular expression that is not modelled")
            return set(range(256)) - out if neg else out
        raise Gap("a regular expression that is not modelled")

    def walk(tree):
        for op, arg in tree:
            if op is K.SUBPATTERN and not arg[1] and not arg[2]:
                at = len(items)
                walk(arg[3])
                if arg[0] is not None:
                    groups[arg[0]] = (at, len(items))
            elif op is K.BRANCH and all(len(x) == 1 for x in arg[1]):
                items.append(set().union(*(one(*x[0]) for x in arg[1])))
            else:
                items.append(one(op, arg))

    try:
        walk(P.parse(pattern))
    except P.error:
        throw(ValueError, "invalid regular expression")
    if not items:
        raise Gap("a regular expression that is not modelled")
    return (tuple(tuple(sorted(x)) for x in items), tuple(groups[i] for i in sorted(groups)))


def _re_plain(v):
    if not isinstance(v, bytes) or b"\\" in v:
        raise Gap("a substitution that is not modelled")


def _re_subject(v):
    t = txt(v)
    if t is None or kind_of(t) != "b":
        raise Gap("a subject that is not modelled")
    return t


def _re_unsupported(what):
    raise Gap(str(what))


EXT["sa_re.parse"] = Builtin("parse", _re_parse)
EXT["sa_re.plain"] = Builtin("plain", _re_plain)
EXT["sa_re.subject"] = Builtin("subject", _re_subject)
EXT["sa_re.unsupported"] = Builtin("unsupported", _re_unsupported)


def ext_star(m):
    if m.name == "typing":
        return {k: ext_path("typing", k) for k in _typing.__all__}
    raise Gap(f"from {m.name} import *")


# ------------------------------------------------------------------ typing

EXT["typing.TYPE_CHECKING"] = False
EXT["typing.cast"] = Builtin("cast", lambda t, v: v)
for _n in ("overload", "final", "no_type_check", "runtime_checkable", "override"):
    EXT["typing." + _n] = Builtin(_n, ident)
EXT["typing.TypeVar"] = Builtin("TypeVar", lambda n, *a, **k: Opq("typing", ("typing.Any",)))
EXT["typing.NewType"] = Builtin("NewType", lambda n, t: t)


def _namedtuple(name, fields, defaults=None, **kw):
    if isinstance(fields, str):
        names = fields.replace(",", " ").split()
    else:
        names = [x[0] if isinstance(x, tuple) else x for x in M.unpack(fields)]
    c = ClassO(name, (), {}, I.where_fn().split(":")[0])
    d = {}
    if defaults is not None:
        ds = M.unpack(defaults)
        d = dict(zip(names[len(names) - len(ds):], ds))
    O.make_namedtuple(c, names, d)
    return c


EXT["collections.namedtuple"] = Builtin("namedtuple", _namedtuple)


def call_opaque(f, args, kw):
    if f.op == "typing":
        if f.args[0] == "typing.NamedTuple":
            return _namedtuple(*args, **kw)
        if args and f.args[0].split(".")[-1] in ("List", "Dict", "Tuple", "Set"):
            return M.call_type({"List": list, "Dict": dict, "Tuple": tuple, "Set": set}[f.args[0].split(".")[-1]], args, kw)
        return Opq("typing", ("typing.Any",))
    if f.op == "ext":
        effect("ext", f.args[0], None, tuple(args), tuple(sorted(kw)))
        return Opq("call", (f.args[0], counter("ext"), tuple(map(_sh, args))), ty="any")
    if f.op in ("NotImplemented", "Ellipsis", "td", "tz"):
        throw(TypeError, "object is not callable")
    effect("ext", str(f), None, tuple(args), tuple(sorted(kw)))
    return Opq("call", (str(f), counter("ext"), tuple(map(_sh, args))), ty="any")


def _sh(x):
    return x if isinstance(x, (int, str, bytes, Lin, Rope, Opq, tuple, type(None))) else str(type(x))


# ------------------------------------------------------------------ attrs

def _attrs_deco(auto=False, **base):
    def s(maybe_cls=None, **kw):
        o = dict(base)
        o.update(kw)
        aa = o.pop("auto_attribs", auto)

        def d(cls):
            opts = {k: o[k] for k in ("repr", "eq", "frozen", "init", "kw_only") if k in o and o[k] is not None}
            if o.get("cmp") is not None:
                opts["eq"] = o["cmp"]
            if o.get("frozen"):
                opts["hashable"] = True
            if o.get("unsafe_hash") or o.get("hash"):
                opts["hashable"] = True
            if opts.get("eq") is False:
                opts["hashable"] = True
            os = o.get("on_setattr")
            if os is not None and not isinstance(os, str):
                os = "validate convert"
            if o.get("frozen"):
                os = None
            opts["on_setattr"] = os
            return O.process_fields(cls, aa, opts, detect=o.get("auto_detect", False))
        return d(maybe_cls) if maybe_cls is not None else Builtin("attrs", d)
    return s


for _n in ("s", "attrs", "attributes"):
    EXT["attr." + _n] = Builtin("attr." + _n, _attrs_deco(False))
EXT["attr.dataclass"] = Builtin("attr.dataclass", _attrs_deco(True))
for _n in ("define", "mutable"):
    EXT["attr." + _n] = Builtin("attr." + _n, _attrs_deco(None, auto_detect=True, on_setattr="validate convert"))
EXT["attr.frozen"] = Builtin("attr.frozen", _attrs_deco(None, auto_detect=True, frozen=True))


def _ib(*a, **kw):
    for k, v in zip(("default", "validator", "repr"), a):
        kw[k] = v
    if kw.get("default", MISSING) is NOTHING:
        del kw["default"]
    return O.AttrIb(**{k: v for k, v in kw.items() if v is not None or k == "default"})


NOTHING = Opq("attr.NOTHING")
EXT["attr.NOTHING"] = NOTHING
for _n in ("ib", "attrib", "attr", "field"):
    EXT["attr." + _n] = Builtin("attr." + _n, _ib)
EXT["attr.Factory"] = Builtin("Factory", lambda factory, takes_self=False: O.FactoryV(factory, takes_self))


def _asdict(o, recurse=True, **kw):
    d = {}
    for f in o.cls.fields:
        v = o.attrs[f.name]
        if recurse and isinstance(v, Inst) and isinstance(v.cls, ClassO) and v.cls.fields is not None and v.payload is None:
            v = _asdict(v)
        d[f.name] = v
    return DictO({M.key(k): (k, v) for k, v in d.items()})


def _evolve(o, **ch):
    kw = {f.alias: o.attrs[f.name] for f in o.cls.fields if f.init}
    kw.update(ch)
    return call(o.cls, [], kw)


EXT["attr.asdict"] = Builtin("asdict", _asdict)
EXT["attr.astuple"] = Builtin("astuple", lambda o, **k: tuple(o.attrs[f.name] for f in o.cls.fields))
EXT["attr.evolve"] = Builtin("evolve", _evolve)
EXT["attr.has"] = Builtin("has", lambda c: isinstance(c, ClassO) and c.fields is not None)


def _fieldobj(f):
    return ExtObj("attr.Attribute", {"name": f.name, "init": f.init, "repr": f.repr, "default": f.default if f.default is not MISSING else NOTHING,
                                     "alias": f.alias, "type": Opq("annotation", (f.name,)), "kw_only": f.kw_only})


EXT["attr.fields"] = Builtin("fields", lambda c: tuple(_fieldobj(f) for f in c.fields))
EXT["attr.fields_dict"] = Builtin("fields_dict", lambda c: DictO({M.key(f.name): (f.name, _fieldobj(f)) for f in c.fields}))
EXT["attr.setters.validate"] = "validate"
EXT["attr.setters.convert"] = "convert"
EXT["attr.setters.frozen"] = "frozen"
EXT["attr.setters.NO_OP"] = ""


def vname(attribute):
    return attribute.attrs.get("name", "?") if isinstance(attribute, ExtObj) else "?"


def _cmpval(opn, opc):
    def mk(bound):
        def v(inst, attribute, value):
            if not truth(M.compare(opc, value, bound)):
                throw(ValueError, f"'{vname(attribute)}' must be {opn} the bound")
        return Builtin("validator " + opn, v, {"validator": (opn, bound)})
    return mk


import ast as _ast
for _n, _c in (("ge", _ast.GtE()), ("gt", _ast.Gt()), ("le", _ast.LtE()), ("lt", _ast.Lt())):
    EXT["attr.validators." + _n] = Builtin(_n, _cmpval(_n, _c))


def _lenval(mx):
    def mk(n):
        def v(inst, attribute, value):
            ln = B.b_len(value)
            if not truth(ge(n, ln) if mx else ge(ln, n)):
                throw(ValueError, f"Length of '{vname(attribute)}' out of bounds")
        return Builtin("max_len" if mx else "min_len", v)
    return mk


EXT["attr.validators.max_len"] = Builtin("max_len", _lenval(True))
EXT["attr.validators.min_len"] = Builtin("min_len", _lenval(False))


def _instance_of(t):
    def v(inst, attribute, value):
        if not truth(I.isinst(value, t)):
            throw(TypeError, f"'{vname(attribute)}' must be an instance")
    return Builtin("instance_of", v)


def _in(options):
    def v(inst, attribute, value):
        if not truth(M.contains(options, value)):
            throw(ValueError, f"'{vname(attribute)}' must be in the options")
    return Builtin("in_", v)


def _vopt(val):
    def v(inst, attribute, value):
        if value is not None:
            O.validate_call(inst, attribute, val, value)
    return Builtin("optional", v)


def _validate_call(inst, attribute, val, value):
    for x in (M.unpack(val) if isinstance(val, (ListO, tuple)) else [val]):
        call(x, [inst, attribute, value], {})


O.validate_call = _validate_call


def _vor(*vs):
    def v(inst, attribute, value):
        for x in vs:
            try:
                _validate_call(inst, attribute, x, value)
                return
            except PyRaise as e:
                if not subclass(e.inst.cls, Exception):
                    raise
        throw(ValueError, "none of the validators satisfied")
    return Builtin("or_", v)


EXT["attr.validators.instance_of"] = Builtin("instance_of", _instance_of)
EXT["attr.validators.in_"] = Builtin("in_", _in)
EXT["attr.validators.optional"] = Builtin("optional", _vopt)
EXT["attr.validators.and_"] = Builtin("and_", lambda *vs: Builtin("and", lambda i, a, v: _validate_call(i, a, tuple(vs), v)))
EXT["attr.validators.or_"] = Builtin("or_", _vor)


def _is_callable(inst=None, attribute=None, value=None):
    def v(i, a, x):
        if not B.b_callable(x):
            throw(TypeError, "must be callable")
    return Builtin("is_callable", v)


EXT["attr.validators.is_callable"] = Builtin("is_callable", _is_callable)
EXT["attr.converters.optional"] = Builtin("optional", lambda c: Builtin("optional", lambda v: None if v is None else call(c, [v], {})))


def _default_if_none(default=MISSING, factory=None):
    def c(v):
        if v is not None:
            return v
        if factory is not None:
            return call(factory, [], {})
        return call(default.f, [], {}) if isinstance(default, O.FactoryV) else default
    return Builtin("default_if_none", c)


def _pipe(*cs):
    def c(v):
        for x in cs:
            v = call(x, [v], {})
        return v
    return Builtin("pipe", c)


EXT["attr.converters.default_if_none"] = Builtin("default_if_none", _default_if_none)
EXT["attr.converters.pipe"] = Builtin("pipe", _pipe)


# ------------------------------------------------------------------ dataclasses

def _dataclass(cls=None, **kw):
    def d(c):
        opts = {k: kw[k] for k in ("repr", "eq", "frozen", "init", "kw_only") if k in kw}
        if kw.get("frozen") or kw.get("unsafe_hash") or kw.get("eq") is False:
            opts["hashable"] = True
        return O.process_fields(c, True, opts, dc=True)
    return d(cls) if cls is not None else Builtin("dataclass", d)


EXT["dataclasses.dataclass"] = Builtin("dataclass", _dataclass)
EXT["dataclasses.field"] = Builtin("field", lambda **kw: O.AttrIb(**kw))
EXT["dataclasses.asdict"] = Builtin("asdict", _asdict)
EXT["dataclasses.astuple"] = EXT["attr.astuple"]
EXT["dataclasses.replace"] = Builtin("replace", _evolve)
EXT["dataclasses.fields"] = Builtin("fields", lambda c: tuple(_fieldobj(f) for f in (c if isinstance(c, ClassO) else c.cls).fields))
EXT["dataclasses.is_dataclass"] = EXT["attr.has"]
EXT["dataclasses.MISSING"] = Opq("dataclasses.MISSING")

# ------------------------------------------------------------------ enum

_Enum = ClassO("Enum", (), {}, "enum")
_Enum.opts["enum"] = True
EXTCLASS["enum.Enum"] = _Enum
for _n, _bases, _flag in (("IntEnum", (int, _Enum), False), ("Flag", (_Enum,), True), ("IntFlag", (int, _Enum), True), ("StrEnum", (str, _Enum), False)):
    _c = ClassO(_n, _bases, {}, "enum")
    _c.opts["enum"] = True
    _c.opts["flag"] = _flag
    EXTCLASS["enum." + _n] = _c
EXT["enum.auto"] = Builtin("auto", lambda: O.AUTO)


def _unique(c):
    if len({id(m) for m in c.members.values()}) != len(c.members):
        throw(ValueError, f"duplicate values found in {c.name}")
    return c


EXT["enum.unique"] = Builtin("unique", _unique)

# ------------------------------------------------------------------ struct

EXTCLASS["struct.error"] = _struct_error = ClassO("error", (Exception,), {}, "struct")


def parse_fmt(fmt):
    """[(code, offset, size, count)], total size, little-endian?"""
    fmt = txt(fmt)
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not isinstance(fmt, str):
        raise Gap("abstract struct format")
    fmt = fmt.replace(" ", "")
    order = fmt[0] if fmt and fmt[0] in "@=<>!" else ""
    body = fmt[len(order):]
    out = []
    i = 0
    done = ""
    while i < len(body):
        j = i
        while body[j].isdigit():
            j += 1
        cnt = int(body[i:j]) if j > i else 1
        c = body[j]
        i = j + 1
        try:
            if c in "sp":
                end = _struct.calcsize(order + done + f"{cnt}{c}")
                out.append((c, end - cnt, cnt, 1))
                done += f"{cnt}{c}"
            else:
                for _ in range(cnt):
                    done += c
                    end = _struct.calcsize(order + done)
                    sz = _struct.calcsize("=" + c) if order in ("=", "<", ">", "!") else _struct.calcsize(c)
                    out.append((c, end - sz, sz, 1))
                if cnt == 0:
                    done += "0" + c
        except _struct.error as e:
            throw(_struct_error, str(e))
    return [x for x in out if x[0] != "x"], _struct.calcsize(order + body), order not in (">", "!")


def float_of(code, es):
    """es: elements in little-endian order"""
    if all(isinstance(x, int) for x in es):
        return _struct.unpack("<" + code, bytes(es))[0]
    return Opq("float" + str(8 * len(es)), (rope("b", [("e", x) for x in es]),), ty="float")


def unpack_elems(items, es, little):
    out = []
    for c, off, sz, _ in items:
        e = es[off:off + sz]
        if c in "sp":
            out.append(rope("b", [("e", x) for x in e]))
            continue
        if c == "c":
            out.append(rope("b", [("e", e[0])]))
            continue
        if not little:
            e = e[::-1]
        if c in "fde":
            out.append(float_of(c, e))
            continue
        v = 0
        for i, x in enumerate(e):
            v = add(v, mulc(x, 1 << 8 * i))
        if c == "?":
            out.append(truthc(v))
            continue
        if c in "bhilqn":
            if decide(ge(v, 1 << 8 * sz - 1)):
                v = sub(v, 1 << 8 * sz)
        elif c not in "BHILQN":
            raise Gap(f"struct format {c}")
        out.append(S(v))
    return tuple(out)


def st_unpack(fmt, data, exact=True, offset=0):
    items, size, little = parse_fmt(fmt)
    t = T.mat(B.bytes_value(data))
    n = T.length(t)
    off = num(offset)
    if exact:
        if not decide(eq(n, size)):
            throw(_struct_error, f"unpack requires a buffer of {size} bytes")
    else:
        off = T.idx_norm(off, n)
        if not decide(ge(off, 0)) or not decide(ge(sub(n, off), size)):
            throw(_struct_error, f"unpack_from requires a buffer of at least {size} bytes")
    t = T.slice_(t, off, add(off, size))
    es = T.elems(t)
    if es is None:
        raise Gap("struct data of unknown length")
    return unpack_elems(items, es, little)


def st_pack(fmt, *vals):
    items, size, little = parse_fmt(fmt)
    if len(items) != len(vals):
        throw(_struct_error, f"pack expected {len(items)} items for packing (got {len(vals)})")
    out = [0] * size
    for (c, off, sz, _), v in zip(items, vals):
        if c in "sp":
            t = txt(v)
            if t is None or kind_of(t) != "b":
                throw(_struct_error, "argument for 's' must be a bytes object")
            e = T.fixed(t)
            if e is None:
                if decide(ge(T.length(t), sz)):
                    e = [el_i for el_i in T.elems(T.slice_(t, 0, sz))]
                else:
                    raise Gap("struct 's' of unknown length")
            e = (e + [0] * sz)[:sz]
        elif c == "c":
            e = T.elems(txt(v))
            if e is None or len(e) != 1:
                throw(_struct_error, "char format requires a bytes object of length 1")
        elif c in "fde":
            if isinstance(v, (int, float)):
                try:
                    e = list(_struct.pack("<" + c, v))
                except OverflowError:
                    throw(OverflowError, "float too large to pack")
            else:
                if isinstance(v, Opq) and v.op == "float" + str(8 * sz):
                    e = T.elems(v.args[0])
                else:
                    s = src("b", "packfloat", c, v if isinstance(v, Opq) else num(v), len=sz)
                    e = [el(s, i) for i in range(sz)]
            if not little:
                e = e[::-1]
        elif c == "?":
            x = truthc(v)
            e = [num(x)]
        else:
            n = num(v)
            if n is None:
                throw(_struct_error, "required argument is not an integer")
            lo, hi = (-(1 << 8 * sz - 1), (1 << 8 * sz - 1) - 1) if c in "bhilqn" else (0, (1 << 8 * sz) - 1)
            if not decide(ge(n, lo)) or not decide(ge(hi, n)):
                throw(_struct_error, f"'{c}' format requires {lo} <= number <= {hi}")
            n = S(n)
            if c in "bhilqn" and not decide(ge(n, 0)):
                n = add(n, 1 << 8 * sz)
            e = [S(bf(n, 8 * i, 8)) if isinstance(n, Lin) else n >> 8 * i & 255 for i in range(sz)]
            if not little:
                e = e[::-1]
        out[off:off + sz] = e
    return rope("b", [("e", x) for x in out])


EXT["struct.unpack"] = Builtin("struct.unpack", lambda f, d: st_unpack(f, d))
EXT["struct.unpack_from"] = Builtin("struct.unpack_from", lambda f, buffer, offset=0: st_unpack(f, buffer, False, offset))
EXT["struct.pack"] = Builtin("struct.pack", st_pack)
EXT["struct.calcsize"] = Builtin("struct.calcsize", lambda f: parse_fmt(f)[1])


def st_iter(fmt, data):
    size = parse_fmt(fmt)[1]
    t = T.mat(B.bytes_value(data))
    e = T.fixed(t)
    if e is None:
        raise Gap("iter_unpack of data of unknown length")
    if len(e) % size:
        throw(_struct_error, "iterative unpacking requires a buffer of a multiple of the size")
    return IterO("seq", ListO([st_unpack(fmt, rope("b", [("e", x) for x in e[i:i + size]])) for i in range(0, len(e), size)]))


EXT["struct.iter_unpack"] = Builtin("iter_unpack", st_iter)


def _Struct(fmt):
    o = ExtObj("struct.Struct", {"format": fmt, "size": parse_fmt(fmt)[1]})
    o.attrs["unpack"] = Builtin("unpack", lambda d: st_unpack(fmt, d))
    o.attrs["unpack_from"] = Builtin("unpack_from", lambda buffer, offset=0: st_unpack(fmt, buffer, False, offset))
    o.attrs["pack"] = Builtin("pack", lambda *v: st_pack(fmt, *v))
    return o


EXT["struct.Struct"] = Builtin("Struct", _Struct)

# ------------------------------------------------------------------ datetime

def _cls(path, bases=(), new=None):
    mod, name = path.rsplit(".", 1)
    c = ClassO(name, bases, {}, mod)
    if new is not None:
        c.opts["ext_new"] = new
    EXTCLASS[path] = c
    return c


RANGES = (("year", 1, 9999), ("month", 1, 12), ("day", 1, 31), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 59), ("microsecond", 0, 999999))


def make_dt(vals, tz=None):
    out = []
    for (n, lo, hi), v in zip(RANGES, vals):
        x = num(v)
        if x is None:
            I.bad_type(lambda y: bytes(0) if isinstance(y, int) else bytes([y]), f"an integer is required for {n}", v)
        if not decide(ge(x, lo)) or not decide(ge(hi, x)):
            throw(ValueError, f"{n} must be in {lo}..{hi}")
        out.append(S(x))
    y, m, d = out[:3]
    if known(ge(28, d)) is not True:
        if all(isinstance(x, int) for x in (y, m, d)):
            try:
                _dt.date(y, m, d)
            except ValueError:
                throw(ValueError, "day is out of range for month")
        elif not decide(pred("realdate", y, m, d)):
            throw(ValueError, "day is out of range for month")
    return DT(out, tz)


def _new_dt(cls, args, kw):
    names = [r[0] for r in RANGES]
    vals = dict(zip(names, args))
    tz = kw.pop("tzinfo", None)
    if len(args) > 7:
        tz = args[7]
    kw.pop("fold", None)
    for k, v in kw.items():
        if k not in names or k in vals:
            throw(TypeError, f"unexpected argument {k}")
        vals[k] = v
    for k in names[:3]:
        if k not in vals:
            throw(TypeError, f"missing argument {k}")
    return make_dt([vals.get(k, 0) for k in names], tz)


_date = _cls("datetime.date", (), lambda c, a, k: make_dt(list(a) + [k[x] for x in ("year", "month", "day")[len(a):]] + [0] * 4))
_datetime = _cls("datetime.datetime", (_date,), _new_dt)


def _clock(name, ty="float"):
    effect("clock", name)
    return Opq("clock", (name, counter("clock")), ty=ty)


def _now(*a, **k):
    effect("clock", "datetime.now")
    return Opq("clock", ("now", counter("clock")), ty="datetime.datetime")


for _n in ("now", "utcnow", "today"):
    _datetime.ns[_n] = Builtin(_n, _now)
_date.ns["today"] = Builtin("today", _now)


def _fromtimestamp(ts, tz=None):
    n = num(ts)
    if isinstance(n, int) and (tz is not None):
        d = _dt.datetime.fromtimestamp(n, _dt.timezone.utc)
        return DT((d.year, d.month, d.day, d.hour, d.minute, d.second, 0), tz)
    return Opq("fromtimestamp", (n if n is not None else ts, str(tz)), ty="datetime.datetime")


def _utcfromtimestamp(ts):
    n = num(ts)
    if n is None:
        raise Gap("utcfromtimestamp")
    return dt_add(DT((1970, 1, 1, 0, 0, 0, 0)), n)


_datetime.ns["fromtimestamp"] = Builtin("fromtimestamp", _fromtimestamp)
_datetime.ns["utcfromtimestamp"] = Builtin("utcfromtimestamp", _utcfromtimestamp)


def _fromiso(s):
    s = txt(s)
    if isinstance(s, str):
        try:
            d = _dt.datetime.fromisoformat(s)
        except ValueError:
            throw(ValueError, "Invalid isoformat string")
        return DT((d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond))
    raise Gap("fromisoformat of abstract text")


def _strptime(s, f):
    s, f = txt(s), txt(f)
    if isinstance(s, str) and isinstance(f, str):
        try:
            d = _dt.datetime.strptime(s, f)
        except ValueError:
            throw(ValueError, "time data does not match format")
        return DT((d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond))
    raise Gap("strptime of abstract text")


_datetime.ns["fromisoformat"] = Builtin("fromisoformat", _fromiso)
_datetime.ns["strptime"] = Builtin("strptime", _strptime)
_datetime.ns["combine"] = Builtin("combine", lambda d, t, **k: DT(d.f[:3] + t.f[3:]))
_datetime.ns["min"] = DT((1, 1, 1, 0, 0, 0, 0))
_datetime.ns["max"] = DT((9999, 12, 31, 23, 59, 59, 999999))
EXT["datetime.timezone.utc"] = Opq("tz", ("utc",))
EXT["datetime.UTC"] = EXT["datetime.timezone.utc"]


def _td(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    r = 0
    for v, k in ((days, 86400), (seconds, 1), (minutes, 60), (hours, 3600), (weeks, 604800)):
        n = num(v)
        if n is None:
            if isinstance(v, float) and v == int(v):
                n = int(v)
            else:
                return Opq("td", (Opq("tdmix", (days, seconds, microseconds, milliseconds, minutes, hours, weeks)),), ty="datetime.timedelta")
        r = add(r, mulc(n, k))
    if num(microseconds) != 0 or num(milliseconds) != 0:
        return Opq("td", (Opq("tdmix", (r, microseconds, milliseconds)),), ty="datetime.timedelta")
    return Opq("td", (r,), ty="datetime.timedelta")


_cls("datetime.timedelta", (), lambda c, a, k: _td(*a, **k))
_cls("datetime.timezone", (), lambda c, a, k: Opq("tz", tuple(map(str, a))))
EXTCLASS["datetime.timezone"].ns["utc"] = EXT["datetime.timezone.utc"]
_cls("datetime.time", (), lambda c, a, k: DT((0, 0, 0) + tuple((list(a) + [0] * 4)[:4])))


def dt_add(d, secs):
    if isinstance(secs, int) and isinstance(d, DT) and all(isinstance(x, int) for x in d.f):
        try:
            r = _dt.datetime(*d.f) + _dt.timedelta(seconds=secs)
        except OverflowError:
            throw(OverflowError, "date value out of range")
        return DT((r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond), d.tz)
    if isinstance(d, Opq) and d.op == "dtadd" and not isinstance(secs, Opq) and not isinstance(d.args[1], Opq):
        return dt_add(d.args[0], add(d.args[1], secs))
    if isinstance(secs, int) and secs == 0:
        return d
    if isinstance(d, DT) and all(isinstance(x, int) for x in d.f) and not isinstance(secs, Opq):
        # base dates are brought to one epoch
        e = _dt.datetime(2000, 1, 1)
        off = int((_dt.datetime(*d.f) - e).total_seconds())
        if d.f[6] == 0:
            return Opq("dtadd", (DT((2000, 1, 1, 0, 0, 0, 0), d.tz), add(secs, off)), ty="datetime.datetime")
    return Opq("dtadd", (d, secs), ty="datetime.datetime")


def isdt(v):
    return isinstance(v, DT) or isinstance(v, Opq) and v.ty == "datetime.datetime"


def istd(v):
    return isinstance(v, Opq) and v.ty == "datetime.timedelta"


def ext_binop(op, a, b):
    if isdt(a) and istd(b) and op in ("add", "sub"):
        s = b.args[0]
        if op == "sub":
            s = Opq("neg", (s,), ty="float") if isinstance(s, Opq) else mulc(s, -1)
        return dt_add(a, s)
    if istd(a) and isdt(b) and op == "add":
        return dt_add(b, a.args[0])
    if isdt(a) and isdt(b) and op == "sub":
        if isinstance(a, DT) and isinstance(b, DT) and all(isinstance(x, int) for x in a.f + b.f):
            return Opq("td", (int((_dt.datetime(*a.f) - _dt.datetime(*b.f)).total_seconds()),), ty="datetime.timedelta")
        return Opq("td", (Opq("dtsub", (a, b), ty="float"),), ty="datetime.timedelta")
    if istd(a) and istd(b) and op in ("add", "sub"):
        x, y = a.args[0], b.args[0]
        if isinstance(x, Opq) or isinstance(y, Opq):
            return Opq("td", (Opq(op, (x, y), ty="float"),), ty="datetime.timedelta")
        return Opq("td", (add(x, y) if op == "add" else sub(x, y),), ty="datetime.timedelta")
    for x, y in ((a, b), (b, a)):
        if istd(x) and op == "mul" and num(y) is not None and not isinstance(x.args[0], Opq):
            return Opq("td", (mul(x.args[0], num(y)),), ty="datetime.timedelta")
    if istd(a) or isdt(a) or istd(b) or isdt(b):
        if op in ("floordiv", "truediv", "mod"):
            return Opq("td" + op, (a, b), ty="float")
        I.bad_type(M.PYOP[{v: k for k, v in M.OPN.items()}[op]], f"unsupported operand types for {op}", a, b)
    return None


STRF = {"S": (5, 2), "M": (4, 2), "H": (3, 2), "d": (2, 2), "m": (1, 2), "Y": (0, 4), "f": (6, 6)}


def dtfield(v, i):
    if isinstance(v, DT):
        return v.f[i]
    n, lo, hi = RANGES[i]
    return L(atom("dtfield", n, v, lo=lo, hi=hi))


def strftime(v, spec):
    out = []
    i = 0
    spec = txt(spec)
    if not isinstance(spec, str):
        raise Gap("abstract format")
    while i < len(spec):
        c = spec[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        k = spec[i + 1]
        i += 2
        if k == "%":
            out.append("%")
        elif k in STRF:
            j, w = STRF[k]
            f = dtfield(v, j)
            if k == "Y" and known(ge(f, 1000)) is not True:
                out.append(M.dec_text(f) if False else _pad(f, 4))
            else:
                out.append(_pad(f, w))
        elif k == "y":
            out.append(_pad(S(mod(dtfield(v, 0), 100)), 2))
        else:
            out.append(whole(src("s", "strftime", k, v)))
    return M.concat_text(out)


def _pad(f, w):
    if isinstance(f, int):
        return str(f).zfill(w)
    r = T.padded(f, w)
    return r if r is not None else whole(src("s", "pad", f, w))


def dt_method(v, name):
    for i, (n, _, _) in enumerate(RANGES):
        if n == name:
            return dtfield(v, i)
    if name == "tzinfo":
        return v.tz if isinstance(v, DT) else None
    if name == "fold":
        return 0
    if name == "replace":
        def rep(*a, **kw):
            if isinstance(v, Opq):
                if set(kw) == {"tzinfo"}:
                    return v
                return Opq("dtreplace", (v, tuple(sorted(kw)), tuple(str(x) for x in kw.values())), ty="datetime.datetime")
            vals = list(v.f)
            tz = kw.pop("tzinfo", v.tz)
            for i, x in enumerate(a):
                vals[i] = x
            for k, x in kw.items():
                vals[[r[0] for r in RANGES].index(k)] = x
            return make_dt(vals, tz)
        return Builtin("replace", rep)
    if name == "strftime":
        return Builtin(name, lambda f: strftime(v, f))
    if name == "__format__":
        return Builtin(name, lambda f: M.b_format(v, f))
    if name == "isoformat":
        def iso(sep="T", timespec="auto"):
            return whole(src("s", "isoformat", v if isinstance(v, DT) else str(v), sep, timespec))
        return Builtin(name, iso)
    if name in ("date", "time"):
        if isinstance(v, DT):
            return Builtin(name, lambda: DT(v.f[:3] + (0, 0, 0, 0)) if name == "date" else DT((0, 0, 0) + v.f[3:]))
    if name in ("timetuple", "utctimetuple"):
        d = {"tm_" + k: dtfield(v, i) for k, i in (("year", 0), ("mon", 1), ("mday", 2), ("hour", 3), ("min", 4), ("sec", 5))}
        return Builtin(name, lambda: Inst(TT, dict(d), payload=tuple(d.values()) + (0, 0, -1)))
    if name in ("timestamp", "weekday", "isoweekday", "toordinal", "utcoffset", "dst", "tzname", "ctime", "astimezone", "isocalendar"):
        return Builtin(name, lambda *a: Opq("dt." + name, (v,), ty="float"))
    if name in _datetime.ns:
        return _datetime.ns[name]
    return None


TT = ClassO("struct_time", (tuple,), {}, "time")

# ------------------------------------------------------------------ randomness

def rand(lo, hi, name="rand"):
    if isinstance(lo, int) and isinstance(hi, int):
        if lo == hi:
            return lo
        if lo > hi:
            throw(ValueError, "empty range for random")
        effect("rand", name)
        return L(atom("rand", counter("rand"), lo=lo, hi=hi))
    raise Gap("random number with abstract bounds")


def rand_bytes(n):
    n = S(num(n))
    effect("rand", "bytes")
    if isinstance(n, Lin):
        l, h = rng(n, R.facts)
        if h is not None and h <= 64:
            n = M.shift_amount(n)
        else:
            if not decide(ge(n, 0)):
                throw(ValueError, "negative argument not allowed")
            return whole(src("b", "random", counter("rand"), n, len=n))
    if n < 0:
        throw(ValueError, "negative argument not allowed")
    return rope("b", [("e", L(atom("rand", counter("rand"), lo=0, hi=255))) for _ in range(n)])


def rand_choice(pop):
    t = txt(pop)
    if t is not None:
        e = T.elems(t)
        if e is None or not e or not all(isinstance(x, int) for x in e):
            raise Gap("choice from abstract text")
        effect("rand", "choice")
        x = L(atom("rand", counter("rand"), lo=min(e), hi=max(e)))
        return rope("s", [("e", x)]) if kind_of(t) == "s" else x
    if isinstance(pop, RangeV) and isinstance(pop.a, int) and isinstance(pop.b, int) and pop.s == 1:
        return rand(pop.a, pop.b - 1)
    items = M.unpack(pop)
    effect("rand", "choice")
    if not items:
        throw(IndexError, "Cannot choose from an empty sequence")
    if all(isinstance(x, int) for x in items):
        return L(atom("rand", counter("rand"), lo=min(items), hi=max(items)))
    if all(isinstance(txt(x), (str, bytes)) and len(txt(x)) == 1 for x in items):
        cs = [ord(txt(x)) if isinstance(txt(x), str) else txt(x)[0] for x in items]
        return rope(kind_of(txt(items[0])), [("e", L(atom("rand", counter("rand"), lo=min(cs), hi=max(cs))))])
    return items[choose(len(items), "random choice")]


def _choices(pop, weights=None, *, cum_weights=None, k=1):
    return ListO([rand_choice(pop) for _ in range(M.bounded(num(k), 0, 64) if isinstance(num(k), Lin) else num(k))])


def _randrange(a, b=None, s=1):
    a, b = num(a), num(b) if b is not None else None
    if b is None:
        a, b = 0, a
    return rand(a, b - 1)


def _getrandbits(k):
    return rand(0, (1 << num(k)) - 1)


for _p in ("random.", "random.SystemRandom.", "secrets.SystemRandom."):
    EXT[_p + "randint"] = Builtin("randint", lambda a, b: rand(num(a), num(b)))
    EXT[_p + "randrange"] = Builtin("randrange", _randrange)
    EXT[_p + "choice"] = Builtin("choice", rand_choice)
    EXT[_p + "choices"] = Builtin("choices", _choices)
    EXT[_p + "getrandbits"] = Builtin("getrandbits", _getrandbits)
    EXT[_p + "randbytes"] = Builtin("randbytes", rand_bytes)
    EXT[_p + "random"] = Builtin("random", lambda: Opq("random", (counter("rand"),), ty="float"))
    EXT[_p + "uniform"] = Builtin("uniform", lambda a, b: Opq("random", (counter("rand"),), ty="float"))
    EXT[_p + "seed"] = Builtin("seed", lambda *a: None)
    EXT[_p + "sample"] = Builtin("sample", lambda pop, k: _choices(pop, k=k))
EXT["random.SystemRandom"] = Builtin("SystemRandom", lambda *a: _randobj())
EXT["random.Random"] = Builtin("Random", lambda *a: _randobj())
EXT["secrets.SystemRandom"] = EXT["random.SystemRandom"]
EXT["secrets.choice"] = EXT["random.choice"]
EXT["secrets.randbelow"] = Builtin("randbelow", lambda n: rand(0, num(n) - 1))
EXT["secrets.randbits"] = EXT["random.getrandbits"]
EXT["secrets.token_bytes"] = Builtin("token_bytes", lambda n=32: rand_bytes(n))
EXT["os.urandom"] = Builtin("urandom", rand_bytes)


def _randobj():
    return ExtObj("random.Random", {k.rsplit(".", 1)[1]: v for k, v in EXT.items() if k.startswith("random.") and k.count(".") == 1 and k[7:8].islower()})


# ------------------------------------------------------------------ clocks

for _n in ("monotonic", "time", "perf_counter", "process_time", "time_ns", "monotonic_ns"):
    EXT["time." + _n] = Builtin("time." + _n, lambda _n=_n: _clock(_n))
EXT["time.sleep"] = Builtin("time.sleep", lambda s: effect("clock", "sleep"))

# ------------------------------------------------------------------ logging

LOGM = ("debug", "info", "warning", "warn", "error", "critical", "exception", "msg", "log", "fatal")


def _logger(*a, **k):
    return ExtObj("log")


for _p in ("structlog.get_logger", "structlog.getLogger", "structlog.stdlib.get_logger", "logging.getLogger"):
    EXT[_p] = Builtin(_p, _logger)
for _n in ("debug", "info", "warning", "error", "critical", "exception", "log"):
    EXT["logging." + _n] = Builtin("logging." + _n, lambda *a, **k: effect("log", "root", a, k))
EXT["warnings.warn"] = Builtin("warn", lambda *a, **k: effect("log", "warn", a, k))


def log_op(o, name):
    if name in LOGM:
        return Builtin("log." + name, lambda *a, **k: effect("log", name, a, k))
    if name in ("bind", "new", "unbind", "try_unbind", "getChild"):
        return Builtin("log." + name, lambda *a, **k: o)
    return Builtin("log." + name, lambda *a, **k: Opq("log." + name, (), ty="any"))


# ------------------------------------------------------------------ external operations with several outcomes

class Outcome:
    """ok value or exception class"""


def raise_ext(cls, what):
    throw(cls, f"{what} failed")


def attempt(path, obj, args, kw, excs, ok):
    """One external operation: it may succeed or fail in each of the listed ways."""
    if obj is not None and path.rsplit(".", 1)[1] not in ("close", "open") and gone(obj):
        excs = (OSError,) if obj.path == "socket.socket" else (EXTCLASS["serial.serialutil.PortNotOpenError"],)
        i = 1                           # every operation on a closed handle fails
    else:
        i = choose(1 + len(excs), ("ext", path))
    out = "ok" if i == 0 else (excs[i - 1].name if isinstance(excs[i - 1], ClassO) else excs[i - 1].__name__)
    pairs = tuple(sorted(kw.items(), key=lambda p: p[0]))
    if i:
        effect("ext", path, obj, tuple(args), pairs, out)
        throw(excs[i - 1], f"{path} failed")
    r = ok()
    effect("ext", path, obj, tuple(args), pairs, "ok", r)
    return r


def gone(o):
    """The handle was closed earlier on this trace"""
    last = None
    for e in R.effects:
        if e.kind == "ext" and e.data[1] is o and e.data[0].rsplit(".", 1)[1] in ("close", "open") and e.data[4] == "ok":
            last = e.data[0]
    return last is not None and last.endswith(".close")


for _n, _v in (("timeout", TimeoutError), ("error", OSError), ("gaierror", _socket.gaierror), ("herror", _socket.herror)):
    EXT["socket." + _n] = _v
SOCKERR = (OSError, TimeoutError, ConnectionResetError)


def _create_connection(*args, **kw):
    return attempt("socket.create_connection", None, args, kw, (OSError, TimeoutError, ConnectionRefusedError, _socket.gaierror), lambda: ExtObj("socket.socket", {"·via": "create_connection"}))


def _socket_ctor(*args, **kw):
    return attempt("socket.socket", None, args, kw, (OSError,), lambda: ExtObj("socket.socket", {"·via": "socket"}))


EXT["socket.create_connection"] = Builtin("socket.create_connection", _create_connection)
EXT["socket.socket"] = Builtin("socket.socket", _socket_ctor)
EXT["socket.inet_ntoa"] = Builtin("inet_ntoa", lambda b: ip_text(b, OSError))
EXT["socket.inet_ntop"] = Builtin("inet_ntop", lambda f, b: ip_text(b, ValueError))


def ip_text(b, exc):
    t = T.mat(B.bytes_value(b))
    if not decide(eq(T.length(t), 4)):
        throw(exc, "packed IP wrong length")
    e = T.elems(t)
    out = []
    for i, x in enumerate(e):
        if i:
            out.append(".")
        out.append(M.dec_text(x))
    return M.concat_text(out)


def recv_data(n, tag):
    """Between 1 and n received bytes"""
    n = S(num(n)) if num(n) is not None else n
    k = counter("recv")
    if n == 1:
        return rope("b", [("e", L(atom("in", tag, k, lo=0, hi=255)))])
    if isinstance(n, int) and n <= 4:
        return rope("b", [("e", L(atom("in", tag, k, i, lo=0, hi=255))) for i in range(1 + choose(n, ("received", tag)))])
    if isinstance(n, int):
        return whole(src("b", "in", tag, k, lo=1, hi=n))
    s = src("b", "in", tag, k, lo=1)
    if not R.facts.assume(ge(n, s.len), True):
        raise Infeasible()
    return whole(s)


def received(path, n, tag):
    def ok():
        return recv_data(n, tag)
    return ok


def sock_op(path, excs, ok=lambda o, a, k: None):
    def f(o, args, kw):
        return attempt(path, o, args, kw, excs, lambda: ok(o, args, kw))
    OPS[("socket.socket", path.split(".")[-1])] = f


def _recv_outcome(path, o, args, kw, excs, tag):
    """data, nothing, or an exception"""
    if gone(o):
        excs, i = ((OSError,) if o.path == "socket.socket" else (EXTCLASS["serial.serialutil.PortNotOpenError"],)), 2
    else:
        i = choose(2 + len(excs), ("ext", path))
    out = ("data", "empty")[i] if i < 2 else getattr(excs[i - 2], "name", None) or excs[i - 2].__name__
    if i == 0:
        d = recv_data(args[0] if args else kw.get("size", 1), tag)
        effect("ext", path, o, tuple(args), (), "data", d)
        return d
    effect("ext", path, o, tuple(args), (), out)
    if i == 1:
        return b""
    throw(excs[i - 2], f"{path} failed")


OPS[("socket.socket", "recv")] = lambda o, a, k: _recv_outcome("socket.recv", o, a, k, SOCKERR, "socket")
for _n in ("sendall", "shutdown", "close", "settimeout", "setsockopt", "setblocking", "connect", "bind", "listen", "detach"):
    sock_op("socket." + _n, SOCKERR if _n not in ("settimeout", "setblocking") else ())


def _send(o, a, k):
    def ok():
        s = L(atom("sent", counter("sent"), lo=0))
        if not R.facts.assume(ge(T.length(txt(a[0])), s), True):
            raise Infeasible()
        return s
    return attempt("socket.send", o, a, k, SOCKERR, ok)


OPS[("socket.socket", "send")] = _send
OPS[("socket.socket", "fileno")] = lambda o, a, k: 3
OPS[("socket.socket", "gettimeout")] = lambda o, a, k: Opq("gettimeout", (), ty="any")

_SerialException = _cls("serial.SerialException", (OSError,))
EXTCLASS["serial.serialutil.SerialException"] = _SerialException
_cls("serial.SerialTimeoutException", (_SerialException,))
_PortNotOpen = _cls("serial.serialutil.PortNotOpenError", (_SerialException,))
EXTCLASS["serial.PortNotOpenError"] = _PortNotOpen
SERERR = (OSError, _SerialException)


def _Serial(*args, **kw):
    return attempt("serial.Serial", None, args, kw, SERERR, lambda: ExtObj("serial.Serial", {"·via": "Serial"}))


EXT["serial.Serial"] = Builtin("serial.Serial", _Serial)
EXT["serial.serial_for_url"] = EXT["serial.Serial"]
OPS[("serial.Serial", "read")] = lambda o, a, k: _recv_outcome("serial.read", o, a, k, SERERR, "serial")
for _n in ("close", "flush", "reset_input_buffer", "reset_output_buffer", "open", "flushInput", "flushOutput"):
    OPS[("serial.Serial", _n)] = lambda o, a, k, _n=_n: attempt("serial." + _n, o, a, k, SERERR, lambda: None)


def _ser_write(o, a, k):
    def ok():
        return T.length(txt(a[0]))
    return attempt("serial.write", o, a, k, SERERR + (EXTCLASS["serial.SerialTimeoutException"],), ok)


OPS[("serial.Serial", "write")] = _ser_write

# ------------------------------------------------------------------ AES

CR = "cryptography.hazmat.primitives.ciphers."


def _AES(key):
    t = txt(key)
    if t is None or kind_of(t) != "b":
        I.bad_type(memoryview, "key must be bytes", key)
    n = T.length(t)
    if not (decide(eq(n, 16)) or decide(eq(n, 24)) or decide(eq(n, 32))):
        throw(ValueError, "Invalid key size for AES")
    return ExtObj("AES", {"·key": T.mat(t)})


def _mode(name):
    def f(initialization_vector=None):
        t = txt(initialization_vector) if initialization_vector is not None else None
        if name != "ecb" and (t is None or kind_of(t) != "b"):
            I.bad_type(memoryview, "initialization_vector must be bytes-like", initialization_vector)
        return ExtObj("mode", {"·name": name, "·iv": T.mat(t) if t is not None else None})
    return f


def _Cipher(algorithm, mode, backend=None):
    if not (isinstance(algorithm, ExtObj) and algorithm.path == "AES" and isinstance(mode, ExtObj) and mode.path == "mode"):
        raise Gap("cipher algorithm")
    iv = mode.attrs["·iv"]
    if iv is not None and not decide(eq(T.length(iv), 16)):
        throw(ValueError, "Invalid IV size for CBC")
    return ExtObj("Cipher", {"·key": algorithm.attrs["·key"], "·mode": mode.attrs["·name"], "·iv": iv})


EXT[CR + "algorithms.AES"] = Builtin("AES", _AES)
EXT[CR + "algorithms.AES128"] = Builtin("AES", _AES)
EXT[CR + "algorithms.AES256"] = Builtin("AES", _AES)
for _n in ("CBC", "ECB", "CTR", "CFB", "OFB"):
    EXT[CR + "modes." + _n] = Builtin(_n, _mode(_n.lower()))
EXT[CR + "Cipher"] = Builtin("Cipher", _Cipher)
EXT[CR + "base.Cipher"] = EXT[CR + "Cipher"]
EXT["cryptography.hazmat.backends.default_backend"] = Builtin("default_backend", lambda: Opq("backend"))


def _cryptor(o, d):
    c = ExtObj("cryptor", {"·key": o.attrs["·key"], "·mode": o.attrs["·mode"], "·iv": o.attrs["·iv"], "·dir": d, "·bad": False, "·done": False, "·used": False})
    return c


OPS[("Cipher", "encryptor")] = lambda o, a, k: _cryptor(o, "enc")
OPS[("Cipher", "decryptor")] = lambda o, a, k: _cryptor(o, "dec")


def is_whole(v):
    return isinstance(v, Rope) and len(v.segs) == 1 and v.segs[0][0] == "s" and v.segs[0][2] == 0 and v.segs[0][3] == v.segs[0][1].len


def _crypt_update(o, a, k):
    d = txt(a[0])
    if d is None or kind_of(d) != "b":
        I.bad_type(memoryview, "data must be bytes", a[0])
    if o.attrs["·done"]:
        throw(ValueError, "Context was already finalized.")
    d = T.mat(d)
    n = T.length(d)
    if decide(eq(n, 0)):
        return b""
    if o.attrs["·bad"] or o.attrs["·used"]:
        raise Gap("several updates of one cipher context")
    o.put("·used", True)
    key, iv, m, dr = o.attrs["·key"], o.attrs["·iv"], o.attrs["·mode"], o.attrs["·dir"]
    if m in ("cbc", "ecb"):
        if not decide(eq(S(mod(n, 16)), 0)):
            o.put("·bad", True)
            return whole(src("b", f"aes-{m}-{dr}-partial", key, iv, d, lo=0, hi=None))
    inv = f"aes-{m}-{'dec' if dr == 'enc' else 'enc'}"
    if is_whole(d) and d.segs[0][1].op == inv:
        s = d.segs[0][1]
        if s.args[0] == key and s.args[1] == iv:
            return s.args[2]
    # what was decrypted or encrypted by the same keys in whole can be undone in whole only
    return whole(src("b", f"aes-{m}-{dr}", key, iv, d, len=T.length(d)))


def _crypt_finalize(o, a, k):
    if o.attrs["·done"]:
        throw(ValueError, "Context was already finalized.")
    o.put("·done", True)
    if o.attrs["·bad"]:
        throw(ValueError, "The length of the provided data is not a multiple of the block length.")
    return b""


OPS[("cryptor", "update")] = _crypt_update
OPS[("cryptor", "finalize")] = _crypt_finalize

# ------------------------------------------------------------------ marshmallow

_Schema = _cls("marshmallow.Schema")
EXTCLASS["marshmallow.schema.Schema"] = _Schema
_FieldC = _cls("marshmallow.fields.Field")


def _field_init(self, *a, **k):
    self.put("·args", tuple(a))
    self.put("·kw", dict(k))


_FieldC.ns["__init__"] = Builtin("__init__", _field_init, {"method": True})
for _n, _base in (("Raw", "Field"), ("Nested", "Field"), ("Mapping", "Field"), ("Dict", "Mapping"), ("List", "Field"), ("Tuple", "Field"),
                  ("String", "Field"), ("UUID", "String"), ("Number", "Field"), ("Integer", "Number"), ("Float", "Number"), ("Decimal", "Number"),
                  ("Boolean", "Field"), ("DateTime", "Field"), ("NaiveDateTime", "DateTime"), ("AwareDateTime", "DateTime"), ("Time", "DateTime"),
                  ("Date", "DateTime"), ("TimeDelta", "Field"), ("Url", "String"), ("Email", "String"), ("IP", "Field"), ("IPv4", "IP"), ("IPv6", "IP"),
                  ("Method", "Field"), ("Function", "Field"), ("Constant", "Field"), ("Enum", "Field"), ("Pluck", "Nested")):
    _cls("marshmallow.fields." + _n, (EXTCLASS["marshmallow.fields." + _base],))
for _n, _o in (("Int", "Integer"), ("Str", "String"), ("Bool", "Boolean"), ("URL", "Url")):
    EXTCLASS["marshmallow.fields." + _n] = EXTCLASS["marshmallow.fields." + _o]


def _hook(kind):
    def h(fn=None, **kw):
        def d(f):
            f.attrs["·hook"] = kind
            f.attrs["·hookkw"] = kw
            return f
        return d(fn) if fn is not None else Builtin(kind, d)
    return h


for _n in ("post_load", "pre_load", "post_dump", "pre_dump", "validates_schema"):
    EXT["marshmallow." + _n] = Builtin(_n, _hook(_n))
    EXT["marshmallow.decorators." + _n] = EXT["marshmallow." + _n]
EXT["marshmallow.validates"] = Builtin("validates", lambda *n: Builtin("validates", lambda f: (f.attrs.update({"·hook": "validates", "·hookkw": n}), f)[1]))
_cls("marshmallow.ValidationError", (ValueError,))
for _n in ("EXCLUDE", "INCLUDE", "RAISE"):
    EXT["marshmallow." + _n] = _n.lower()
for _n in ("Range", "Length", "OneOf", "Equal", "Regexp", "NoneOf", "ContainsOnly", "And", "Predicate", "Email", "URL"):
    EXT["marshmallow.validate." + _n] = Builtin(_n, lambda *a, _n=_n, **k: ExtObj("marshmallow.validate." + _n, {"·args": a, "·kw": k}))


# ------------------------------------------------------------------ functools, operator, itertools

def _wraps(wrapped, *a, **k):
    def d(f):
        if isinstance(f, FuncO):
            f.attrs["__name__"] = I.getattr_(wrapped, "__name__", "f")
            f.attrs["__wrapped__"] = wrapped
        return f
    return Builtin("wraps", d)


def _partial(f, *a, **k):
    return Builtin("partial", lambda *b, **l: call(f, list(a) + list(b), {**k, **l}), {"func": f})


def _cached(*a, **k):
    if a and isinstance(a[0], (FuncO, Builtin)):
        return a[0]
    return Builtin("cache", lambda f: f)


def _total_ordering(c):
    lt = c.ns.get("__lt__")
    if lt is not None:
        c.ns.setdefault("__gt__", Builtin("__gt__", lambda s, o: call(lt, [o, s], {}), {"method": True}))
        c.ns.setdefault("__le__", Builtin("__le__", lambda s, o: truth(call(lt, [s, o], {})) or truth(M.equal(s, o)), {"method": True}))
        c.ns.setdefault("__ge__", Builtin("__ge__", lambda s, o: not truth(call(lt, [s, o], {})), {"method": True}))
    return c


EXT["functools.wraps"] = Builtin("wraps", _wraps)
EXT["functools.update_wrapper"] = Builtin("update_wrapper", lambda f, w, *a, **k: f)
for _n in ("lru_cache", "cache"):
    EXT["functools." + _n] = Builtin(_n, _cached)
EXT["functools.partial"] = Builtin("partial", _partial)
EXT["functools.reduce"] = Builtin("reduce", lambda f, it, *i: B.b_reduce(f, it, *i))
EXT["functools.cached_property"] = Builtin("cached_property", lambda f: PropO(f, None, cached=True))
EXT["functools.total_ordering"] = Builtin("total_ordering", _total_ordering)

import ast as _ast2  # noqa: E402

for _n, _o in (("add", _ast2.Add), ("sub", _ast2.Sub), ("mul", _ast2.Mult), ("xor", _ast2.BitXor), ("and_", _ast2.BitAnd), ("or_", _ast2.BitOr), ("lshift", _ast2.LShift),
               ("rshift", _ast2.RShift), ("mod", _ast2.Mod), ("floordiv", _ast2.FloorDiv), ("truediv", _ast2.Div), ("pow", _ast2.Pow)):
    EXT["operator." + _n] = Builtin(_n, lambda a, b, _o=_o: M.binop(_o(), a, b))
for _n, _o in (("iadd", _ast2.Add), ("ixor", _ast2.BitXor), ("ior", _ast2.BitOr)):
    EXT["operator." + _n] = Builtin(_n, lambda a, b, _o=_o: I.inplace(_o(), a, b))
EXT["operator.concat"] = EXT["operator.add"]
for _n, _o in (("eq", _ast2.Eq), ("ne", _ast2.NotEq), ("lt", _ast2.Lt), ("le", _ast2.LtE), ("gt", _ast2.Gt), ("ge", _ast2.GtE)):
    EXT["operator." + _n] = Builtin(_n, lambda a, b, _o=_o: M.compare(_o(), a, b))
EXT["operator.not_"] = Builtin("not_", lambda a: c_not(truthc(a)))
EXT["operator.truth"] = Builtin("truth", lambda a: truthc(a))
EXT["operator.index"] = Builtin("index", lambda a: num(a))
EXT["operator.getitem"] = Builtin("getitem", lambda a, b: M.getitem(a, b))
EXT["operator.contains"] = Builtin("contains", lambda a, b: M.contains(a, b))
EXT["operator.neg"] = Builtin("neg", lambda a: mulc(num(a), -1))
EXT["operator.invert"] = Builtin("invert", lambda a: sub(-1, num(a)))


def _attrpath(o, n):
    for p in n.split("."):
        o = I.getattr_(o, p)
    return o


EXT["operator.itemgetter"] = Builtin("itemgetter", lambda *k: Builtin("itemgetter", lambda o: M.getitem(o, k[0]) if len(k) == 1 else tuple(M.getitem(o, x) for x in k)))
EXT["operator.attrgetter"] = Builtin("attrgetter", lambda *k: Builtin("attrgetter", lambda o: _attrpath(o, k[0]) if len(k) == 1 else tuple(_attrpath(o, x) for x in k)))
EXT["operator.methodcaller"] = Builtin("methodcaller", lambda n, *a, **k: Builtin("methodcaller", lambda o: call(I.getattr_(o, n), list(a), k)))


def _islice(it, *a):
    it = M.iter_(it)
    if len(a) == 1:
        a, b, s = 0, a[0], 1
    else:
        a, b, s = (list(a) + [None, 1])[:3]
    a = 0 if a is None else num(a)
    s = 1 if s is None else num(s)
    b = b if b is None else num(b)
    if isinstance(b, Lin):
        b = M.shift_amount(b)
    if isinstance(a, Lin):
        a = M.shift_amount(a)
    if a == 0 and s == 1 and b is not None:
        return IterO("islice", (it, b))
    out = []
    i = 0
    while b is None or i < b:
        ok, x = M.next_(it)
        if not ok:
            break
        if i >= a and (i - a) % s == 0:
            out.append(x)
        i += 1
        if i > 5000:
            raise Gap("islice over an unbounded sequence")
    return IterO("seq", ListO(out))


def _accumulate(it, func=None, *, initial=None):
    out = []
    acc = initial
    if acc is not None:
        out.append(acc)
    for x in M.unpack(it):
        acc = x if acc is None else (M.binop(_ast2.Add(), acc, x) if func is None else call(func, [acc, x], {}))
        out.append(acc)
    return IterO("seq", ListO(out))


def _product(*its, repeat=1):
    import itertools
    return IterO("seq", ListO(list(itertools.product(*[M.unpack(x) for x in its], repeat=repeat))))


def _groups(v, n):
    items = M.unpack(v)
    return IterO("seq", ListO([tuple(items[i:i + n]) for i in range(0, len(items), n)]))


EXT["itertools.chain"] = Builtin("chain", lambda *its: IterO("chain", [M.iter_(x) for x in its]),
                                 {"from_iterable": Builtin("from_iterable", lambda it: IterO("chain", [M.iter_(x) for x in M.unpack(it)]))})
EXT["itertools.islice"] = Builtin("islice", _islice)
EXT["itertools.count"] = Builtin("count", lambda start=0, step=1: IterO("count", step, start))
EXT["itertools.repeat"] = Builtin("repeat", lambda v, n=None: IterO("repeat", v) if n is None else (IterO("islice", (IterO("repeat", v), M.shift_amount(num(n))))))
EXT["itertools.cycle"] = Builtin("cycle", lambda v: IterO("cycle", ListO(M.unpack(v))))
EXT["itertools.takewhile"] = Builtin("takewhile", lambda f, it: IterO("takewhile", (f, M.iter_(it))))
EXT["itertools.accumulate"] = Builtin("accumulate", _accumulate)
EXT["itertools.product"] = Builtin("product", _product)
EXT["itertools.starmap"] = Builtin("starmap", lambda f, it: IterO("map", (Builtin("star", lambda t: call(f, M.unpack(t), {})), [M.iter_(it)])))
EXT["itertools.zip_longest"] = Builtin("zip_longest", lambda *its, fillvalue=None: IterO("seq", ListO(list(__import__("itertools").zip_longest(*[M.unpack(x) for x in its], fillvalue=fillvalue)))))
EXT["itertools.batched"] = Builtin("batched", _groups)
EXT["itertools.pairwise"] = Builtin("pairwise", lambda v: IterO("seq", ListO(list(zip(M.unpack(v), M.unpack(v)[1:])))))

# ------------------------------------------------------------------ contextlib, copy, collections, ...

EXT["contextlib.contextmanager"] = Builtin("contextmanager", lambda f: Builtin("contextmanager", lambda *a, **k: ExtObj("·gencm", {"·f": f, "·a": a, "·k": k}), {"method": True}))
EXT["contextlib.suppress"] = Builtin("suppress", lambda *e: ExtObj("·suppress", {"·e": tuple(e)}))
EXT["contextlib.closing"] = Builtin("closing", lambda o: ExtObj("·closing", {"·o": o}))
EXT["contextlib.nullcontext"] = Builtin("nullcontext", lambda o=None: ExtObj("·null", {"·o": o}))


def _copy(v, deep=False):
    c = (lambda x: _copy(x, True)) if deep else (lambda x: x)
    if isinstance(v, BArr):
        return BArr(v.v)
    if isinstance(v, ListO):
        return ListO([x if isinstance(x, LSeg) else c(x) for x in v.items])
    if isinstance(v, SetO):
        return SetO({k: (c(a), c(b)) for k, (a, b) in v.d.items()}, v.frozen)
    if isinstance(v, DictO):
        return DictO({k: (c(a), c(b)) for k, (a, b) in v.d.items()})
    if isinstance(v, Inst):
        return Inst(v.cls, {k: c(x) for k, x in v.attrs.items()}, v.payload)
    if isinstance(v, tuple):
        return tuple(c(x) for x in v)
    return v


EXT["copy.copy"] = Builtin("copy", _copy)
EXT["copy.deepcopy"] = Builtin("deepcopy", lambda v, memo=None: _copy(v, True))
for _n in ("ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "hexdigits", "octdigits", "punctuation", "printable", "whitespace"):
    EXT["string." + _n] = getattr(_string, _n)
EXT["binascii.hexlify"] = Builtin("hexlify", lambda b, *s: M.call_type(bytes, [call(I.getattr_(M.call_type(bytes, [b], {}), "hex"), list(s), {}), "ascii"], {}))
EXT["binascii.unhexlify"] = Builtin("unhexlify", lambda b: call(M.type_attr(bytes, "fromhex", bytes), [b if kind_of(txt(b)) == "s" else call(I.getattr_(b, "decode"), ["ascii"], {})], {}))
EXT["binascii.b2a_hex"] = EXT["binascii.hexlify"]
EXT["binascii.a2b_hex"] = EXT["binascii.unhexlify"]


def _deque(it=(), maxlen=None):
    if maxlen is not None:
        raise Gap("deque with a maximal length")
    l = I.loops.collect(it)
    return ListO(l.items)


EXT["collections.deque"] = Builtin("deque", _deque)


def _defaultdict(factory=None, *a, **k):
    d = M.call_type(dict, list(a), k)
    if factory is not None:
        M.DEFAULTS[id(d)] = factory
        M.KEEP.append(d)
    return d


EXT["collections.defaultdict"] = Builtin("defaultdict", _defaultdict)
EXT["collections.OrderedDict"] = Builtin("OrderedDict", lambda *a, **k: M.call_type(dict, list(a), k))
EXT["types.MappingProxyType"] = Builtin("MappingProxyType", lambda d: d)
EXT["types.SimpleNamespace"] = Builtin("SimpleNamespace", lambda **k: Inst(_NS, dict(k)))
_NS = ClassO("SimpleNamespace", (), {}, "types")


def _ip(v):
    t = txt(v)
    if t is not None and kind_of(T.mat(t)) == "b":
        s = ip_text(v, ValueError)
    elif num(v) is not None:
        n = num(v)
        if not decide(ge(n, 0)) or not decide(ge(0xFFFFFFFF, n)):
            throw(ValueError, "not permitted as an IPv4 address")
        s = M.concat_text([y for i in range(4) for y in ([".", M.dec_text(bf(n, 24 - 8 * i, 8))] if i else [M.dec_text(bf(n, 24, 8))])])
    else:
        raise Gap("IP address from text")
    o = ExtObj("ipaddress.IPv4Address", {"·text": s, "exploded": s, "compressed": s})
    return o


EXT["ipaddress.IPv4Address"] = Builtin("IPv4Address", _ip)
EXT["ipaddress.ip_address"] = Builtin("ip_address", _ip)


def _getframe(depth=0):
    fr = [f for f in I.STACK if f.func is None or not isinstance(f.func, str)]
    d = num(depth)
    if not isinstance(d, int):
        raise Gap("frame depth")
    if d >= len(fr):
        throw(ValueError, "call stack is not deep enough")
    return _frame(fr, len(fr) - 1 - d)


def _frame(fr, i):
    if i < 0:
        return None
    f = fr[i]
    return ExtObj("frame", {"f_code": ExtObj("code", {"co_name": f.name, "co_filename": str(f.module), "co_qualname": getattr(f.func, "qual", f.name)}),
                            "f_lineno": f.line, "·fr": tuple(fr), "·i": i, "f_back": None if i == 0 else MISSING,
                            "f_locals": Opq("locals", (), ty="any"), "f_globals": Opq("globals", (), ty="any")})


EXT["sys._getframe"] = Builtin("_getframe", _getframe)
EXT["sys.byteorder"] = "little"
EXT["sys.version_info"] = (3, 12, 3, "final", 0)
EXT["sys.platform"] = "linux"
EXT["sys.maxsize"] = 2**63 - 1
EXT["sys.exit"] = Builtin("exit", lambda *a: throw(SystemExit, *a))
EXT["inspect.currentframe"] = Builtin("currentframe", lambda: _getframe(0))


def _inspect_stack(*a):
    fr = list(I.STACK)
    return ListO([Inst(_FI, {"function": f.name, "frame": _frame(fr, len(fr) - 1 - i), "lineno": f.line, "filename": str(f.module)}) for i, f in enumerate(reversed(fr))])


_FI = ClassO("FrameInfo", (), {}, "inspect")
EXT["inspect.stack"] = Builtin("stack", _inspect_stack)
EXT["abc.ABC"] = Opq("typing", ("typing.ABC",))
EXT["abc.ABCMeta"] = type
for _n in ("abstractmethod",):
    EXT["abc." + _n] = Builtin(_n, ident)
for _n in ("floor", "ceil", "trunc"):
    EXT["math." + _n] = Builtin(_n, lambda x, _n=_n: (M.whole_clock(num(x), _n == "ceil") if M.of_clock(num(x)) else x) if num(x) is not None else M.opaque_op("math." + _n, x))
for _n in ("isnan", "isinf", "isfinite", "sqrt", "log", "log10", "exp", "fabs"):
    EXT["math." + _n] = Builtin(_n, lambda x, _n=_n: M.opaque_op("math." + _n, x))
EXT["math.inf"] = float("inf")
EXT["math.nan"] = Opq("nan", (), ty="float")
for _n in ("Lock", "RLock"):
    EXT["threading." + _n] = Builtin(_n, lambda: ExtObj("threading.Lock"))
for _n in ("remove", "unlink", "rename", "mkdir", "makedirs", "system", "listdir", "open", "write", "read", "popen", "fork", "kill", "getcwd"):
    EXT["os." + _n] = Builtin("os." + _n, lambda *a, _n=_n, **k: (effect("io", "os." + _n), Opq("os." + _n, (counter("os"),), ty="any"))[1])
EXT["uuid.uuid4"] = Builtin("uuid4", lambda: (effect("rand", "uuid4"), Opq("uuid", (counter("rand"),), ty="any"))[1])

# ------------------------------------------------------------------ hooks used by the interpreter

SOCK = {"socket.socket": "socket", "serial.Serial": "serial"}


def ext_method(v, name):
    return None


def call_ext(o, name, args, kw):
    m = ext_value_attr(o, name)
    if m is None:
        throw(TypeError, f"{o!r} is not callable")
    return call(m, args, kw)


def ext_value_attr(v, name):
    if isdt(v):
        return dt_method(v, name)
    if istd(v):
        s = v.args[0]
        if name == "total_seconds":
            return Builtin(name, lambda: s if isinstance(s, Opq) else Opq("float", (s,), ty="float") if isinstance(s, Lin) else float(s))
        if name in ("seconds", "days", "microseconds"):
            if not isinstance(s, Opq):
                return {"days": div(s, 86400), "seconds": mod(s, 86400), "microseconds": 0}[name]
        return Opq("td." + name, (v,), ty="float")
    if isinstance(v, ExtObj):
        if name in v.attrs and v.attrs[name] is not MISSING:
            return v.attrs[name]
        m = OPS.get((v.path, name))
        if m is not None:
            return Builtin(f"{v.path}.{name}", lambda *a, **k: m(v, list(a), k))
        if v.path == "log":
            return log_op(v, name)
        if v.path == "frame" and name == "f_back":
            return _frame(list(v.attrs["·fr"]), v.attrs["·i"] - 1)
        if v.path == "ipaddress.IPv4Address" and name in ("__str__", "__format__"):
            return Builtin(name, lambda *a: v.attrs["·text"])
        if name.startswith("__") and name not in ("__call__",):
            return None
        if v.path in ("attr.Attribute",) or v.path.startswith("·"):
            return None

        def generic(*a, **k):
            effect("ext", v.path + "." + name, v, tuple(a), tuple(sorted(k.items(), key=lambda p: p[0])), "ok")
            return Opq("call", (v.path + "." + name, counter("ext")), ty="any")
        return Builtin(f"{v.path}.{name}", generic, {"·attrof": (v, name)})
    if isinstance(v, Opq):
        if name in v.attrs:
            return v.attrs[name]
        if v.op == "ext":
            return ext_path(v.args[0], name)
        if v.op == "typing":
            return Opq("typing", (v.args[0] + "." + name,)) if v.args else v
        if v.ty == "any":
            return Opq("attr", (v, name), ty="any")
    return None


def opq_getitem(o, i):
    if isinstance(o, Opq):
        if o.op in ("typing",):
            return o
        if o.op == "ext":
            return o
        if o.ty == "any":
            return Opq("item", (o, _sh(i)), ty="any")
    return None


def ext_iter(v):
    return None


class WithExit(Exception):
    """return/break/continue leaving a with body through a generator based context manager"""

    def __init__(self, e):
        self.e = e


def cm_enter(cm):
    if isinstance(cm, ExtObj):
        if cm.path == "·suppress":
            return None
        if cm.path in ("·closing", "·null"):
            return cm.attrs["·o"]
        m = OPS.get((cm.path, "__enter__"))
        if m is not None:
            return m(cm, [], {})
        return cm
    if isinstance(cm, Inst):
        return call(I.getattr_(cm, "__enter__"), [], {})
    if isinstance(cm, Opq) and cm.ty == "any":
        return Opq("enter", (cm,), ty="any")
    raise Gap(f"with statement over {cm!r}")


def cm_exit(cm, exc):
    """True when the exception is swallowed"""
    if isinstance(cm, ExtObj):
        if cm.path == "·suppress":
            return exc is not None and I.exc_match(exc, cm.attrs["·e"])
        if cm.path == "·closing":
            call(I.getattr_(cm.attrs["·o"], "close"), [], {})
            return False
        if cm.path in SOCK:
            call(I.getattr_(cm, "close"), [], {})
        return False
    if isinstance(cm, Inst):
        r = call(I.getattr_(cm, "__exit__"), [exc.cls, exc, Opq("traceback", (), ty="any")] if exc is not None else [None, None, None], {})
        return exc is not None and truth(r)
    return False
