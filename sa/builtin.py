"""Built-in functions, types and the methods of built-in values."""
import builtins as _b
from . import interp as I
from . import textops as T
from .heap import *
from .interp import throw, call, num, truth, truthc, txt, effect, RangeV, IterO, SliceV, class_lookup, subclass, type_of
from . import models as M
from . import objects as O

S = T.S
NOTIMPL = Opq("NotImplemented")


def opt(x):
    return None if x is None else num(x)


# ------------------------------------------------------------------ numbers

def int_to_bytes(n, length=1, byteorder="big", signed=False):
    n = num(n)
    length = num(length)
    if isinstance(length, Lin):
        length = I.models.bounded(length, 0, 16)
    if length < 0:
        throw(ValueError, "length argument must be non-negative")
    if byteorder not in ("little", "big"):
        throw(ValueError, "byteorder must be either 'little' or 'big'")
    n = S(n)
    if signed:
        if not decide(ge(n, -(1 << (8 * length - 1)))) or not decide(ge((1 << (8 * length - 1)) - 1, n)):
            throw(OverflowError, "int too big to convert")
        if not decide(ge(n, 0)):
            n = add(n, 1 << (8 * length))
    else:
        if not decide(ge(n, 0)):
            throw(OverflowError, "can't convert negative int to unsigned")
        if not decide(ge((1 << (8 * length)) - 1, n)):
            throw(OverflowError, "int too big to convert")
    n = S(n)
    out = [bf(n, 8 * i, 8) if isinstance(n, Lin) else n >> (8 * i) & 255 for i in range(length)]
    if byteorder == "big":
        out.reverse()
    return rope("b", [("e", S(x)) for x in out])


def bytes_value(v):
    """bytes of anything int.from_bytes accepts"""
    t = txt(v)
    if t is None:
        t = M.to_bytes_like(v)
    if kind_of(t) != "b":
        I.bad_type(lambda x: int.from_bytes(x, "big"), "cannot convert 'str' object to bytes", v)
    return t


def int_from_bytes(data, byteorder="big", signed=False):
    if byteorder not in ("little", "big"):
        throw(ValueError, "byteorder must be either 'little' or 'big'")
    t = T.mat(bytes_value(data))
    e = T.fixed(t)
    if e is None:
        return L(atom("frombytes", t, byteorder, bool(signed), lo=None if signed else 0))
    if byteorder == "big":
        e = e[::-1]
    r = 0
    for i, x in enumerate(e):
        r = add(r, mulc(x, 1 << (8 * i)))
    if signed and e:
        if decide(ge(r, 1 << (8 * len(e) - 1))):
            r = sub(r, 1 << (8 * len(e)))
    return S(r)


def bit_length(n):
    n = S(num(n))
    if isinstance(n, int):
        return n.bit_length()
    l, h = rng(n, R.facts)
    if l is None or h is None or l < 0 or h > 1 << 64:
        raise Gap("bit_length")
    for k in range(h.bit_length() + 1):
        if not decide(ge(n, 1 << k)):
            return k
    raise Infeasible()


def bit_count(n):
    n = S(num(n))
    if isinstance(n, int):
        return bin(n).count("1")
    bs = to_bits(n, R.facts)
    if bs is None:
        raise Gap("bit_count")
    r = 0
    for b in bs:
        r = add(r, from_bits([b]))
    return r


def b_abs(x):
    n = num(x)
    if n is not None:
        if isinstance(n, int):
            return abs(n)
        return n if decide(ge(n, 0)) else mulc(n, -1)
    if isinstance(x, float):
        return abs(x)
    f = class_lookup(x.cls, "__abs__") if isinstance(x, Inst) and isinstance(x.cls, ClassO) else MISSING
    if f is not MISSING:
        return call(f, [x], {})
    return M.opaque_op("abs", x)


def b_minmax(name, args, key=None, default=MISSING):
    if len(args) == 1:
        items = M.unpack(args[0]) if not (isinstance(args[0], ListO) and any(isinstance(x, LSeg) for x in args[0].items)) else None
        t = txt(args[0])
        if items is None:
            raise Gap("min/max of a list of unknown length")
    else:
        items = list(args)
    if not items:
        if default is not MISSING:
            return default
        throw(ValueError, f"{name}() arg is an empty sequence")
    best = items[0]
    kb = call(key, [best], {}) if key is not None else best
    for x in items[1:]:
        kx = call(key, [x], {}) if key is not None else x
        if M.floatlike(kx) or M.floatlike(kb):
            if isinstance(kx, (int, float)) and isinstance(kb, (int, float)):
                c = kx > kb if name == "max" else kx < kb
            else:
                return Opq(name, tuple(items), ty="float")
        else:
            import ast
            c = truth(M.compare(ast.Gt() if name == "max" else ast.Lt(), kx, kb))
        if c:
            best, kb = x, kx
    return best


def b_round(x, n=None):
    if isinstance(x, (int, float)) and (n is None or isinstance(n, int)):
        return round(x, n) if n is not None else round(x)
    k = num(x)
    if k is not None and of_clock(k):
        raise Gap("rounding of a clock reading")
    if k is not None and (n is None or n == 0):
        return k
    return Opq("round", (x, n), ty="float" if n is not None else "int")


def b_pow(a, b, m=None):
    import ast
    if m is not None:
        if all(isinstance(x, int) for x in (a, b, m)):
            return pow(a, b, m)
        raise Gap("modular power")
    return M.binop(ast.Pow(), a, b)


def b_divmod(a, b):
    import ast
    return (M.binop(ast.FloorDiv(), a, b), M.binop(ast.Mod(), a, b))


def b_hex(n):
    n = num(n)
    if isinstance(n, int):
        return hex(n)
    return whole(src("s", "hexnum", n))


def b_ord(c):
    e = T.elems(txt(c))
    if e is None:
        if not decide(eq(T.length(txt(c)), 1)):
            throw(TypeError, "ord() expected a character")
        e = T.elems(txt(c))
    if len(e) != 1:
        throw(TypeError, "ord() expected a character")
    return e[0]


def b_chr(n):
    n = num(n)
    if not decide(ge(n, 0)) or not decide(ge(0x10FFFF, n)):
        throw(ValueError, "chr() arg not in range")
    return rope("s", [("e", n)])


# ------------------------------------------------------------------ constructors

def mk_bytes(args, kw):
    if not args:
        return b""
    v = args[0]
    if isinstance(v, Inst) and isinstance(v.cls, ClassO):
        f = class_lookup(v.cls, "__bytes__")
        if f is not MISSING:
            return call(f, [v], {})
    if len(args) > 1 or "encoding" in kw:
        return T.encode(txt(v), args[1] if len(args) > 1 else kw["encoding"], kw.get("errors", "strict"))
    t = txt(v)
    if t is not None:
        if kind_of(t) != "b":
            throw(TypeError, "string argument without an encoding")
        return t
    n = num(v)
    if n is not None:
        if not decide(ge(n, 0)):
            throw(ValueError, "negative count")
        n = S(n)
        if isinstance(n, int):
            return bytes(n)
        l, h = rng(n, R.facts)
        if h is not None and h <= 64:
            n = M.shift_amount(n)
            return bytes(n)
        return whole(src("b", "repeat", b"\0", n, len=n))
    if v is None:
        throw(TypeError, "cannot convert 'NoneType' object to bytes")
    return M.to_bytes_like(v)


def of_clock(n):
    """Does a number stand for a reading of a clock, which has a fraction?"""
    return isinstance(n, Lin) and any(a.op == "in" and a.args[0] == "clock" and a.args[1] != "whole" for a, _ in n.t)


def whole_clock(n, up):
    """A clock reading without its fraction"""
    g = L(atom("in", "clock", "whole", n, up))
    lo, hi = (n, add(n, 1)) if up else (sub(n, 1), n)
    if not (R.facts.assume(ge(g, lo), True) and R.facts.assume(ge(hi, g), True)):
        raise Infeasible()
    return g


def mk_int(args, kw):
    if not args:
        return 0
    v = args[0]
    if len(args) > 1 or "base" in kw:
        return T.to_int(txt(v), num(args[1] if len(args) > 1 else kw["base"]))
    t = txt(v)
    if t is not None:
        return T.to_int(t)
    n = num(v)
    if n is not None:
        return whole_clock(n, False) if of_clock(n) else n
    if isinstance(v, float):
        return int(v)
    if isinstance(v, Opq):
        if v.ty == "int":
            return v
        return Opq("int", (v,), ty="int")
    if isinstance(v, Inst) and isinstance(v.cls, ClassO):
        for nm in ("__int__", "__index__"):
            f = class_lookup(v.cls, nm)
            if f is not MISSING:
                return call(f, [v], {})
    I.bad_type(int, "int() argument must be a string or a number", v)


def mk_list(args):
    if not args:
        return ListO()
    v = args[0]
    if isinstance(v, ListO):
        return ListO(v.items)
    r = I.loops.collect(v)
    return ListO(r.items)


def mk_dict(args, kw):
    d = {}
    if args:
        v = args[0]
        if isinstance(v, DictO):
            d.update(v.d)
        elif isinstance(v, Inst) and isinstance(v.cls, ClassO) and class_lookup(v.cls, "keys") is not MISSING:
            for k in M.unpack(call(I.getattr_(v, "keys"), [], {})):
                d[M.key(k)] = (k, M.getitem(v, k))
        else:
            for p in M.unpack(v):
                k, x = M.unpack(p)
                d[M.key(k)] = (k, x)
    for k, x in kw.items():
        d[M.key(k)] = (k, x)
    return DictO(d)


def mk_set(args, frozen=False):
    d = {}
    if args:
        for x in M.unpack(args[0]):
            d[M.key(x)] = (x, x)
    return SetO(d, frozen)


def call_type(t, args, kw):
    if t is int:
        return mk_int(args, kw)
    if t is bytes:
        return mk_bytes(args, kw)
    if t is bytearray:
        return BArr(mk_bytes(args, kw))
    if t is str:
        return M.b_str(*args, **kw)
    if t is bool:
        return truthc(args[0]) if args else False
    if t is list:
        return mk_list(args)
    if t is tuple:
        if not args:
            return ()
        if isinstance(args[0], tuple):
            return args[0]
        return tuple(M.unpack(args[0]))
    if t is dict:
        return mk_dict(args, kw)
    if t is set:
        return mk_set(args)
    if t is frozenset:
        return mk_set(args, True)
    if t is float:
        if not args:
            return 0.0
        v = args[0]
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                throw(ValueError, "could not convert string to float")
        if isinstance(v, Opq) and v.ty == "float":
            return v
        if txt(v) is not None:
            if not decide(pred("floattext", txt(v))):
                throw(ValueError, "could not convert string to float")
        return Opq("float", (S(num(v)) if num(v) is not None else v,), ty="float")
    if t is type:
        if len(args) == 1:
            return type_of(args[0])
        name, bases, ns = args
        r = O.make_class(name, list(bases), {k: v for k, v in ns.d.values()}, I.where_fn().split(":")[0], None, None, None, None, kw)
        I.ALL_CLASSES.append(r)
        return r
    if t is object:
        return Inst(ClassO("object", ()))
    if t is range:
        a = [num(x) for x in args]
        if any(x is None for x in a):
            I.bad_type(range, "range() needs integers", *args)
        if len(a) == 1:
            return RangeV(0, a[0])
        if len(a) == 3 and a[2] == 0:
            throw(ValueError, "range() arg 3 must not be zero")
        return RangeV(*a)
    if t is slice:
        a = list(args)
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(*(a + [None])[:3])
    if t is complex:
        raise Gap("complex numbers")
    if isinstance(t, type) and issubclass(t, BaseException):
        return Inst(t, {"args": tuple(args)})
    raise Gap(f"call of {t!r}")


# ------------------------------------------------------------------ attributes of types

def type_attr(t, name, cls=None):
    c = cls if isinstance(cls, ClassO) else t
    if name in ("__name__", "__qualname__"):
        return t.__name__
    if name == "__mro__":
        return tuple(t.__mro__)
    if name == "__doc__":
        return None
    if name == "__module__":
        return t.__module__
    if name == "__bases__":
        return t.__bases__
    if t is int and name == "from_bytes":
        return Builtin("int.from_bytes", int_from_bytes)
    if t in (bytes, bytearray) and name == "fromhex":
        return Builtin("fromhex", lambda s: T.from_hex(txt(s)) if t is bytes else BArr(T.from_hex(txt(s))))
    if t is dict and name == "fromkeys":
        return Builtin("fromkeys", lambda ks, v=None: DictO({M.key(k): (k, v) for k in M.unpack(ks)}))
    if name == "maketrans" and t in (bytes, bytearray, str):
        def mt(a, b=None, *rest):
            if t is str:
                return Opq("maketrans", ()) if False else str_maketrans(a, b, *rest)
            return bytes.maketrans(bytes(T.elems(txt(a))), bytes(T.elems(txt(b))))
        return Builtin("maketrans", mt)
    if name == "__new__":
        return Builtin("__new__", lambda c_, *a, **k: O.raw_new(c_, a, k))
    if name == "__init__":
        def init(self, *a, **k):
            if isinstance(self, Inst) and subclass(self.cls, BaseException):
                self.put("args", tuple(a))
        return Builtin("__init__", init)
    if name == "__setattr__" and t is object:
        return Builtin("__setattr__", lambda o, n, v: I.setattr_raw(o, n, v))
    if name in ("__repr__", "__str__"):
        return Builtin(name, lambda o: M.b_repr(txt(o) if txt(o) is not None and t is not object else o) if t is not object else M.base_repr(o))
    if name == "__call__" and t is type:
        return Builtin("type.__call__", lambda c_, *a, **k: O.instantiate(c_, list(a), k))
    if name == "__class__":
        return type
    if hasattr(t, name) and callable(getattr(t, name)):
        def unbound(self, *a, **k):
            return call(I.getattr_(self, name), list(a), k)
        return Builtin(f"{t.__name__}.{name}", unbound, {"method": isinstance(cls, ClassO)})
    return None


def str_maketrans(a, b=None, c=None):
    d = {}
    if b is None:
        for k, v in a.d.values():
            d[ord(k) if isinstance(k, str) else k] = v
    else:
        for x, y in zip(a, b):
            d[ord(x)] = ord(y)
        for x in c or "":
            d[ord(x)] = None
    return DictO({M.key(k): (k, v) for k, v in d.items()})


def class_attr(c, name):
    return None


# ------------------------------------------------------------------ text methods

def _join(sep, items):
    if isinstance(items, IterO) or not isinstance(items, (ListO, tuple)):
        # elements may be produced by a loop over data of unknown length
        if rlen_is_zero(sep):
            acc = Env(None, "func", "join")
            acc.vars["r"] = native(kind_of(sep), [])

            def step(x):
                acc.put("r", cat(acc.vars["r"], join_item(sep, x)))
            I.loops.iterate(M.iter_(items), step, [acc])
            return acc.vars["r"]
        items = I.loops.collect(items)
    xs = list(items) if isinstance(items, tuple) else items.items
    if any(isinstance(x, LSeg) for x in xs):
        raise Gap("join of a list of unknown length")
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(join_item(sep, x))
    if not out:
        return native(kind_of(sep), [])
    return cat(*out)


def rlen_is_zero(v):
    return S(rlen(v)) == 0


def join_item(sep, x):
    t = txt(x)
    if t is None or kind_of(t) != kind_of(sep):
        I.bad_type(lambda s, y: s.join([y]), "sequence item: expected text", sep, x)
    return t


def translate(t, table, delete=b""):
    if kind_of(t) == "b":
        tb = list(range(256)) if table is None else T.elems(txt(table))
        if tb is None or len(tb) != 256:
            throw(ValueError, "translation table must be 256 characters long")
        dl = set(T.elems(txt(delete)))
        if not all(isinstance(x, int) for x in tb) or not all(isinstance(x, int) for x in dl):
            raise Gap("abstract translation table")
        return hom(tuple(() if i in dl else (tb[i],) for i in range(256)), T.mat(t))
    if not isinstance(table, DictO):
        raise Gap("translation table")
    tab = list(IDENT)
    for k, (orig, v) in table.d.items():
        if not isinstance(orig, int) or orig > 255:
            raise Gap("translation of characters above 255")
        if v is None:
            tab[orig] = ()
        elif isinstance(v, int):
            tab[orig] = (v,)
        else:
            tab[orig] = tuple(ord(c) for c in v)
    if isinstance(t, str):
        return t.translate({k: "".join(map(chr, v)) for k, v in enumerate(tab)})
    u = T.unlatin(t)
    if u is None:
        return hom(tuple(tab), T.mat(t))
    if any(y > 255 for x in tab for y in x):
        raise Gap("translation to characters above 255")
    return T.latin(hom(tuple(tab), T.mat(u)))


def char_class(t, name):
    if isinstance(t, (str, bytes)):
        return getattr(t, name)()
    e = T.elems(t)
    if e is None:
        return pred("text." + name, t)
    if not e:
        return False
    ok = {i for i in range(256) if getattr(chr(i) if kind_of(t) == "s" else bytes([i]), name)()}
    cs = []
    for x in e:
        if isinstance(x, int):
            cs.append(x in ok)
            continue
        a = byte_dep(x)
        if a is not None:
            cs.append(mask_cond(a, sum(1 << i for i in range(a.lo, a.hi + 1) if ev(x, {a: i}) in ok)))
        else:
            cs.append(c_or([eq(x, y) for y in sorted(ok)]))
    return c_and(cs)


def case_map(t, name):
    if isinstance(t, (str, bytes)):
        return getattr(t, name)()
    if kind_of(t) == "b":
        return hom(tuple(tuple(getattr(bytes([i]), name)()) for i in range(256)), T.mat(t))
    e = T.elems(t)
    if e is not None and all(known(ge(127, x)) for x in e):
        return hom(tuple((getattr(bytes([i]), name)()[0],) for i in range(128)) + tuple((i,) for i in range(128, 256)), T.mat(t))
    return whole(src("s", name, t))


def just(t, w, fill, name):
    w = num(w)
    fill = T.elems(txt(fill))[0] if fill is not None else 32
    if isinstance(t, (str, bytes)) and isinstance(w, int) and isinstance(fill, int):
        return getattr(t, name)(w, native(kind_of(t), [fill]))
    if name == "center":
        raise Gap("center")
    n = T.length(t)
    if isinstance(t, Rope) and len(t.segs) == 1 and t.segs[0][0] == "s" and t.segs[0][1].op == "dec" and name == "rjust":
        g = t.segs[0]
        if g[2] == 0 and g[3] == g[1].len:
            r = T.padded(g[1].args[0], w, fill)
            if r is not None:
                return r
    if decide(ge(n, w)):
        return t
    d = S(sub(w, n))
    if isinstance(d, Lin):
        l, h = rng(d, R.facts)
        if h is not None and h <= 64:
            d = M.shift_amount(d)
    if isinstance(d, int):
        pad = rope(kind_of(t), [("e", fill)] * d)
    else:
        pad = whole(src(kind_of(t), "repeat", rope(kind_of(t), [("e", fill)]), d, len=d))
    return cat(pad, t) if name == "rjust" else cat(t, pad)


def text_method(v, name):
    t = txt(v)
    k = kind_of(t)
    arr = isinstance(v, BArr)
    wrap = (lambda r: BArr(r)) if arr else (lambda r: r)

    def tt(x):
        return x if x is None or isinstance(x, int) else txt(x)

    def sub_(x):
        if isinstance(x, tuple):
            return x
        n = num(x)
        if n is not None and k == "b":
            return rope("b", [("e", n)])
        y = txt(x)
        if y is None or kind_of(y) != k:
            I.bad_type(lambda y: (b"" if k == "b" else "").count(y), "a bytes-like object is required" if k == "b" else "must be str", x)
        return y

    def need(x):
        y = txt(x)
        if y is None or kind_of(y) != k:
            I.bad_type(lambda y: (b"" if k == "b" else "").partition(y), f"a {'bytes-like object' if k == 'b' else 'str'} is required", x)
        return y

    def starts(p, *r):
        ps = p if isinstance(p, tuple) else (p,)
        return c_or([T.startswith(t, need(x), *[opt(y) for y in r]) for x in ps])

    def ends(p, *r):
        ps = p if isinstance(p, tuple) else (p,)
        return c_or([T.endswith(t, need(x), *[opt(y) for y in r]) for x in ps])

    def removeprefix(p):
        return wrap(T.slice_(t, T.length(need(p)), None)) if truth(T.startswith(t, need(p))) else wrap(t)

    def removesuffix(p):
        n = T.length(need(p))
        if truth(T.endswith(t, need(p))) and truth(ge(n, 1)):
            return wrap(T.slice_(t, None, sub(T.length(t), n)))
        return wrap(t)

    d = {
        "startswith": starts, "endswith": ends,
        "find": lambda p, *r: T.find(t, sub_(p), *[opt(x) for x in r]),
        "rfind": lambda p, *r: T.find(t, sub_(p), *[opt(x) for x in r], reverse=True),
        "index": lambda p, *r: T.index(t, sub_(p), *[opt(x) for x in r]),
        "rindex": lambda p, *r: T.index(t, sub_(p), *[opt(x) for x in r], reverse=True),
        "count": lambda p: T.count(t, sub_(p)),
        "replace": lambda a, b, count=-1: wrap(T.replace(t, need(a), need(b), count)),
        "strip": lambda chars=None: wrap(T.strip_(t, tt(chars))),
        "lstrip": lambda chars=None: wrap(T.strip_(t, tt(chars), True, False)),
        "rstrip": lambda chars=None: wrap(T.strip_(t, tt(chars), False, True)),
        "split": lambda sep=None, maxsplit=-1: ListO([wrap(x) for x in T.split(t, tt(sep), maxsplit)]),
        "rsplit": lambda sep=None, maxsplit=-1: ListO([wrap(x) for x in T.split(t, tt(sep), maxsplit, True)]),
        "partition": lambda sep: tuple(wrap(x) for x in T.partition(t, sub_(sep))),
        "rpartition": lambda sep: tuple(wrap(x) for x in T.partition(t, sub_(sep), True)),
        "join": lambda it: wrap(_join(t, it)),
        "translate": lambda table, *a, **kw: wrap(translate(t, table, *a, **kw)),
        "zfill": lambda w: wrap(just(t, w, native(k, [48]), "rjust")),
        "rjust": lambda w, f=None: wrap(just(t, w, f, "rjust")),
        "ljust": lambda w, f=None: wrap(just(t, w, f, "ljust")),
        "center": lambda w, f=None: wrap(just(t, w, f, "center")),
        "upper": lambda: wrap(case_map(t, "upper")), "lower": lambda: wrap(case_map(t, "lower")),
        "casefold": lambda: wrap(case_map(t, "lower")),
        "title": lambda: wrap(case_map(t, "title")) if isinstance(t, (str, bytes)) else whole(src(k, "title", t)),
        "isdigit": lambda: char_class(t, "isdigit"), "isalpha": lambda: char_class(t, "isalpha"),
        "isalnum": lambda: char_class(t, "isalnum"), "isspace": lambda: char_class(t, "isspace"),
        "removeprefix": removeprefix, "removesuffix": removesuffix,
        "__len__": lambda: T.length(t), "__getitem__": lambda i: M.getitem(v, i),
        "__contains__": lambda x: M.contains(v, x), "__add__": lambda o: M.binop(_ADD, v, o),
        "__eq__": lambda o: M.equal(v, o), "__iter__": lambda: M.iter_(v),
        "__repr__": lambda: M.b_repr(v), "__str__": lambda: M.b_str(v),
    }
    if k == "s":
        d.update({
            "encode": lambda encoding="utf-8", errors="strict": T.encode(t, encoding, errors),
            "isdecimal": lambda: char_class(t, "isdecimal"), "isnumeric": lambda: char_class(t, "isnumeric"),
            "isascii": lambda: t.isascii() if isinstance(t, str) else pred("ascii", t),
            "isprintable": lambda: t.isprintable() if isinstance(t, str) else pred("printable", t),
            "format": lambda *a, **kw: M.str_format(t, a, kw),
            "format_map": lambda m: M.str_format(t, (), {k_: v_ for k_, v_ in m.d.values()}),
            "capitalize": lambda: t.capitalize() if isinstance(t, str) else whole(src("s", "capitalize", t)),
            "isidentifier": lambda: t.isidentifier() if isinstance(t, str) else pred("isidentifier", t),
            "isupper": lambda: t.isupper() if isinstance(t, str) else pred("isupper", t),
            "islower": lambda: t.islower() if isinstance(t, str) else pred("islower", t),
        })
    else:
        d.update({
            "decode": lambda encoding="utf-8", errors="strict": T.decode(t, encoding, errors),
            "hex": lambda *a: T.to_hex(t, *a),
            "tobytes": lambda: t, "tolist": lambda: mk_list([t]),
        })
        if name == "fromhex":
            return Builtin("fromhex", lambda s: wrap(T.from_hex(txt(s))))
        if arr and name in BARR:
            return Builtin("bytearray." + name, lambda *a, **kw: BARR[name](v, *a, **kw))
    f = d.get(name)
    if f is None:
        if hasattr(str if k == "s" else bytearray if arr else bytes, name):
            return Builtin(name, lambda *a, **kw: _gap(f"text method {name}"))
        return None
    return Builtin(("str." if k == "s" else "bytes.") + name, f)


import ast as _ast
_ADD = _ast.Add()


def _gap(m):
    raise Gap(m)


# ------------------------------------------------------------------ bytearray

def barr_pop(o, i=-1):
    v = T.mat(o.v)
    n = T.length(v)
    if not decide(ge(n, 1)):
        throw(IndexError, "pop from empty bytearray")
    v = T.mat(o.v)
    n = T.length(v)
    i = num(i)
    k = T.idx_norm(i, n)
    if not decide(ge(k, 0)) or not decide(ge(sub(n, 1), k)):
        throw(IndexError, "pop index out of range")
    x = S(elem_at(v, k, decide))
    o.set(cat(T.slice_(v, None, k), T.slice_(v, add(k, 1), None)))
    return x


def barr_insert(o, i, x):
    n = T.length(o.v)
    i = T.clamp(num(i), n, 0)
    o.set(cat(T.slice_(o.v, None, i), rope("b", [("e", M.byteval(x))]), T.slice_(o.v, i, None)))


def barr_remove(o, x):
    i = T.find(o.v, rope("b", [("e", num(x))]))
    if i == -1:
        throw(ValueError, "value not found in bytearray")
    M.delitem(o, i)


def barr_reverse(o):
    o.set(T.slice_(o.v, None, None, -1))


BARR = {
    "append": lambda o, x: o.set(cat(o.v, rope("b", [("e", M.byteval(x))]))),
    "extend": lambda o, x: M.barr_extend(o, x),
    "pop": barr_pop, "insert": barr_insert, "remove": barr_remove, "reverse": barr_reverse,
    "clear": lambda o: o.set(b""), "copy": lambda o: BArr(o.v),
    "__iadd__": lambda o, x: (M.barr_extend(o, x), o)[1],
}


# ------------------------------------------------------------------ lists, dictionaries, sets

def fin(o):
    if any(isinstance(x, LSeg) for x in o.items):
        raise Gap("operation on a list of unknown length")
    return o.items


def list_pop(o, i=-1):
    if isinstance(i, int) and i == -1 and o.items and not isinstance(o.items[-1], LSeg):
        x = o.items[-1]
        o.set(o.items[:-1])
        return x
    items = list(fin(o))
    i = num(i)
    if isinstance(i, Lin):
        i = M.bounded(i, -len(items), len(items) - 1)
    if not -len(items) <= i < len(items):
        throw(IndexError, "pop index out of range")
    x = items.pop(i)
    o.set(items)
    return x


def list_index(o, x):
    for i, y in enumerate(fin(o) if isinstance(o, ListO) else o):
        if truth(M.equal(y, x)):
            return i
    throw(ValueError, "is not in list")


def list_remove(o, x):
    i = list_index(o, x)
    items = list(o.items)
    del items[i]
    o.set(items)


def b_sorted(v, key=None, reverse=False):
    items = M.unpack(v)
    import functools

    def cmp(a, b):
        if truth(M.compare(_ast.Lt(), a[0], b[0])):
            return -1
        return 1 if truth(M.compare(_ast.Lt(), b[0], a[0])) else 0

    ks = [(call(key, [x], {}) if key is not None else x, x) for x in items]
    ks.sort(key=functools.cmp_to_key(cmp), reverse=bool(truth(reverse)))
    return ListO([x for _, x in ks])


def list_sort(o, key=None, reverse=False):
    o.set(b_sorted(o, key, reverse).items)


LIST = {
    "append": lambda o, x: M.list_append(o, x), "extend": lambda o, x: M.list_extend(o, x), "pop": list_pop,
    "insert": lambda o, i, x: list_insert(o, i, x), "remove": list_remove, "index": list_index,
    "clear": lambda o: o.set([]), "copy": lambda o: ListO(o.items), "sort": list_sort,
    "reverse": lambda o: o.set(fin(o)[::-1]),
    "count": lambda o, x: sum(1 for y in fin(o) if truth(M.equal(x, y))),
    "__len__": lambda o: list_len(o), "__getitem__": lambda o, i: M.getitem(o, i), "__contains__": lambda o, x: M.contains(o, x),
    "__iter__": lambda o: M.iter_(o), "__setitem__": lambda o, i, x: M.setitem(o, i, x),
}


def list_insert(o, i, x):
    items = list(o.items)
    if i == 0:
        o.set([x] + items)
        return
    items = list(fin(o))
    items.insert(num(i), x)
    o.set(items)


def list_len(o):
    r = 0
    for x in o.items:
        if isinstance(x, LSeg):
            if x.seq is not None:
                r = add(r, T.length(x.seq))
            elif x.n is not None:
                r = add(r, mulc(x.n, len(x.template)))
            else:
                raise Gap("length of a list of unknown length")
        else:
            r = add(r, 1)
    return r


def dict_get(o, k, d=None):
    q = M.dict_find(o, k)
    return o.d[q][1] if q is not None else d


def dict_pop(o, k, *d):
    q = M.dict_find(o, k)
    if q is None:
        if d:
            return d[0]
        raise PyRaise(I.mark_exc(Inst(KeyError, {"args": (k,)})))
    v = o.d[q][1]
    nd = dict(o.d)
    del nd[q]
    o.set(nd)
    return v


def dict_setdefault(o, k, v=None):
    q = M.dict_find(o, k)
    if q is not None:
        return o.d[q][1]
    M.setitem(o, k, v)
    return v


def dict_update(o, *a, **kw):
    for x in a:
        for k, v in mk_dict([x], {}).d.values():
            M.setitem(o, k, v)
    for k, v in kw.items():
        M.setitem(o, k, v)


def dict_popitem(o):
    if not o.d:
        throw(KeyError, "popitem(): dictionary is empty")
    q = list(o.d)[-1]
    kv = o.d[q]
    nd = dict(o.d)
    del nd[q]
    o.set(nd)
    return kv


DICT = {
    "get": dict_get, "pop": dict_pop, "setdefault": dict_setdefault, "update": dict_update, "popitem": dict_popitem,
    "keys": lambda o: SetO({k: (q, q) for k, (q, _) in o.d.items()}),
    "values": lambda o: ListO([v for _, v in o.d.values()]),
    "items": lambda o: ListO([(k, v) for k, v in o.d.values()]),
    "copy": lambda o: DictO(o.d), "clear": lambda o: o.set({}),
    "__len__": lambda o: len(o.d), "__getitem__": lambda o, i: M.getitem(o, i), "__contains__": lambda o, x: M.contains(o, x),
    "__setitem__": lambda o, i, x: M.setitem(o, i, x), "__iter__": lambda o: M.iter_(o),
}


def sd(x):
    return {M.key(y): (y, y) for y in M.unpack(x)}


def set_add(o, x):
    d = dict(o.d)
    d[M.key(x)] = (x, x)
    o.set(d)


def set_discard(o, x):
    d = dict(o.d)
    d.pop(M.key(x), None)
    o.set(d)


def set_remove(o, x):
    if M.key(x) not in o.d:
        throw(KeyError, x)
    set_discard(o, x)


def set_update(o, *a):
    d = dict(o.d)
    for x in a:
        d.update(sd(x))
    o.set(d)


SET = {
    "add": set_add, "discard": set_discard, "remove": set_remove, "update": set_update, "copy": lambda o: SetO(o.d, o.frozen),
    "clear": lambda o: o.set({}),
    "union": lambda o, *a: SetO({k: v for x in (o.d, *(sd(y) for y in a)) for k, v in x.items()}),
    "intersection": lambda o, a: SetO({k: v for k, v in o.d.items() if k in sd(a)}),
    "difference": lambda o, a: SetO({k: v for k, v in o.d.items() if k not in sd(a)}),
    "symmetric_difference": lambda o, a: M.binop(_ast.BitXor(), o, SetO(sd(a))),
    "issubset": lambda o, a: set(o.d) <= set(sd(a)), "issuperset": lambda o, a: set(o.d) >= set(sd(a)),
    "isdisjoint": lambda o, a: not (set(o.d) & set(sd(a))),
    "__contains__": lambda o, x: M.contains(o, x), "__len__": lambda o: len(o.d), "__iter__": lambda o: M.iter_(o),
}

INT = {
    "to_bytes": int_to_bytes, "bit_length": bit_length, "bit_count": bit_count, "conjugate": lambda n: n,
    "__index__": lambda n: num(n), "__int__": lambda n: num(n),
    "__add__": lambda a, b: M.binop(_ADD, a, b), "__eq__": lambda a, b: M.equal(a, b),
    "__repr__": lambda n: M.b_repr(n), "__str__": lambda n: M.b_str(n), "__format__": lambda n, s: M.b_format(n, s),
    "is_integer": lambda n: True,
}


def method(v, name):
    if name == "__class__":
        return type_of(v)
    if name == "__doc__":
        return None
    if isinstance(v, bool) or isinstance(v, int) or isinstance(v, (Lin, Cond)):
        if name in ("real", "numerator"):
            return v
        if name == "imag":
            return 0
        if name == "from_bytes":
            return Builtin("from_bytes", int_from_bytes)
        if name in INT:
            return Builtin("int." + name, lambda *a, **kw: INT[name](v, *a, **kw))
        return None
    if txt(v) is not None:
        return text_method(v, name)
    if isinstance(v, ListO) and name in LIST:
        return Builtin("list." + name, lambda *a, **kw: LIST[name](v, *a, **kw))
    if isinstance(v, SetO):
        if name in SET:
            return Builtin("set." + name, lambda *a, **kw: SET[name](v, *a, **kw))
        return None
    if isinstance(v, DictO) and name in DICT:
        return Builtin("dict." + name, lambda *a, **kw: DICT[name](v, *a, **kw))
    if isinstance(v, tuple):
        if name == "index":
            return Builtin("tuple.index", lambda x: list_index(v, x))
        if name == "count":
            return Builtin("tuple.count", lambda x: sum(1 for y in v if truth(M.equal(x, y))))
        if name == "__len__":
            return Builtin("len", lambda: len(v))
        return None
    if isinstance(v, float):
        if name in ("is_integer", "hex"):
            return Builtin(name, lambda: getattr(v, name)())
        return None
    if isinstance(v, RangeV):
        m = {"start": v.a, "stop": v.b, "step": v.s}
        if name in m:
            return m[name]
        return None
    if isinstance(v, type):
        return type_attr(v, name, v)
    if isinstance(v, IterO):
        if name == "__next__":
            return Builtin("__next__", lambda: b_next(v))
        if name == "__iter__":
            return Builtin("__iter__", lambda: v)
        if name == "close":
            return Builtin("close", lambda: None)
        return None
    if isinstance(v, O.AttrIb):
        if name == "validator":
            def deco(f):
                old = v.kw.get("validator")
                v.kw["validator"] = ListO(([old] if old is not None else []) + [f])
                return f
            return Builtin("validator", deco)
        if name == "default":
            def deco2(f):
                v.kw["default"] = O.FactoryV(f, True)
                return f
            return Builtin("default", deco2)
    if isinstance(v, SliceV):
        return {"start": v.a, "stop": v.b, "step": v.s}.get(name)
    return M.ext.ext_value_attr(v, name)


# ------------------------------------------------------------------ functions

def b_len(v):
    t = txt(v)
    if t is not None:
        return T.length(t)
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, ListO):
        return list_len(v)
    if isinstance(v, DictO):
        return len(v.d)
    if isinstance(v, RangeV):
        return v.length()
    if isinstance(v, Inst):
        if isinstance(v.payload, tuple):
            return len(v.payload)
        f = class_lookup(v.cls, "__len__") if isinstance(v.cls, ClassO) else MISSING
        if f is not MISSING:
            return call(BoundM(f, v), [], {})
    if isinstance(v, ClassO) and v.members is not None:
        return len({id(m) for m in v.members.values()})
    if isinstance(v, Opq) and v.ty == "any":
        return L(atom("len", str(v), lo=0))
    if isinstance(v, Poison):
        raise Gap("use of loop temporary")
    I.bad_type(len, f"object of type {type_of(v)} has no len()", v)


def b_next(it, *d):
    if isinstance(it, Inst):
        f = class_lookup(it.cls, "__next__")
        try:
            return call(BoundM(f, it), [], {})
        except PyRaise as e:
            if d and subclass(e.inst.cls, StopIteration):
                return d[0]
            raise
    ok, v = M.next_(it)
    if ok:
        return v
    if d:
        return d[0]
    throw(StopIteration)


def b_iter(v, *s):
    if s:
        return IterO("call", (v, s[0]))
    return M.iter_(v)


def b_sum(v, start=0):
    acc = Env(None, "func", "sum")
    acc.vars["r"] = start

    def step(x):
        acc.put("r", M.binop(_ADD, acc.vars["r"], x))
    I.loops.iterate(M.iter_(v), step, [acc])
    return acc.vars["r"]


def b_any(v, want=True):
    acc = Env(None, "func", "any")
    acc.vars["r"] = not want

    def step(x):
        if truth(x) is want:
            acc.put("r", want)
            raise BreakE()
    I.loops.iterate(M.iter_(v), step, [acc])
    return acc.vars["r"]


def b_reduce(f, it, *init):
    acc = Env(None, "func", "reduce")
    it = M.iter_(it)
    if init:
        acc.vars["r"] = init[0]
    else:
        ok, v = M.next_(it)
        if not ok:
            throw(TypeError, "reduce() of empty iterable with no initial value")
        acc.vars["r"] = v

    def step(x):
        acc.put("r", call(f, [acc.vars["r"], x], {}))
    I.loops.iterate(it, step, [acc])
    return acc.vars["r"]


def b_reversed(v):
    if isinstance(v, RangeV):
        if all(isinstance(x, int) for x in (v.a, v.b, v.s)):
            r = range(v.a, v.b, v.s)[::-1]
            return M.iter_(RangeV(r.start, r.stop, r.step))
        if v.s == 1:
            return M.iter_(RangeV(sub(v.b, 1), sub(v.a, 1), -1))
        raise Gap("reversed range")
    t = txt(v)
    if t is not None:
        return M.iter_(T.slice_(t, None, None, -1))
    return M.iter_(ListO(M.unpack(v)[::-1]))


def b_getattr(o, name, *d):
    if not isinstance(name, str):
        raise Gap("attribute of abstract name")
    return I.getattr_(o, name, *d)


def b_hasattr(o, name):
    try:
        I.getattr0(o, name)
        return True
    except PyRaise as e:
        if subclass(e.inst.cls, AttributeError):
            return False
        raise


def b_delattr(o, name):
    I.getattr_(o, name)
    o.put(name, MISSING)


def b_vars(o):
    return I.getattr_(o, "__dict__")


def b_dir(o):
    names = set()
    if isinstance(o, ClassO):
        for k in o.mro:
            if isinstance(k, ClassO):
                names.update(k.ns)
    elif isinstance(o, Inst):
        names.update(k for k in o.attrs if not k.startswith("·"))
        for k in o.cls.mro if isinstance(o.cls, ClassO) else ():
            if isinstance(k, ClassO):
                names.update(k.ns)
    elif isinstance(o, ModuleO):
        names.update(o.env.vars)
    else:
        raise Gap("dir()")
    return ListO(sorted(names))


def b_issubclass(c, d):
    if isinstance(d, tuple):
        return any(b_issubclass(c, x) for x in d)
    if isinstance(d, Opq):
        raise Gap("issubclass of an unknown class")
    if not isinstance(c, (ClassO, type)):
        throw(TypeError, "issubclass() arg 1 must be a class")
    return subclass(c, d)


def b_callable(f):
    if isinstance(f, Inst):
        return isinstance(f.cls, ClassO) and class_lookup(f.cls, "__call__") is not MISSING
    return isinstance(f, (FuncO, BoundM, Builtin, ClassO, type))


def b_property(fget=None, fset=None, fdel=None, doc=None):
    return I.PropO(fget, fset)


def env_fn(name, f):
    return Builtin(name, f, {"env": True})


def b_locals(env):
    raise Gap("locals()")


def b_globals(env):
    e = env
    while e.parent is not None:
        e = e.parent
    return DictO({M.key(k): (k, v) for k, v in e.vars.items()})


def b_print(*a, **kw):
    effect("io", "print", a)


def b_open(*a, **kw):
    effect("io", "open", a)
    return Opq("file", tuple(map(str, a)), ty="any")


BUILTINS = {
    "None": None, "True": True, "False": False, "Ellipsis": Opq("Ellipsis"), "NotImplemented": NOTIMPL, "__debug__": True,
    "object": object, "__name__": "builtins",
}
for _t in (int, bytes, bytearray, str, bool, list, tuple, dict, set, frozenset, float, type, range, slice, complex):
    BUILTINS[_t.__name__] = _t
for _n in dir(_b):
    _v = getattr(_b, _n)
    if isinstance(_v, type) and issubclass(_v, BaseException):
        BUILTINS[_n] = _v


def _reg(name, f):
    BUILTINS[name] = Builtin(name, f)


_reg("len", b_len)
_reg("isinstance", I.isinst)
_reg("issubclass", b_issubclass)
_reg("getattr", b_getattr)
_reg("hasattr", b_hasattr)
_reg("setattr", lambda o, n, v: I.setattr_(o, n, v))
_reg("delattr", b_delattr)
_reg("callable", b_callable)
_reg("enumerate", lambda it, start=0: IterO("enum", M.iter_(it), start))
_reg("zip", lambda *a, strict=False: IterO("zip", [M.iter_(x) for x in a]))
_reg("map", lambda f, *a: IterO("map", (f, [M.iter_(x) for x in a])))
_reg("filter", lambda f, a: IterO("filter", (f, M.iter_(a))))
_reg("reversed", b_reversed)
_reg("sorted", b_sorted)
_reg("sum", b_sum)
_reg("min", lambda *a, **k: b_minmax("min", a, **k))
_reg("max", lambda *a, **k: b_minmax("max", a, **k))
_reg("any", lambda v: b_any(v, True))
_reg("all", lambda v: b_any(v, False))
_reg("abs", b_abs)
_reg("round", b_round)
_reg("divmod", b_divmod)
_reg("pow", b_pow)
_reg("ord", b_ord)
_reg("chr", b_chr)
_reg("hex", b_hex)
_reg("bin", lambda n: bin(num(n)) if isinstance(num(n), int) else whole(src("s", "binnum", num(n))))
_reg("repr", M.b_repr)
_reg("ascii", M.b_repr)
_reg("format", M.b_format)
_reg("print", b_print)
_reg("open", b_open)
_reg("input", lambda *a: b_open("input"))
_reg("iter", b_iter)
_reg("next", b_next)
_reg("property", b_property)
_reg("staticmethod", lambda f: I.StaticM(f))
_reg("classmethod", lambda f: I.ClassM(f))
_reg("memoryview", lambda v: txt(v))
_reg("vars", b_vars)
_reg("dir", b_dir)
_reg("id", lambda v: Opq("id", (str(type(v)),), ty="int"))
_reg("hash", lambda v: Opq("hash", (M.key(v),), ty="int"))
_reg("super", lambda *a: I.SuperO(*a))
_reg("exec", lambda *a: _gap("exec"))
_reg("eval", lambda *a: _gap("eval"))
_reg("__import__", lambda n, *a, **k: I.LOADER.import_(n))
BUILTINS["locals"] = env_fn("locals", b_locals)
BUILTINS["globals"] = env_fn("globals", b_globals)
from .heap import Builtin as _B  # noqa: E402
