"""Meaning of Python's operators, containers and built-in functions over abstract values."""
import ast
import builtins as _b
import operator as _op
from . import interp as I
from . import textops as T
from .heap import *
from .terms import _s
from .interp import throw, call, num, truth, truthc, txt, effect, RangeV, IterO, SliceV, FuncO, BoundM, Builtin, class_lookup, subclass, type_of

S = T.S


# ------------------------------------------------------------------ keys, equality

def key(v):
    if isinstance(v, (bool, int)):
        return ("i", int(v))
    if isinstance(v, EnumM):
        if I.is_int_enum(v.cls):
            return ("i", v.value)
        return ("m", id(v))
    if isinstance(v, str):
        return ("s", v)
    if isinstance(v, bytes):
        return ("b", v)
    if v is None or isinstance(v, float):
        return ("c", v)
    if isinstance(v, tuple):
        return ("t",) + tuple(key(x) for x in v)
    if isinstance(v, (Lin, Rope, Cond)):
        return ("x", v)
    if isinstance(v, EnumSym):
        return ("x", v.value)
    if isinstance(v, Inst):
        if v.payload is not None:
            return key(v.payload)
        f = class_lookup(v.cls, "__hash__") if isinstance(v.cls, ClassO) else MISSING
        if v.cls.fields is not None and not v.cls.opts.get("hashable"):
            throw(TypeError, f"unhashable type: {v.cls.name}")
        return ("o", id(v))
    if isinstance(v, (ListO, BArr, DictO)):
        if isinstance(v, SetO) and v.frozen:
            return ("fs", frozenset(v.d))
        throw(TypeError, "unhashable type")
    if isinstance(v, (DT, Opq)):
        return ("x", v)
    if isinstance(v, Poison):
        raise Gap(f"use of loop temporary {v!r}")
    KEEP.append(v)
    return ("o", id(v))


KEEP = []


def symbolic_key(k):
    return k[0] == "x" or k[0] == "t" and any(symbolic_key(x) for x in k[1:])


def dict_find(d, k):
    """Key of d that equals k, or None; partitions the trace when k is abstract."""
    kk = key(k)
    if not symbolic_key(kk):
        if kk in d.d:
            return kk
        for q, (orig, _) in d.d.items():
            if symbolic_key(q) and truth(equal(orig, k)):
                return q
        return None
    if kk in d.d:
        return kk
    for q, (orig, _) in list(d.d.items()):
        if truth(equal(orig, k)):
            return q
    return None


def is_(a, b):
    if a is b:
        return True
    if isinstance(a, BoundM) and isinstance(b, BoundM):
        return a == b
    if a is None or b is None or isinstance(a, (ClassO, type, bool)) or isinstance(b, (ClassO, type, bool)):
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(a, bool) or isinstance(b, bool):
                c, t = (a, b) if isinstance(b, bool) else (b, a)
                return c if t else c_not(c)
        if isinstance(a, Opq) and a.ty == "any" or isinstance(b, Opq) and b.ty == "any":
            return pred("is", str(a), str(b))
        return a is b
    if isinstance(a, EnumSym) or isinstance(b, EnumSym):
        if isinstance(a, (EnumM, EnumSym)) and isinstance(b, (EnumM, EnumSym)) and a.cls is b.cls:
            return eq(a.value, b.value)
        return False
    if isinstance(a, (int, str, bytes)) and type(a) is type(b):
        return a == b
    if isinstance(a, (Opq,)) and a == b:
        return True
    if isinstance(a, (Opq,)) and isinstance(b, Opq):
        if a.ty == "any" or b.ty == "any":
            return pred("is", str(a), str(b))
    if isinstance(a, (Lin, Rope)) and a == b:
        return True
    return False


def equal(a, b):
    """bool or Cond"""
    if a is b:
        return not (isinstance(a, float) and a != a)
    x, y = txt(a), txt(b)
    if x is not None and y is not None:
        return T.rope_eq(x, y)
    if isinstance(a, (Lin, EnumSym, EnumM, Cond, int, Inst)) and isinstance(b, (Lin, EnumSym, EnumM, Cond, int, Inst)):
        if isinstance(a, Cond) and isinstance(b, bool):
            return a if b else c_not(a)
        if isinstance(b, Cond) and isinstance(a, bool):
            return b if a else c_not(b)
        p, q = num(a), num(b)
        if p is not None and q is not None:
            r = eq(S(p), S(q))
            return r
    if isinstance(a, (float, int)) and isinstance(b, (float, int)):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return c_and([equal(p, q) for p, q in zip(a, b)])
    if isinstance(a, ListO) and isinstance(b, ListO):
        if any(isinstance(i, LSeg) for i in a.items + b.items):
            raise Gap("comparison of lists of unknown length")
        if len(a.items) != len(b.items):
            return False
        return c_and([equal(p, q) for p, q in zip(a.items, b.items)])
    if isinstance(a, DictO) and isinstance(b, DictO):
        if set(a.d) != set(b.d):
            return False
        if isinstance(a, SetO):
            return True
        return c_and([equal(a.d[k][1], b.d[k][1]) for k in a.d])
    if isinstance(a, DT) and isinstance(b, DT):
        return c_and([eq(p, q) for p, q in zip(a.f, b.f)])
    for p, q in ((a, b), (b, a)):
        if isinstance(p, Inst) and isinstance(p.cls, ClassO):
            f = class_lookup(p.cls, "__eq__")
            if f is not MISSING:
                r = call(BoundM(f, p), [q], {})
                if isinstance(r, Opq) and r.op == "NotImplemented":
                    continue
                return truthc(r)
    if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls and isinstance(a.cls, ClassO) and a.cls.fields is not None:
        if a.cls.opts.get("eq", True):
            return c_and([equal(a.attrs.get(f.name), b.attrs.get(f.name)) for f in a.cls.fields if f.eq])
    if isinstance(a, BoundM) and isinstance(b, BoundM):
        return a == b
    if isinstance(a, Opq) or isinstance(b, Opq):
        if a == b and not (isinstance(a, Opq) and a.ty == "float"):
            return True
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Opq) and p.ty not in ("any", "float", "int", "str") and (q is None or isinstance(q, (int, str, bytes, tuple, ClassO, EnumM))):
                return False
            if isinstance(p, Opq) and p.ty == "float" and (q is None or isinstance(q, (str, bytes, tuple, ListO))):
                return False
        x, y = sorted((str(a), str(b)))
        return pred("same", x, y)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Gap("use of loop temporary")
    return False


def compare(op, a, b):
    t = type(op)
    if t is ast.Eq:
        return equal(a, b)
    if t is ast.NotEq:
        return c_not(equal(a, b))
    if t is ast.Is:
        return is_(a, b)
    if t is ast.IsNot:
        return c_not(is_(a, b))
    if t is ast.In:
        return contains(b, a)
    if t is ast.NotIn:
        return c_not(contains(b, a))
    p, q = num(a), num(b)
    if p is not None and q is not None:
        p, q = S(p), S(q)
        if t is ast.Lt:
            return c_not(ge(p, q))
        if t is ast.LtE:
            return ge(q, p)
        if t is ast.Gt:
            return c_not(ge(q, p))
        return ge(p, q)
    f = {ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt, ast.GtE: _op.ge}[t]
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return f(a, b)
    x, y = txt(a), txt(b)
    if isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)) and type(x) is type(y):
        return f(x, y)
    if isinstance(a, tuple) and isinstance(b, tuple):
        for i, j in zip(a, b):
            if truth(equal(i, j)):
                continue
            return compare(ast.Lt() if t in (ast.Lt, ast.LtE) else ast.Gt(), i, j)
        return f(len(a), len(b))
    nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[t]
    if isinstance(a, Inst) and isinstance(a.cls, ClassO):
        m = class_lookup(a.cls, nm)
        if m is not MISSING:
            return truthc(call(BoundM(m, a), [b], {}))
    if isinstance(a, DT) and isinstance(b, DT):
        d = dt_order(a, b)
        return {ast.Lt: d < 0, ast.LtE: d <= 0, ast.Gt: d > 0, ast.GtE: d >= 0}[t]
    if isinstance(a, Opq) or isinstance(b, Opq):
        # order of opaque numbers: kept as one canonical question
        nm = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "lt", ast.GtE: "le"}[t]
        if t in (ast.Gt, ast.GtE):
            a, b = b, a
        return pred(nm, str(a), str(b))
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Gap("use of loop temporary")
    if isinstance(a, SetO) and isinstance(b, SetO):
        A, B = set(a.d), set(b.d)
        return f(A, B)
    I.bad_type(_op.lt, f"'<' not supported between {type_of(a)} and {type_of(b)}", a, b)


def dt_order(a, b):
    for x, y in zip(a.f, b.f):
        if decide(eq(x, y)):
            continue
        return 1 if decide(ge(x, y)) else -1
    return 0


def contains(c, x):
    t = txt(c)
    if t is not None:
        if isinstance(x, (int, Lin, EnumM, EnumSym)):
            return T.contains(t, num(x))
        y = txt(x)
        if y is None:
            I.bad_type(_op.contains, "requires text", t, x)
        return T.contains(t, y)
    if isinstance(c, (tuple, ListO)):
        items = list(c) if isinstance(c, tuple) else c.items
        cs = []
        for i in items:
            if isinstance(i, LSeg):
                raise Gap("membership in a list of unknown length")
            if i is x:
                return True
            r = equal(i, x)
            if r is True:
                return True
            cs.append(r)
        return c_or(cs)
    if isinstance(c, DictO):
        kk = key(x)
        if not symbolic_key(kk):
            if kk in c.d:
                return True
            if not any(symbolic_key(q) for q in c.d):
                return False
        return c_or([equal(o, x) for o, _ in c.d.values()])
    if isinstance(c, RangeV):
        n = num(x)
        if n is None:
            return False
        if isinstance(c.a, int) and isinstance(c.b, int):
            r = range(c.a, c.b, c.s)
            if isinstance(n, int):
                return n in r
            if c.s == 1:
                return c_and([ge(n, c.a), ge(c.b - 1, n)])
            return c_or([eq(n, i) for i in r])
        if c.s == 1:
            return c_and([ge(n, c.a), ge(sub(c.b, 1), n)])
    if isinstance(c, ClassO) and c.members is not None:
        if isinstance(x, EnumM):
            return x.cls is c
        return contains(tuple(m.value for m in c.members.values()), x)
    if isinstance(c, Inst) and isinstance(c.cls, ClassO):
        if isinstance(c.payload, tuple):
            return contains(c.payload, x)
        f = class_lookup(c.cls, "__contains__")
        if f is not MISSING:
            return truthc(call(BoundM(f, c), [x], {}))
    if isinstance(c, IterO):
        return contains(ListO(unpack(c)), x)
    raise Gap(f"membership in {c!r}")


# ------------------------------------------------------------------ arithmetic

OPN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
       ast.Pow: "pow", ast.LShift: "lshift", ast.RShift: "rshift", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.MatMult: "matmul"}


PYOP = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv, ast.Mod: _op.mod,
        ast.Pow: _op.pow, ast.LShift: _op.lshift, ast.RShift: _op.rshift, ast.BitAnd: _op.and_, ast.BitOr: _op.or_,
        ast.BitXor: _op.xor, ast.MatMult: _op.matmul}


def opaque_op(name, *args):
    return Opq(name, args, ty="float")


def floatlike(v):
    return isinstance(v, float) or isinstance(v, Opq) and v.ty in ("float", "any")


def shift_amount(q):
    if isinstance(q, int):
        return q
    l, h = rng(q, R.facts)
    if l is None or h is None or h - l > 64:
        raise Gap("shift by an unbounded amount")
    for k in range(l, h + 1):
        if decide(eq(q, k)):
            return k
    raise Infeasible()


def binop(op, a, b):
    t = type(op)
    p = num(a)
    q = num(b) if p is not None else None
    if p is not None and q is not None:
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor) and isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            if t is ast.BitAnd:
                return c_and([a, b])
            if t is ast.BitOr:
                return c_or([a, b])
            if isinstance(a, bool):
                return c_not(b) if a else b
            if isinstance(b, bool):
                return c_not(a) if b else a
        p, q = S(p), S(q)
        if t in (ast.FloorDiv, ast.Mod) and (of_clock(p) or of_clock(q)):
            if t is ast.FloorDiv and q == 1:
                return whole_clock(p, False)
            raise Gap("remainder of a clock reading")
        if isinstance(p, int) and isinstance(q, int):
            try:
                return {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv,
                        ast.Mod: _op.mod, ast.Pow: _op.pow, ast.LShift: _op.lshift, ast.RShift: _op.rshift,
                        ast.BitAnd: _op.and_, ast.BitOr: _op.or_, ast.BitXor: _op.xor}[t](p, q)
            except ZeroDivisionError:
                throw(ZeroDivisionError, "division by zero")
            except ValueError:
                throw(ValueError, "negative shift count")
        if t is ast.Add:
            return add(p, q)
        if t is ast.Sub:
            return sub(p, q)
        if t is ast.Mult:
            return mul(p, q)
        if t in (ast.FloorDiv, ast.Mod):
            if isinstance(q, Lin):
                l, h = rng(q, R.facts)
                if l is not None and h is not None and h - l <= 64:
                    q = shift_amount(q)
                    return binop(op, p, q)
                raise Gap("division by an abstract number")
            if q == 0:
                throw(ZeroDivisionError, "division by zero")
            if q < 0:
                if t is ast.Mod:
                    return mulc(mod(mulc(p, -1), -q), -1)
                return div(mulc(p, -1), -q)
            return S(div(p, q) if t is ast.FloorDiv else mod(p, q))
        if t is ast.LShift:
            k = shift_amount(q)
            if k < 0:
                throw(ValueError, "negative shift count")
            return mulc(p, 1 << k)
        if t is ast.RShift:
            k = shift_amount(q)
            if k < 0:
                throw(ValueError, "negative shift count")
            return S(div(p, 1 << k))
        if t is ast.BitAnd:
            return bitop(p, q, "and", R.facts)
        if t is ast.BitOr:
            return bitop(p, q, "or", R.facts)
        if t is ast.BitXor:
            return bitop(p, q, "xor", R.facts)
        if t is ast.Pow:
            if isinstance(q, int) and 0 <= q <= 4:
                r = 1
                for _ in range(q):
                    r = mul(r, p)
                return r
            if isinstance(q, Lin):
                return binop(op, p, shift_amount(q))
            return L(atom("pow", p, q))
        if t is ast.Div:
            return opaque_op("truediv", p, q)
    x, y = txt(a), txt(b)
    if t is ast.Add and x is not None and y is not None:
        if kind_of(x) != kind_of(y):
            throw(TypeError, "can't concat")
        r = cat(x, y)
        return BArr(r) if isinstance(a, BArr) else r
    if t is ast.Mult and (x is not None or y is not None):
        v, n = (x, num(b)) if x is not None else (y, num(a))
        if n is not None:
            if isinstance(n, Lin):
                l, h = rng(n, R.facts)
                if h is None or h > 64:
                    e = T.elems(v)
                    if e is not None and len(e) == 1:
                        if not decide(ge(n, 0)):
                            return native(kind_of(v), [])
                        s = src(kind_of(v), "repeat", v, n, len=n)
                        return BArr(whole(s)) if isinstance(a, BArr) or isinstance(b, BArr) else whole(s)
                    raise Gap("repetition of unbounded count")
                if not decide(ge(n, 0)):
                    n = 0
                else:
                    n = shift_amount(n)
            r = native(kind_of(v), []) if n <= 0 else cat(*([v] * n))
            return BArr(r) if isinstance(a, BArr) or isinstance(b, BArr) else r
    if t is ast.Mod and isinstance(a, (str, Rope)) and kind_of(a) == "s":
        return percent_format(a, b)
    if t is ast.Mod and x is not None and kind_of(x) == "b":
        return bytes_percent(a, b)
    if t is ast.Add and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if t is ast.Add and isinstance(a, ListO) and isinstance(b, ListO):
        return ListO(a.items + b.items)
    if t is ast.Mult and isinstance(a, (ListO, tuple)) and q is None and isinstance(num(b), int):
        return ListO(a.items * num(b)) if isinstance(a, ListO) else a * num(b)
    if t is ast.Mult and isinstance(b, (ListO, tuple)) and isinstance(num(a), int):
        return binop(op, b, a)
    if isinstance(a, SetO) and isinstance(b, SetO):
        A, B = dict(a.d), dict(b.d)
        if t is ast.BitOr:
            return SetO({**A, **B})
        if t is ast.BitAnd:
            return SetO({k: v for k, v in A.items() if k in B})
        if t is ast.Sub:
            return SetO({k: v for k, v in A.items() if k not in B})
        if t is ast.BitXor:
            return SetO({k: v for k, v in {**A, **B}.items() if (k in A) != (k in B)})
    if isinstance(a, DictO) and isinstance(b, DictO) and t is ast.BitOr:
        return DictO({**a.d, **b.d})
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            return {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv,
                    ast.Mod: _op.mod, ast.Pow: _op.pow}[t](a, b)
        except ZeroDivisionError:
            throw(ZeroDivisionError, "division by zero")
    r = ext.ext_binop(OPN[t], a, b)
    if r is not None:
        return r
    nm = OPN[t]
    for o, other, m in ((a, b, "__" + nm + "__"), (b, a, "__r" + nm + "__")):
        if isinstance(o, Inst) and isinstance(o.cls, ClassO):
            f = class_lookup(o.cls, m)
            if f is not MISSING:
                return call(BoundM(f, o), [other], {})
    if floatlike(a) and (floatlike(b) or num(b) is not None) or floatlike(b) and num(a) is not None:
        return opaque_op(nm, a, b)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Gap("use of loop temporary")
    if isinstance(a, (Opq, ExtObj)) and a.__class__ is Opq and a.op in ("typing", "ext", "annotation") or isinstance(a, (type, ClassO)):
        return Opq("typing", ("typing.Union",))
    I.bad_type(PYOP[t], f"unsupported operand types for {nm}: {type_of(a)!r} and {type_of(b)!r}", a, b)


# ------------------------------------------------------------------ items

def getitem(o, i):
    t = txt(o)
    if isinstance(o, Inst) and isinstance(o.cls, ClassO) and (t is None and not isinstance(o.payload, tuple)):
        f = class_lookup(o.cls, "__getitem__")
        if f is not MISSING:
            return call(BoundM(f, o), [i], {})
    if isinstance(o, Inst) and isinstance(o.payload, tuple):
        o = o.payload
    if t is not None:
        if isinstance(i, SliceV):
            a, b, st = (None if x is None else num(x) for x in (i.a, i.b, i.s))
            r = T.slice_(t, a, b, st)
            return BArr(r) if isinstance(o, BArr) else r
        n = num(i)
        if n is None:
            I.bad_type(_op.getitem, "indices must be integers", o, i)
        v = T.get_elem(t, n)
        if kind_of(t) == "s":
            return rope("s", [("e", v)])
        return v
    if isinstance(o, (tuple, ListO)):
        items = o if isinstance(o, tuple) else o.items
        if isinstance(i, SliceV):
            a, b, st = (None if x is None else num(x) for x in (i.a, i.b, i.s))
            if any(isinstance(x, Lin) for x in (a, b, st)) or any(isinstance(x, LSeg) for x in items):
                n = len(items)
                if any(isinstance(x, LSeg) for x in items) or isinstance(st, Lin):
                    raise Gap("slice of a list of unknown length")
                a, b = (bounded(x, -n, n) if isinstance(x, Lin) else x for x in (a, b))
            r = list(items)[a:b:st]
            return tuple(r) if isinstance(o, tuple) else ListO(r)
        n = num(i)
        if n is None:
            I.bad_type(_op.getitem, "indices must be integers", o, i)
        if any(isinstance(x, LSeg) for x in items):
            if isinstance(n, int) and n >= 0 and not any(isinstance(x, LSeg) for x in list(items)[:n + 1]):
                return items[n]
            if isinstance(n, int) and n < 0 and not any(isinstance(x, LSeg) for x in list(items)[n:]):
                return items[n]
            raise Gap("element of a list of unknown length")
        if isinstance(n, int):
            if not -len(items) <= n < len(items):
                throw(IndexError, "index out of range")
            return items[n]
        n = T.idx_norm(n, len(items))
        if not decide(ge(n, 0)) or not decide(ge(len(items) - 1, n)):
            throw(IndexError, "index out of range")
        n = S(n)
        if isinstance(n, Lin):
            if all(isinstance(x, int) and not isinstance(x, bool) for x in items):
                r = T.table_value(items, n)
                if r is not None:
                    return r
            for k in range(len(items)):
                if decide(eq(n, k)):
                    n = k
                    break
            else:
                raise Infeasible()
        return items[n]
    if isinstance(o, DictO):
        k = dict_find(o, i)
        if k is None:
            f = getattr(o, "factory", None) if False else DEFAULTS.get(id(o))
            if f is not None:
                v = call(f, [], {})
                d = dict(o.d)
                d[key(i)] = (i, v)
                o.set(d)
                return v
            e = Inst(KeyError, {"args": (i,)})
            raise PyRaise(I.mark_exc(e))
        return o.d[k][1]
    if isinstance(o, ClassO):
        if o.members is not None:
            if isinstance(i, str) and i in o.members:
                return o.members[i]
            throw(KeyError, i)
        f = class_lookup(o, "__class_getitem__")
        if f is not MISSING:
            return call(BoundM(f.f if isinstance(f, I.ClassM) else f, o), [i], {})
        return o
    if isinstance(o, type):
        return Opq("typing", ("typing." + o.__name__,))
    if isinstance(o, RangeV):
        n = num(i)
        if isinstance(i, SliceV) or n is None:
            if all(isinstance(x, int) for x in (o.a, o.b, o.s)):
                r = range(o.a, o.b, o.s)[slice(i.a, i.b, i.s)]
                return RangeV(r.start, r.stop, r.step)
            raise Gap("slice of range")
        ln = o.length()
        n = T.idx_norm(n, ln)
        if not decide(ge(n, 0)) or not decide(ge(sub(ln, 1), n)):
            throw(IndexError, "range index out of range")
        return o.at(n)
    if isinstance(o, Opq):
        if o.op in ("typing", "ext"):
            return o
        r = ext.opq_getitem(o, i)
        if r is not None:
            return r
    if isinstance(o, Poison):
        raise Gap("use of loop temporary")
    if o is None or isinstance(o, (int, Lin, FuncO)):
        I.bad_type(lambda x: x[0], "object is not subscriptable", o)
    raise Gap(f"item of {o!r}")


DEFAULTS = {}


def bounded(x, lo, hi):
    l, h = rng(x, R.facts)
    for k in range(max(lo, l if l is not None else lo), min(hi, h if h is not None else hi) + 1):
        if decide(eq(x, k)):
            return k
    return hi if decide(ge(x, hi)) else lo


def byteval(v):
    """Check 0 <= v <= 255 as bytearray and bytes do"""
    n = num(v)
    if n is None:
        I.bad_type(lambda x: bytes([x]), "an integer is required", v)
    if not decide(ge(n, 0)) or not decide(ge(255, n)):
        throw(ValueError, "byte must be in range(0, 256)")
    return S(n)


def setitem(o, i, v):
    if isinstance(o, DictO):
        k = dict_find(o, i)
        if k is None:
            k = key(i)
        d = dict(o.d)
        d[k] = (d[k][0] if k in d else i, v)
        o.set(d)
        return
    if isinstance(o, ListO):
        if any(isinstance(x, LSeg) for x in o.items):
            raise Gap("assignment into a list of unknown length")
        items = list(o.items)
        if isinstance(i, SliceV):
            a, b, st = (None if x is None else num(x) for x in (i.a, i.b, i.s))
            if any(isinstance(x, Lin) for x in (a, b, st)):
                raise Gap("slice assignment")
            items[a:b:st] = unpack(v)
            o.set(items)
            return
        n = num(i)
        if isinstance(n, Lin):
            n = bounded(n, 0, len(items) - 1)
        if not -len(items) <= n < len(items):
            throw(IndexError, "assignment index out of range")
        items[n] = v
        o.set(items)
        return
    if isinstance(o, BArr):
        n = T.length(o.v)
        if isinstance(i, SliceV):
            a, b, st = (None if x is None else num(x) for x in (i.a, i.b, i.s))
            if st not in (None, 1):
                raise Gap("slice assignment with step")
            a = T.clamp(a, n, 0)
            b = T.clamp(b, n, n)
            if not decide(ge(b, a)):
                b = a
            o.set(cat(T.slice_(o.v, None, a), to_bytes_like(v), T.slice_(o.v, b, None)))
            return
        k = T.idx_norm(num(i), n)
        if not decide(ge(k, 0)) or not decide(ge(sub(n, 1), k)):
            throw(IndexError, "bytearray index out of range")
        o.set(cat(T.slice_(o.v, None, k), rope("b", [("e", byteval(v))]), T.slice_(o.v, add(k, 1), None)))
        return
    if isinstance(o, Inst) and isinstance(o.cls, ClassO):
        f = class_lookup(o.cls, "__setitem__")
        if f is not MISSING:
            call(BoundM(f, o), [i, v], {})
            return
    if isinstance(o, (bytes, str, tuple, Rope)):
        I.bad_type(lambda x: x.__setitem__, "object does not support item assignment", o) if isinstance(o, Inst) else throw(TypeError, "object does not support item assignment")
    raise Gap(f"item assignment on {o!r}")


def delitem(o, i):
    if isinstance(o, DictO):
        k = dict_find(o, i)
        if k is None:
            throw(KeyError, i)
        d = dict(o.d)
        del d[k]
        o.set(d)
        return
    if isinstance(o, BArr):
        n = T.length(o.v)
        if isinstance(i, SliceV):
            a, b, st = (None if x is None else num(x) for x in (i.a, i.b, i.s))
            if st not in (None, 1):
                raise Gap("slice deletion with step")
            a = T.clamp(a, n, 0)
            b = T.clamp(b, n, n)
            if not decide(ge(b, a)):
                return
            o.set(cat(T.slice_(o.v, None, a), T.slice_(o.v, b, None)))
            return
        k = T.idx_norm(num(i), n)
        if not decide(ge(k, 0)) or not decide(ge(sub(n, 1), k)):
            throw(IndexError, "bytearray index out of range")
        o.set(cat(T.slice_(o.v, None, k), T.slice_(o.v, add(k, 1), None)))
        return
    if isinstance(o, ListO):
        items = list(o.items)
        if any(isinstance(x, LSeg) for x in items):
            raise Gap("deletion from a list of unknown length")
        if isinstance(i, SliceV):
            a, b, st = (None if x is None else num(x) for x in (i.a, i.b, i.s))
            if any(isinstance(x, Lin) for x in (a, b, st)):
                raise Gap("slice deletion")
            del items[a:b:st]
        else:
            n = num(i)
            if isinstance(n, Lin):
                raise Gap("deletion at an abstract position")
            if not -len(items) <= n < len(items):
                throw(IndexError, "index out of range")
            del items[n]
        o.set(items)
        return
    raise Gap(f"deletion from {o!r}")


# ------------------------------------------------------------------ iteration

def iter_(v):
    if isinstance(v, IterO):
        return v
    t = txt(v)
    if t is not None:
        return IterO("seq", v if isinstance(v, BArr) else t)
    if isinstance(v, (tuple, ListO, RangeV)):
        return IterO("seq", v)
    if isinstance(v, DictO):
        return IterO("seq", tuple(k for k, _ in v.d.values()))
    if isinstance(v, ClassO) and v.members is not None:
        seen = []
        for m in v.members.values():
            if m not in seen:
                seen.append(m)
        return IterO("seq", tuple(seen))
    if isinstance(v, Inst):
        if isinstance(v.payload, tuple):
            return IterO("seq", v.payload)
        f = class_lookup(v.cls, "__iter__") if isinstance(v.cls, ClassO) else MISSING
        if f is not MISSING:
            r = call(BoundM(f, v), [], {})
            if r is v:
                return IterO("inst", v)
            return iter_(r)
        f = class_lookup(v.cls, "__getitem__") if isinstance(v.cls, ClassO) else MISSING
        if f is not MISSING:
            return IterO("getitem", v)
    if isinstance(v, Poison):
        raise Gap("use of loop temporary")
    if v is None or isinstance(v, (int, Lin, EnumM, FuncO, Cond)):
        I.bad_type(iter, "object is not iterable", v)
    r = ext.ext_iter(v)
    if r is not None:
        return r
    raise Gap(f"iteration over {v!r}")


def seq_len(d):
    if isinstance(d, tuple):
        return len(d)
    if isinstance(d, ListO):
        if any(isinstance(x, LSeg) for x in d.items):
            if len(d.items) == 1 and d.items[0].seq is not None:
                return T.length(d.items[0].seq)
            raise Gap("iteration over a list of unknown length")
        return len(d.items)
    if isinstance(d, RangeV):
        return d.length()
    return T.length(txt(d))


def seq_at(d, i):
    """Element i, known to exist"""
    if isinstance(d, ListO) and len(d.items) == 1 and isinstance(d.items[0], LSeg) and d.items[0].seq is not None:
        return T.S(T.at(T.mat(d.items[0].seq), i))
    if isinstance(d, (tuple, ListO)):
        return getitem(d, i)
    if isinstance(d, RangeV):
        return d.at(i)
    t = T.mat(txt(d))
    v = T.S(T.at(t, i))
    return rope("s", [("e", v)]) if kind_of(t) == "s" else v


def next_(it):
    """(True, value) or (False, None); advances the iterator"""
    k = it.kind
    if k == "seq":
        n = seq_len(it.data)
        i = it.idx
        if not decide(ge(sub(n, 1), i)):
            return False, None
        v = seq_at(it.data, i)
        it.put(None, add(i, 1))
        return True, v
    if k == "enum":
        ok, v = next_(it.data)
        if not ok:
            return False, None
        i = it.idx
        it.put(None, add(i, 1))
        return True, (i, v)
    if k == "zip":
        out = []
        for s in it.data:
            ok, v = next_(s)
            if not ok:
                return False, None
            out.append(v)
        return True, tuple(out)
    if k == "map":
        f, subs = it.data
        out = []
        for s in subs:
            ok, v = next_(s)
            if not ok:
                return False, None
            out.append(v)
        return True, call(f, out, {})
    if k == "filter":
        f, s = it.data
        for _ in range(5000):
            ok, v = next_(s)
            if not ok:
                return False, None
            if truth(call(f, [v], {}) if f is not None else v):
                return True, v
        raise Gap("filter over an unbounded sequence")
    if k == "chain":
        subs = it.data
        while True:
            i = it.idx
            if i >= len(subs):
                return False, None
            ok, v = next_(subs[i])
            if ok:
                return True, v
            it.put(None, i + 1)
    if k == "call":
        f, sent = it.data
        v = call(f, [], {})
        if truth(equal(v, sent)):
            return False, None
        return True, v
    if k == "count":
        v = it.idx
        it.put(None, add(v, it.data))
        return True, v
    if k == "repeat":
        return True, it.data
    if k == "cycle":
        v = seq_at(it.data, it.idx)
        it.put(None, (it.idx + 1) % len(it.data))
        return True, v
    if k == "islice":
        s, n = it.data
        if it.idx >= n:
            return False, None
        it.put(None, it.idx + 1)
        return next_(s)
    if k == "takewhile":
        f, s = it.data
        if it.idx:
            return False, None
        ok, v = next_(s)
        if not ok:
            return False, None
        if truth(call(f, [v], {})):
            return True, v
        it.put(None, 1)
        return False, None
    if k == "inst":
        try:
            return True, call(I.getattr_(it.data, "__next__"), [], {})
        except PyRaise as e:
            if subclass(e.inst.cls, StopIteration):
                return False, None
            raise
    if k == "getitem":
        try:
            v = getitem(it.data, it.idx)
        except PyRaise as e:
            if subclass(e.inst.cls, IndexError):
                return False, None
            raise
        it.put(None, add(it.idx, 1))
        return True, v
    raise Gap(f"iterator {k}")


def unpack(v, n=None):
    """Finite list of the items of an iterable"""
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, ListO):
        if any(isinstance(x, LSeg) for x in v.items):
            raise Gap("unpacking a list of unknown length")
        return list(v.items)
    t = txt(v)
    if t is not None:
        e = T.elems(t)
        if e is None and n is not None:
            ln = T.length(t)
            if not decide(eq(ln, n)):
                throw(ValueError, "wrong number of values to unpack")
            e = T.elems(t)
        if e is None:
            e = T.fixed(t)
        if e is None:
            raise Gap("unpacking data of unknown length")
        return [rope("s", [("e", x)]) for x in e] if kind_of(t) == "s" else e
    if isinstance(v, RangeV):
        ln = v.length()
        if isinstance(ln, Lin):
            ln = bounded(ln, 0, 64)
        return [v.at(i) for i in range(ln)]
    it = iter_(v)
    out = []
    while True:
        ok, x = next_(it)
        if not ok:
            return out
        out.append(x)
        if n is not None and len(out) > n:
            return out
        if len(out) > 5000:
            raise Gap("unpacking an unbounded iterable")


def as_rope(v):
    """Byte rope of an iterable of integers, or None when it must be built element by element"""
    t = txt(v)
    if t is not None:
        return t
    if isinstance(v, IterO) and v.kind == "seq" and v.idx == 0 and txt(v.data) is not None:
        return txt(v.data)
    if isinstance(v, ListO) and any(isinstance(x, LSeg) for x in v.items):
        out = []
        for x in v.items:
            if isinstance(x, LSeg):
                if x.seq is None:
                    return None
                out.extend(segs(x.seq))
            else:
                out.append(("e", byteval(x)))
        return rope("b", out)
    return None


def to_bytes_like(v):
    r = as_rope(v)
    if r is not None:
        if kind_of(r) != "b":
            throw(TypeError, "string argument without an encoding")
        return r
    if isinstance(v, ListO) and any(isinstance(x, LSeg) for x in v.items):
        raise Gap("bytes from a list of unknown length")
    items = loops.collect(v)
    r = as_rope(items)
    if r is not None:
        return r
    return rope("b", [("e", byteval(x)) for x in items.items])


def list_append(o, v):
    o.set(o.items + [v])


def list_extend(o, v):
    if isinstance(v, ListO):
        o.set(o.items + v.items)
        return
    x = loops.collect(v)
    o.set(o.items + x.items)


def barr_extend(o, v):
    if isinstance(v, (int, Lin)) and not isinstance(v, bool):
        throw(TypeError, "can't extend bytearray with int")
    o.set(cat(o.v, to_bytes_like(v)))


# ------------------------------------------------------------------ text conversion

def concat_text(parts):
    out = []
    for p in parts:
        out.extend(segs(p))
    return rope("s", out)


def b_str(v="", encoding=None, errors="strict"):
    if encoding is not None:
        return T.decode(txt(v), encoding, errors)
    if isinstance(v, str):
        return v
    if isinstance(v, Rope) and v.kind == "s":
        return v
    if isinstance(v, Inst) and isinstance(v.cls, ClassO):
        f = class_lookup(v.cls, "__str__")
        if f is not MISSING:
            return as_text(call(BoundM(f, v), [], {}), "__str__")
        if v.payload is not None and is_str(v.payload) and kind_of(v.payload) == "s":
            return v.payload
    if isinstance(v, Inst) and subclass(v.cls, BaseException):
        a = v.attrs.get("args", ())
        if len(a) == 1:
            return b_str(a[0])
        return b_repr(a) if a else ""
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, EnumM) and I.is_int_enum(v.cls):
        return str(v.value)
    n = num(v) if not isinstance(v, Cond) else None
    if n is not None:
        return dec_text(n)
    if isinstance(v, DT):
        return whole(src("s", "str", v))
    return b_repr(v)


def as_text(r, name):
    """What a method of the program must give as text"""
    if not isinstance(r, (str, Rope, Inst, Opq)) or isinstance(r, Rope) and r.kind != "s":
        throw(TypeError, f"{name} returned non-string")
    return r


def dec_text(n):
    n = S(n)
    if isinstance(n, int):
        return str(n)
    l, h = rng(n, R.facts)
    hi = None if h is None or l is None else max(len(str(l)), len(str(h)))
    return whole(src("s", "dec", n, lo=1, hi=hi))


def b_repr(v):
    if isinstance(v, (str, bytes, int, float, type(None))):
        return repr(v)
    if isinstance(v, Inst) and isinstance(v.cls, ClassO):
        f = class_lookup(v.cls, "__repr__")
        if f is not MISSING:
            return as_text(call(BoundM(f, v), [], {}), "__repr__")
        return base_repr(v)
    if isinstance(v, Inst):
        return concat_text([getattr(v.cls, "__name__", "?"), "(", *_join([b_repr(x) for x in v.attrs.get("args", ())]), ")"])
    if isinstance(v, (Lin, EnumSym)):
        return dec_text(num(v))
    if isinstance(v, Rope):
        return whole(src("s", "repr", v))
    if isinstance(v, BArr):
        return concat_text(["bytearray(", b_repr(v.v), ")"])
    if isinstance(v, tuple):
        return concat_text(["(", *_join([b_repr(x) for x in v]), ",)" if len(v) == 1 else ")"])
    if isinstance(v, ListO):
        return concat_text(["[", *_join([b_repr(x) if not isinstance(x, LSeg) else whole(src("s", "repr", str(x))) for x in v.items]), "]"])
    if isinstance(v, SetO):
        return concat_text(["{", *_join([b_repr(k) for k, _ in v.d.values()]), "}"])
    if isinstance(v, DictO):
        out = []
        for k, x in v.d.values():
            out.append(concat_text([b_repr(k), ": ", b_repr(x)]))
        return concat_text(["{", *_join(out), "}"])
    if isinstance(v, ClassO):
        if isinstance(v.meta, ClassO):
            f = class_lookup(v.meta, "__repr__")
            if f is not MISSING:
                return as_text(call(f, [v], {}), "__repr__")
        return f"<class '{v.qual}'>"
    if isinstance(v, EnumM):
        return f"<{v.cls.name}.{v.name}: {v.value}>"
    if isinstance(v, Cond):
        return "True" if decide(v) else "False"
    if isinstance(v, type):
        return repr(v)
    if isinstance(v, BoundM):
        return concat_text([f"<bound method {getattr(v.func, 'qual', '?')} of ", b_repr(v.self), ">"])
    return whole(src("s", "repr", str(v)))


def _join(xs, sep=", "):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return out


def base_repr(v):
    """The representation Python or a class decorator generates"""
    if isinstance(v, ClassO):
        return f"<class '{v.qual}'>"
    if not isinstance(v, Inst):
        return b_repr(v)
    if v.cls.fields is not None and v.cls.opts.get("repr", True):
        I.STACK.append(I.Frame(None, "__repr__", None))
        try:
            out = []
            for f in v.cls.fields:
                if f.repr is False:
                    continue
                a = v.attrs.get(f.name, MISSING)
                if a is MISSING:
                    r = "NOTHING"
                elif f.repr is True:
                    r = b_repr(a)
                else:
                    r = call(f.repr, [a], {})
                out.append(concat_text([f.name + "=", r]))
            return concat_text([v.cls.name + "(", *_join(out), ")"])
        finally:
            I.STACK.pop()
    if v.payload is not None:
        return b_repr(v.payload)
    if subclass(v.cls, BaseException):
        return concat_text([v.cls.name + "(", *_join([b_repr(x) for x in v.attrs.get("args", ())]), ")"])
    return f"<{v.cls.qual} object>"


def b_format(v, spec=""):
    if not isinstance(spec, str):
        return whole(src("s", "format", str(v), str(spec)))
    if isinstance(v, Inst) and isinstance(v.cls, ClassO):
        f = class_lookup(v.cls, "__format__")
        if f is not MISSING:
            return as_text(call(BoundM(f, v), [spec], {}), "__format__")
    if spec == "":
        return b_str(v)
    if isinstance(v, (str, int, float)) and not isinstance(v, EnumM):
        try:
            return format(v, spec)
        except (ValueError, TypeError) as e:
            throw(type(e), str(e))
    n = num(v)
    if n is not None:
        if isinstance(n, int):
            return format(n, spec)
        import re
        m = re.fullmatch(r"(?:0>?)?(\d*)d?|0(\d+)d?", spec)
        m = re.fullmatch(r"(0?)(\d*)d?", spec) or re.fullmatch(r"(0)>(\d+)d?", spec)
        if m:
            w = int(m.group(2) or 1)
            r = T.padded(n, w, 48 if m.group(1) else 32) if w > 1 else dec_text(n)
            if r is not None:
                return r
        m = re.fullmatch(r"0(\d+)x", spec)
        if m:
            w = int(m.group(1))
            l, h = rng(n, R.facts)
            if l is not None and h is not None and l >= 0 and h < 16 ** w:
                return rope("s", [("e", T.hexchar(bf(n, 4 * (w - 1 - i), 4))) for i in range(w)])
        return whole(src("s", "format", n, spec))
    if isinstance(v, DT) and "%" in spec:
        return ext.strftime(v, spec)
    x = txt(v)
    return whole(src("s", "format", x if x is not None else str(v), spec))


PERCENT = rb"%(\(\w+\))?([-#0 +]*)(\d*)(?:\.(\d+))?([a-zA-Z%])"


def bytes_percent(f, args):
    """bytes % values for a literal format"""
    t = txt(f)
    if not isinstance(t, bytes):
        raise Gap("% on bytes that are not a literal")
    import re
    items = list(args) if isinstance(args, tuple) else [args]
    out = []
    pos = i = 0
    for m in re.finditer(PERCENT, t):
        out.append(t[pos:m.start()])
        pos = m.end()
        c = m.group(5).decode()
        if c == "%":
            out.append(b"%")
            continue
        if m.group(1):
            v = getitem(args, m.group(1)[1:-1])
        else:
            if i >= len(items):
                throw(TypeError, "not enough arguments for format string")
            v = items[i]
            i += 1
        if c in "bs" and not m.group(2) and not m.group(3) and not m.group(4):
            if isinstance(v, Inst) and isinstance(v.cls, ClassO) and class_lookup(v.cls, "__bytes__") is not MISSING:
                v = call(BoundM(class_lookup(v.cls, "__bytes__"), v), [], {})
            y = txt(v)
            if y is None or kind_of(y) != "b":
                I.bad_type(lambda z: b"%b" % (z,), "%b requires a bytes-like object", v)
            out.append(y)
        elif c == "c" and not m.group(3):
            y = txt(v)
            if y is not None:
                if kind_of(y) != "b" or T.length(y) != 1:
                    raise Gap("%c of text")
                out.append(y)
            else:
                if num(v) is None:
                    I.bad_type(lambda z: b"%c" % (z,), "%c requires an integer", v)
                if not decide(ge(num(v), 0)) or not decide(ge(255, num(v))):
                    throw(OverflowError, "%c arg not in range(256)")
                out.append(rope("b", [("e", num(v))]))
        elif c in "dixX" and num(v) is not None and m.group(2) in (b"", b"0") and not m.group(4):
            n = num(v)
            if not decide(ge(n, 0)):
                raise Gap("negative number in a % format")
            spec_ = ("0" if m.group(2) else "") + m.group(3).decode() + {"i": "d"}.get(c, c)
            out.append(T.encode(b_format(n, spec_), "ascii", "strict"))
        else:
            raise Gap(f"bytes format {m.group(0)!r}")
    rest = t[pos:]
    if b"%" in re.sub(PERCENT, b"", t):
        raise Gap("% format")
    if not isinstance(args, (DictO,)) and i < len(items) and not (isinstance(args, tuple) and not args):
        throw(TypeError, "not all arguments converted during bytes formatting")
    r = cat(b"", *[x for x in out], rest)
    return BArr(r) if isinstance(f, BArr) else r


def percent_format(f, args):
    if not isinstance(f, str):
        return whole(src("s", "format%", f, str(args)))
    import re
    items = list(args) if isinstance(args, tuple) else [args]
    out = []
    pos = 0
    i = 0
    for m in re.finditer(r"%(\(\w+\))?([-#0 +]*)(\d*)(?:\.(\d+))?([a-zA-Z%])", f):
        out.append(f[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if m.group(1):
            v = getitem(args, m.group(1)[1:-1])
        else:
            if i >= len(items):
                throw(TypeError, "not enough arguments for format string")
            v = items[i]
            i += 1
        c = m.group(5)
        if c == "s":
            out.append(b_str(v))
        elif c == "r":
            out.append(b_repr(v))
        elif c in "di":
            w = m.group(3)
            out.append(b_format(num(v), ("0" if "0" in m.group(2) else "") + w + "d"))
        elif c == "x":
            out.append(b_format(num(v), ("0" if "0" in m.group(2) else "") + m.group(3) + "x"))
        elif c == "c" and isinstance(v, (int, Lin)):
            out.append(rope("s", [("e", v)]))
        else:
            out.append(whole(src("s", "format%", str(v), m.group(0))))
    out.append(f[pos:])
    return concat_text(out)


def str_format(f, args, kwargs):
    import string
    if not isinstance(f, str):
        return whole(src("s", "formatcall", f, str(args)))
    out = []
    n = 0
    for lit, name, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if name is None:
            continue
        import re
        m = re.match(r"[^.\[]*", name).group(0)
        rest = name[len(m):]
        if m == "":
            v = args[n]
            n += 1
        elif m.isdigit():
            v = args[int(m)]
        else:
            v = kwargs[m]
        for p in re.findall(r"\.(\w+)|\[(\w+)\]", rest):
            v = I.getattr_(v, p[0]) if p[0] else getitem(v, int(p[1]) if p[1].isdigit() else p[1])
        if conv == "r":
            v = b_repr(v)
        elif conv == "s":
            v = b_str(v)
        out.append(b_format(v, spec or ""))
    return concat_text(out)


from .objects import *   # noqa: E402,F401,F403
from .objects import make_class, instantiate, funcs_in, convert_validate, raw_new  # noqa: E402
from .builtin import *   # noqa: E402,F401,F403
from .builtin import BUILTINS, call_type, type_attr, class_attr, method  # noqa: E402
from . import ext        # noqa: E402
from .ext import ext_attr, ext_star, ext_method, call_opaque, call_ext, EXTCLASS, cm_enter, cm_exit  # noqa: E402
from . import loops      # noqa: E402
