"""Meaning of byte-string and text operations on ropes."""
from . import interp as I
from .heap import *


def S(v):
    return simp(v, R.facts) if isinstance(v, Lin) else v


def norm(v):
    """Apply known facts to the bounds of a rope's slices."""
    if not isinstance(v, Rope):
        return v
    if not any(g[0] == "s" and (isinstance(g[2], Lin) or isinstance(g[3], Lin)) for g in v.segs):
        return v
    out = []
    ch = False
    for g in v.segs:
        if g[0] == "s":
            a, b = S(g[2]), S(g[3])
            if a != g[2] or b != g[3]:
                # keep "whole source" recognisable
                if g[2] == 0 and g[3] == g[1].len and not isinstance(b, int):
                    out.append(g)
                    continue
                ch = True
                g = ("s", g[1], a, b)
        out.append(g)
    return rope(v.kind, out) if ch else v


def mat(v):
    """Normal, with conditional values and decimal numbers made explicit (may partition the trace)."""
    v = norm(I.force(v))
    if isinstance(v, Rope):
        if any(g[0] == "s" and g[1].op == "dec" for g in v.segs):
            out = []
            for g in v.segs:
                if g[0] == "s" and g[1].op == "dec" and g[2] == 0:
                    d = decimal_elems(g[1].args[0])
                    if d is not None:
                        out.extend(("e", x) for x in d)
                        continue
                out.append(g)
            v = rope(v.kind, out)
        v = expand_seq(v)
    return v


def expand_seq(v):
    if isinstance(v, Rope) and any(g[0] == "s" and g[1].op == "seq" and g[2] == 0 and g[3] == g[1].len for g in v.segs):
        out = []
        for g in v.segs:
            if g[0] == "s" and g[1].op == "seq" and g[2] == 0 and g[3] == g[1].len:
                out.extend(segs(g[1].args[0]))
            else:
                out.append(g)
        return expand_seq(rope(v.kind, out))
    return v


def decimal_elems(v):
    l, h = rng(v, R.facts)
    if l is None or h is None or l < 0 or h >= 10 ** 12:
        return None
    n = 1
    while h >= 10 ** n:
        if not decide(ge(v, 10 ** n)):
            break
        n += 1
    out = []
    for i in range(n):
        d = div(v, 10 ** (n - 1 - i))
        out.append(add(48, d if i == 0 else mod(d, 10)))
    return [S(x) for x in out]


def length(v):
    v = norm(I.force(v))
    if isinstance(v, Rope) and any(g[0] == "s" and g[1].op == "dec" for g in v.segs):
        v = mat(v)
    return S(rlen(v))


def elems(v):
    """Element list of a rope whose length is known (after facts), else None"""
    v = mat(v)
    n = rlen(v)
    if isinstance(n, Lin):
        n = S(n)
        if isinstance(n, Lin):
            return None
        out = []
        for g in segs(v):
            if g[0] == "e":
                out.append(g[1])
            else:
                k = S(seglen(g))
                if not isinstance(k, int):
                    return None
                out.extend(el(g[1], add(g[2], i)) for i in range(k))
        return out
    return finite_elems(v)


def fixed(v, limit=40):
    """Element list, partitioning on the length when it is bounded; None when it is not."""
    e = elems(v)
    if e is not None:
        return e
    v = mat(v)
    n = S(rlen(v))
    l, h = rng(n, R.facts)
    if h is None or h - max(0, l or 0) > limit:
        return None
    for k in range(max(0, l or 0), h + 1):
        if decide(eq(n, k)):
            r = elems(v)
            if r is None:
                raise Gap(f"content of {v!r} of length {k}")
            return r
    raise Infeasible()


def from_elems(kind, es):
    return rope(kind, [("e", x) for x in es])


# ------------------------------------------------------------------ indexing and slicing

def idx_norm(i, n):
    if isinstance(i, int):
        if i >= 0:
            return i
        return S(add(n, i))
    i = S(i)
    if isinstance(i, int):
        return idx_norm(i, n)
    if decide(ge(i, 0)):
        return i
    return S(add(n, i))


def get_elem(v, i):
    v = mat(v)
    n = S(rlen(v))
    i = idx_norm(i, n)
    if not decide(ge(i, 0)) or not decide(ge(sub(n, 1), i)):
        I.throw(IndexError, "index out of range")
    i = S(i)
    if isinstance(i, Lin):
        t = const_lookup(v, i)
        if t is not None:
            return t
    return S(at(v, i))


def at(v, i):
    """Element i, known to exist; a loop position in a concatenation stays one unknown of the whole"""
    if isinstance(i, Lin) and isinstance(v, Rope) and len(v.segs) > 1 and any(a.op == "h" for a in bases(i)):
        j = i
        for g in v.segs:
            k = known(ge(j, seglen(g)))
            if k is False:
                break
            if k is None:
                return el(src(v.kind, "seq", v, len=rlen(v)), i)
            j = sub(j, seglen(g))
    return elem_at(v, i, decide)


def const_lookup(v, i):
    """Constant text indexed by a small quantity"""
    if isinstance(v, (bytes, str)):
        return table_value([x if isinstance(x, int) else ord(x) for x in v], i)
    return None


def table_value(vals, i):
    """vals[i] for constant integers vals and an abstract index in range."""
    bs = to_bits(i, R.facts)
    l, h = rng(i, R.facts)
    if bs is None or h is None or h > 255 or any(x < 0 for x in vals):
        return None
    n = len(bs)
    tab = [vals[x] if x < len(vals) else 0 for x in range(1 << n)]
    w = max(tab).bit_length()
    out = []
    for b in range(w):
        g = [t >> b & 1 for t in tab]
        for k in range(n):
            for x in range(1 << n):
                if x >> k & 1:
                    g[x] ^= g[x ^ (1 << k)]
        acc = ZERO
        for x in range(1 << n):
            if g[x]:
                m = ONE
                for k in range(n):
                    if x >> k & 1:
                        m = band(m, bs[k])
                acc = bxor(acc, m)
        out.append(acc)
    return from_bits(out)


def clamp(i, n, dflt):
    if i is None:
        return dflt
    if isinstance(i, int) and i >= 0 or isinstance(i, Lin) and decide(ge(i, 0)):
        return i if decide(ge(n, i)) else n
    j = S(add(n, i))
    if decide(ge(j, 0)):
        return j
    return 0


def slice_(v, a, b, step=None):
    v = mat(v)
    n = S(rlen(v))
    if step is not None and step != 1:
        e = fixed(v)
        if e is None or not isinstance(step, int) or isinstance(a, Lin) or isinstance(b, Lin):
            raise Gap("slice with a step")
        return from_elems(kind_of(v), e[slice(a, b, step)])
    if isinstance(v, (bytes, str)) and not isinstance(a, Lin) and not isinstance(b, Lin):
        return v[a:b]
    a = clamp(a, n, 0)
    b = clamp(b, n, n)
    if not decide(ge(b, a)):
        return native(kind_of(v), [])
    if a == 0 and b == n:
        return v
    _, rest = split_at(v, a, decide) if a != 0 else (None, v)
    if b == n:
        return norm(rest)
    pre, _ = split_at(rest, S(sub(b, a)), decide)
    return norm(pre)


# ------------------------------------------------------------------ equality, prefixes, search

def elem_eq(x, y):
    return eq(x, y) if isinstance(x, Lin) or isinstance(y, Lin) else x == y


def rope_eq(a, b):
    """bool or Cond"""
    if kind_of(a) != kind_of(b):
        return False
    a, b = norm(a), norm(b)
    if a == b:
        return True
    if isinstance(a, (bytes, str)) and isinstance(b, (bytes, str)):
        return a == b
    a, b = mat(a), mat(b)
    if a == b:
        return True
    na, nb = S(rlen(a)), S(rlen(b))
    c = eq(na, nb)
    if c is False:
        return False
    # common ends
    sa_, sb = list(segs(a)), list(segs(b))
    while sa_ and sb and sa_[0] == sb[0]:
        del sa_[0], sb[0]
    while sa_ and sb and sa_[-1] == sb[-1]:
        del sa_[-1], sb[-1]
    a, b = rope(kind_of(a), sa_), rope(kind_of(b), sb)
    na, nb = S(rlen(a)), S(rlen(b))
    c = eq(na, nb)
    if c is not True:
        if not decide(c):
            return False
        a, b = norm(a), norm(b)
        na = S(rlen(a))
    ea, eb = elems(a), elems(b)
    if ea is not None and eb is not None:
        if len(ea) != len(eb):
            return False
        return c_and([elem_eq(x, y) for x, y in zip(ea, eb)])
    if (ea is not None or eb is not None):
        k = len(ea if ea is not None else eb)
        other = b if ea is not None else a
        es = [S(elem_at(other, i, decide)) for i in range(k)]
        return c_and([elem_eq(x, y) for x, y in zip(ea if ea is not None else eb, es)])
    if a == b:
        return True
    if repr(a) > repr(b):
        a, b = b, a
    return pred("equal", a, b)


def startswith(v, p, *rng_):
    if rng_:
        v = slice_(v, *rng_)
    if isinstance(p, tuple):
        return any(I.truth(startswith(v, x)) for x in p)
    p = I.txt(p)
    v = mat(v)
    e = elems(p)
    if e is None:
        raise Gap("startswith of an abstract prefix")
    n = S(rlen(v))
    if not decide(ge(n, len(e))):
        return False
    return c_and([elem_eq(S(elem_at(v, i, decide)), x) for i, x in enumerate(e)])


def endswith(v, p, *rng_):
    if rng_:
        v = slice_(v, *rng_)
    if isinstance(p, tuple):
        return any(I.truth(endswith(v, x)) for x in p)
    p = I.txt(p)
    v = mat(v)
    e = elems(p)
    if e is None:
        raise Gap("endswith of an abstract suffix")
    n = S(rlen(v))
    if not decide(ge(n, len(e))):
        return False
    k = len(e)
    return c_and([elem_eq(S(elem_at(v, S(add(n, i - k)), decide)), x) for i, x in enumerate(e)])


def seg_excludes(g, x):
    """Does this segment certainly not contain x?"""
    s = g[1]
    if s.mask and s.mask != "latin" and s.mask >> x & 1:
        return True
    if s.op == "hom":
        t = s.args[0]
        return x < 256 and all(x not in y for y in t)
    k = R.facts.preds.get(pred("has", s, g[2], g[3], x))
    if k is False:
        return True
    for (s2, lo, hi, y) in NOHAS_OF(s):
        if y == x and known(ge(g[2], lo)) is True and known(ge(hi, g[3])) is True:
            return True
    a, b = S(g[2]), S(g[3])
    if isinstance(a, int) and isinstance(b, int) and b - a <= 400:
        return all(known(eq(S(el(s, i)), x)) is False for i in range(a, b))
    return False


def NOHAS_OF(s):
    return [c.k[2:] for c, t in R.facts.preds.items() if t is False and c.k[0] == "pred" and c.k[1] == "has" and c.k[2] is s]


def find_elem(v, x, reverse=False):
    """Index of the first/last occurrence of constant element x, or None; partitions the trace."""
    v = mat(v)
    if isinstance(v, (bytes, str)):
        i = (v.rfind if reverse else v.find)(native(kind_of(v), [x]))
        return None if i < 0 else i
    gs = list(v.segs)
    pos = []
    p = 0
    for g in gs:
        pos.append(p)
        p = add(p, seglen(g))
    order = range(len(gs) - 1, -1, -1) if reverse else range(len(gs))
    for i in order:
        g = gs[i]
        if g[0] == "e":
            c = elem_eq(g[1], x)
            if decide(c):
                return S(pos[i])
            continue
        if seg_excludes(g, x):
            continue
        n = S(seglen(g))
        if n == 1:
            if decide(eq(S(el(g[1], g[2])), x)):
                return S(pos[i])
            continue
        has = pred("has", g[1], g[2], g[3], x)
        if decide(has):
            assume(ge(n, 1))
            op = "ridx" if reverse else "idx"
            k = L(atom(op, g[1], g[2], g[3], x, lo=0))
            assume(ge(sub(n, 1), k))
            j = add(g[2], k)
            # on either side of it the element does not occur
            if reverse:
                R.facts.preds[pred("has", g[1], add(j, 1), g[3], x)] = False
            else:
                R.facts.preds[pred("has", g[1], g[2], j, x)] = False
            assume(eq(el(g[1], j), x))
            return S(add(pos[i], k))
    return None


def find(v, p, a=None, b=None, reverse=False):
    """int/Lin or -1"""
    off = 0
    if a is not None or b is not None:
        n = length(v)
        off = clamp(a, n, 0)
        v = slice_(v, a, b)
    if isinstance(p, (int, Lin)):
        x = p
        if isinstance(x, Lin):
            raise Gap("search for an abstract byte")
    else:
        p = I.txt(p)
        e = elems(p)
        if e is None:
            raise Gap("search for an abstract pattern")
        if len(e) == 0:
            return 0 if not reverse else length(v)
        if len(e) != 1 or not isinstance(e[0], int):
            return find_multi(v, p, e, reverse, off)
        x = e[0]
    i = find_elem(v, x, reverse)
    if i is None:
        return -1
    return S(add(off, i))


def find_multi(v, p, e, reverse, off):
    v = mat(v)
    if isinstance(v, (bytes, str)) and isinstance(p, (bytes, str)):
        i = (v.rfind if reverse else v.find)(p)
        return i if i < 0 else add(i, off)
    es = elems(v)
    if es is None:
        l, h = rng(S(rlen(v)), R.facts)
        es = fixed(v, 8)
    if es is None:
        if any(isinstance(x, int) and all(g[0] == "s" and seg_excludes(g, x) for g in segs(v)) for x in e):
            return -1
        raise Gap("search for a longer pattern")
    r = range(len(es) - len(e), -1, -1) if reverse else range(len(es) - len(e) + 1)
    for i in r:
        if all(decide(elem_eq(es[i + j], y)) for j, y in enumerate(e)):
            return add(i, off)
    return -1


def index(v, p, a=None, b=None, reverse=False):
    i = find(v, p, a, b, reverse)
    if i == -1:
        I.throw(ValueError, "subsection not found")
    return i


def contains(v, p):
    if isinstance(v, (bytes, str)) and isinstance(p, (bytes, str)):
        return p in v
    if isinstance(p, Lin):
        if isinstance(v, bytes):
            return c_or([eq(p, x) for x in sorted(set(v))])
        e = elems(v)
        if e is None:
            raise Gap("membership of an abstract byte")
        return c_or([elem_eq(p, x) for x in e])
    if isinstance(p, Rope) and isinstance(v, (bytes, str)):
        e = fixed(p, 3)
        if e is not None and len(e) == 1:
            return c_or([elem_eq(e[0], y if isinstance(y, int) else ord(y)) for y in sorted(set(v))])
        if e == []:
            return True
    r = find(v, p)
    return r != -1


def replace(v, a, b, count=-1):
    a, b = I.txt(a), I.txt(b)
    v = mat(v)
    if all(isinstance(x, (bytes, str)) for x in (v, a, b)):
        return v.replace(a, b, count)
    ea, eb = elems(a), elems(b)
    if ea is None or eb is None or not all(isinstance(x, int) for x in ea + eb):
        raise Gap("replacement with abstract patterns")
    k = kind_of(v)
    if len(ea) == 1 and count == -1:
        return un_hom(v, replace_table(ea[0], tuple(eb))) if ea[0] < 256 else v
    es = elems(v)
    if es is None:
        es = fixed(v, 12)
    if es is None:
        if any(all(g[0] == "s" and seg_excludes(g, x) for g in segs(v)) for x in ea):
            return v
        raise Gap("replacement of a longer pattern in data of unknown length")
    out = []
    i = 0
    n = 0
    while i < len(es):
        if (count < 0 or n < count) and i + len(ea) <= len(es) and all(decide(elem_eq(es[i + j], y)) for j, y in enumerate(ea)):
            out.extend(eb)
            i += len(ea)
            n += 1
        else:
            out.append(es[i])
            i += 1
    return from_elems(k, out)


def un_hom(v, table):
    """Element-wise map; texts decoded from bytes are mapped before decoding."""
    if kind_of(v) == "s" and isinstance(v, Rope):
        b = unlatin(v)
        if b is not None and all(y < 256 for t in table for y in t):
            return latin(hom(table, b))
    if isinstance(v, Rope) and any(g[0] == "e" for g in v.segs) and any(len(t) != 1 for t in table):
        # elements that the facts of the trace keep out of the table's reach stay as they are
        out = None
        for g in v.segs:
            piece = rope(v.kind, [g])
            if g[0] == "e" and isinstance(g[1], Lin):
                d = byte_dep(g[1])
                if d is not None:
                    m = R.facts.mask(d)
                    if all(table[x] == (x,) for x in {ev(g[1], {d: i}) for i in range(d.lo, d.hi + 1) if m >> i & 1} if 0 <= x < 256):
                        out = piece if out is None else cat(out, piece)
                        continue
            piece = hom(table, piece)
            out = piece if out is None else cat(out, piece)
        return out
    return hom(table, v)


# ------------------------------------------------------------------ latin-1

def latin(v):
    """bytes -> str of the same code points"""
    if isinstance(v, bytes):
        return v.decode("latin-1")
    return rope("s", [("s", latin_src(g[1]), g[2], g[3]) if g[0] == "s" else g for g in v.segs])


def unlatin(v):
    """str of code points below 256 -> bytes, or None when not known to be such"""
    if isinstance(v, str):
        try:
            return v.encode("latin-1")
        except UnicodeEncodeError:
            return None
    out = []
    for g in v.segs:
        if g[0] == "s":
            s = g[1]
            if s.op == "dec" or not s.mask:
                return None
            out.append(("s", unlatin_src(s), g[2], g[3]))
        else:
            l, h = rng(g[1], R.facts)
            if l is None or h is None or h > 255:
                return None
            out.append(g)
    return rope("b", out)


def encname(n):
    n = I.txt(n) if n is not None else "utf-8"
    return n.lower().replace("_", "-")


LATIN = ("latin-1", "latin1", "iso-8859-1", "l1", "iso8859-1", "cp819")


def decode(v, enc="utf-8", errors="strict"):
    v = mat(v)
    enc = encname(enc)
    if isinstance(v, bytes):
        try:
            return v.decode(enc, errors)
        except UnicodeDecodeError:
            I.throw(UnicodeDecodeError, "decode")
    if enc in LATIN:
        return latin(v)
    ok = pred("decodable", enc, errors, v)
    asc = True
    for g in segs(v):
        if g[0] == "e":
            l, h = rng(g[1], R.facts)
            asc = asc and h is not None and h < 128
        else:
            asc = asc and bool(g[1].mask) and g[1].mask != "latin" and all(g[1].mask >> i & 1 for i in range(128, 256))
    if asc:
        return latin(v)
    if errors == "strict":
        if not decide(ok):
            I.throw(UnicodeDecodeError, enc)
    return whole(src("s", "decode", enc, errors, v))


def encode(v, enc="utf-8", errors="strict"):
    v = mat(v)
    enc = encname(enc)
    if isinstance(v, str):
        try:
            return v.encode(enc, errors)
        except UnicodeEncodeError:
            I.throw(UnicodeEncodeError, "encode")
    if enc in LATIN or enc in ("ascii", "us-ascii", "utf-8", "utf8"):
        limit = 255 if enc in LATIN else 127
        out = []
        for g in segs(v):
            if g[0] == "e":
                c = ge(limit, g[1])
                if known(c) is not True:
                    if enc in ("utf-8", "utf8"):
                        raise Gap("utf-8 encoding of an abstract character")
                    if errors != "strict":
                        raise Gap("lossy encoding")
                    if not decide(c):
                        I.throw(UnicodeEncodeError, enc)
                out.append(("e", g[1]))
                continue
            s = g[1]
            sub_ = rope("s", [g])
            b = unlatin(sub_)
            small = s.mask and s.mask != "latin" and all(s.mask >> i & 1 for i in range(128, 256))
            if b is not None and (limit == 255 or small):
                out.extend(segs(b))
                continue
            whole_ = whole(s)
            if enc in ("utf-8", "utf8"):
                if decide(pred("ascii", s)):
                    out.append(("s", src("b", "encode", "latin-1", s, len=s.len), g[2], g[3]))
                    continue
                if g[2] == 0 and g[3] == s.len:
                    t = src("b", "encode", "utf-8", s)
                    out.extend(segs(whole(t)))
                    continue
                raise Gap("utf-8 encoding of a part")
            if errors != "strict":
                if not decide(pred("encodable", "latin-1" if limit == 255 else "ascii", s)):
                    t = src("b", "encode", enc, errors, s)
                    out.extend(segs(whole(t)))
                    continue
                out.append(("s", src("b", "encode", "latin-1", s, len=s.len), g[2], g[3]))
                continue
            if limit == 127:
                if not decide(pred("encodable", "ascii", s)):
                    I.throw(UnicodeEncodeError, enc)
                R.facts.preds[pred("encodable", "latin-1", s)] = True
            elif not decide(pred("encodable", "latin-1", s)):
                I.throw(UnicodeEncodeError, enc)
            out.append(("s", src("b", "encode", "latin-1", s, len=s.len), g[2], g[3]))
        return rope("b", out)
    ok = pred("encodable", enc, v)
    if errors == "strict" and not decide(ok):
        I.throw(UnicodeEncodeError, enc)
    return whole(src("b", "encode", enc, errors, v))


# ------------------------------------------------------------------ strip

BWS = frozenset(b" \t\n\r\x0b\f")
SWS = frozenset([9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160])   # white space below U+0100


def strip_(v, chars=None, left=True, right=True):
    v = mat(v)
    if isinstance(v, (bytes, str)) and (chars is None or isinstance(chars, (bytes, str))):
        f = v.strip if left and right else v.lstrip if left else v.rstrip
        return f(chars)
    k = kind_of(v)
    if chars is None:
        cs = BWS if k == "b" else SWS
    else:
        e = elems(I.txt(chars))
        if e is None or not all(isinstance(x, int) for x in e):
            raise Gap("strip of abstract characters")
        cs = frozenset(e)
    if k == "s" and isinstance(v, Rope):
        b = unlatin(v)
        if b is not None:
            return latin(strip_raw(b, cs if left else None, cs if right else None))
        if chars is None:
            cs = frozenset(["unicode whitespace"])
    return strip_raw(v, cs if left else None, cs if right else None)


def strip_raw(v, lset, rset):
    k = kind_of(v)
    gs = list(segs(v))
    if "unicode whitespace" not in (lset or ()) and "unicode whitespace" not in (rset or ()):
        while lset and gs and gs[0][0] == "e" and known_in(gs[0][1], lset) is True:
            del gs[0]
        if lset and gs and gs[0][0] == "e" and known_in(gs[0][1], lset) is False:
            lset = None
        while rset and gs and gs[-1][0] == "e" and known_in(gs[-1][1], rset) is True:
            del gs[-1]
        if rset and gs and gs[-1][0] == "e" and known_in(gs[-1][1], rset) is False:
            rset = None
        v = rope(k, gs)
    if not lset and not rset or isinstance(v, (bytes, str)) and len(v) == 0:
        return v
    if isinstance(v, (bytes, str)):
        if lset:
            v = v.lstrip(native(k, sorted(lset)))
        if rset:
            v = v.rstrip(native(k, sorted(rset)))
        return v
    if len(v.segs) == 1 and v.segs[0][0] == "s" and v.segs[0][1].op == "strip":
        g = v.segs[0]
        if g[2] == 0 and g[3] == g[1].len:
            l0, r0, w = g[1].args
            if (not lset or not l0 or l0 >= lset or l0 <= lset) and (not rset or not r0 or r0 >= rset or r0 <= rset):
                # stripping a larger and a smaller set in either order strips the larger
                nl = (l0 or frozenset()) | (lset or frozenset())
                nr = (r0 or frozenset()) | (rset or frozenset())
                v, lset, rset = w, nl or None, nr or None
    l, h = rng(rlen(v), R.facts)
    mask = None
    if len(v.segs) == 1 and v.segs[0][0] == "s":
        mask = v.segs[0][1].mask
    return whole(src(k, "strip", lset, rset, v, lo=0, hi=h, mask=mask))


def known_in(x, cs):
    if isinstance(x, int):
        return x in cs
    a = byte_dep(x)
    if a is not None:
        m = R.facts.mask(a)
        vals = {ev(x, {a: i}) in cs for i in range(a.lo, a.hi + 1) if m >> i & 1}
        if len(vals) == 1:
            return vals.pop()
    return None


# ------------------------------------------------------------------ hexadecimal and decimal text

def hexchar(n):
    if isinstance(n, int):
        return ord("0123456789abcdef"[n])
    l, h = rng(n, R.facts)
    if h is not None and h <= 9:
        return add(48, n)
    return L(atom("hexc", n, lo=48, hi=102))


def to_hex(v, *sep):
    v = mat(v)
    if isinstance(v, bytes) and not sep:
        return v.hex()
    if sep:
        raise Gap("hex with separator")
    e = fixed(v)
    if e is None:
        return whole(src("s", "hex", v, len=mulc(rlen(v), 2)))
    if len(e) > 64:
        return whole(src("s", "hex", v, len=2 * len(e)))
    out = []
    for x in e:
        out += [("e", hexchar(bf(x, 4, 4))), ("e", hexchar(bf(x, 0, 4)))]
    return rope("s", out)


def hexval(c, err):
    """Value of a hexadecimal digit character; raises the program's ValueError when it is none."""
    if isinstance(c, int):
        ch = chr(c)
        if ch in "0123456789abcdefABCDEF":
            return int(ch, 16)
        I.throw(ValueError, err)
    if c.c == 0 and len(c.t) == 1 and c.t[0][1] == 1 and c.t[0][0].op == "hexc":
        return c.t[0][0].args[0]
    l, h = rng(c, R.facts)
    if l is not None and h is not None and l >= 48 and h <= 57:
        return sub(c, 48)
    if decide(ge(c, 48)) and decide(ge(57, c)):
        return sub(c, 48)
    if decide(ge(c, 97)) and decide(ge(102, c)):
        return sub(c, 87)
    if decide(ge(c, 65)) and decide(ge(70, c)):
        return sub(c, 55)
    I.throw(ValueError, err)


def from_hex(t):
    t = mat(t)
    if isinstance(t, str):
        try:
            return bytes.fromhex(t)
        except ValueError:
            I.throw(ValueError, "non-hexadecimal number")
    if len(t.segs) == 1 and t.segs[0][0] == "s" and t.segs[0][1].op == "hex":
        return t.segs[0][1].args[0]
    e = fixed(t)
    if e is None:
        raise Gap("fromhex of text of unknown length")
    if len(e) % 2:
        I.throw(ValueError, "non-hexadecimal number found")
    out = []
    for i in range(0, len(e), 2):
        a = hexval(e[i], "non-hexadecimal number found")
        b = hexval(e[i + 1], "non-hexadecimal number found")
        out.append(add(mulc(a, 16), b))
    return from_elems("b", out)


def to_int(t, base=10):
    if isinstance(t, (str, bytes)):
        try:
            return int(t, base)
        except ValueError:
            I.throw(ValueError, "invalid literal for int()")
    t = norm(I.force(t))
    if isinstance(t, (str, bytes)):
        return to_int(t, base)
    if base == 10 and len(t.segs) == 1 and t.segs[0][0] == "s" and t.segs[0][1].op == "dec":
        return t.segs[0][1].args[0]
    if base in (0, 16) and isinstance(t, Rope) and t.segs and t.segs[0] == ("e", 48) and len(t.segs) > 1 and t.segs[1] in (("e", 120),):
        t = rope(t.kind, t.segs[2:])
        base = 16
    t = mat(t)
    if base == 16 and isinstance(t, Rope) and len(t.segs) == 1 and t.segs[0][0] == "s" and t.segs[0][1].op == "hex":
        b = t.segs[0][1].args[0]
        e = fixed(b)
        if e is not None:
            if not e:
                I.throw(ValueError, "invalid literal for int()")
            r = 0
            for x in e:
                r = add(mulc(r, 256), x)
            return r
    e = fixed(t)
    if e is None:
        if decide(pred("int literal", t, base)):
            return L(atom("int", t, base))
        I.throw(ValueError, "invalid literal for int()")
    if not e:
        I.throw(ValueError, "invalid literal for int()")
    r = 0
    for c in e:
        if isinstance(c, int):
            ch = chr(c)
            if not ch.isalnum() or int(ch, 36) >= base:
                I.throw(ValueError, "invalid literal for int()")
            d = int(ch, 36)
        elif base == 16:
            d = hexval(c, "invalid literal for int()")
        elif c.c == 0 and len(c.t) == 1 and c.t[0][1] == 1 and c.t[0][0].op == "hexc":
            d = c.t[0][0].args[0]
            if not decide(ge(base - 1, d)):
                I.throw(ValueError, "invalid literal for int()")
        else:
            l, h = rng(c, R.facts)
            if not (l is not None and h is not None and l >= 48 and h <= 57):
                if len(e) == 1 or True:
                    if not (decide(ge(c, 48)) and decide(ge(57, c))):
                        I.throw(ValueError, "invalid literal for int()")
            d = sub(c, 48)
        r = add(mulc(r, base), d)
    return r


def padded(v, width, fill=48):
    """Decimal text of v padded to width, or None"""
    l, h = rng(v, R.facts)
    if l is None or h is None or l < 0:
        return None
    if h < 10 ** width and fill == 48 and width <= 20:
        out = []
        for i in range(width):
            d = div(v, 10 ** (width - 1 - i))
            d = d if i == 0 else mod(d, 10)
            out.append(("e", add(48, S(d))))
        return rope("s", out)
    e = decimal_elems(v)
    if e is None:
        return None
    return rope("s", [("e", fill)] * max(0, width - len(e)) + [("e", x) for x in e])


def count(v, p):
    v = mat(v)
    p = I.txt(p)
    if isinstance(v, (bytes, str)) and isinstance(p, (bytes, str)):
        return v.count(p)
    e = elems(p)
    if e is None or len(e) != 1:
        raise Gap("count")
    es = elems(v)
    if es is None:
        if all(g[0] == "s" and seg_excludes(g, e[0]) for g in segs(v)):
            return 0
        n = L(atom("count", v, e[0], lo=0))
        return n
    r = 0
    for x in es:
        c = elem_eq(x, e[0])
        r = add(r, I.num(c) if isinstance(c, Cond) else int(c))
    return r


def split(v, sep=None, maxsplit=-1, right=False):
    v = mat(v)
    if isinstance(v, (bytes, str)) and (sep is None or isinstance(sep, (bytes, str))):
        return list((v.rsplit if right else v.split)(sep, maxsplit))
    if sep is None:
        raise Gap("split on whitespace")
    n = len(elems(I.txt(sep)))
    out = []
    rest = v
    k = 0
    while maxsplit < 0 or k < maxsplit:
        i = find(rest, sep, reverse=right)
        if i == -1:
            break
        if right:
            out.insert(0, slice_(rest, add(i, n), None))
            rest = slice_(rest, None, i)
        else:
            out.append(slice_(rest, None, i))
            rest = slice_(rest, add(i, n), None)
        k += 1
        if k > 20:
            raise Gap("split of data of unknown content")
    return ([rest] + out) if right else (out + [rest])


def partition(v, sep, reverse=False):
    i = find(v, sep, reverse=reverse)
    e = native(kind_of(v), [])
    if i == -1:
        return (e, e, v) if reverse else (v, e, e)
    n = len(elems(I.txt(sep)))
    return (slice_(v, None, i), I.txt(sep), slice_(v, add(i, n), None))
