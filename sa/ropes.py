"""Byte/text side of the abstract domain: concatenations of single elements and slices of named sources."""
from .terms import *
from .terms import _s


class Src:
    """A named immutable sequence: an input, or the result of an (uninterpreted) operation."""
    __slots__ = ("op", "args", "kind", "len", "mask", "h", "n")
    _tab = {}

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_src(self)


def src(kind, op, *args, len=None, mask=None, lo=0, hi=None):
    if op == "in" and PREFIX[0]:
        args = (PREFIX[0] + str(args[0]),) + args[1:]
    key = (kind, op, args, len, mask, lo, hi) if op == "in" else (kind, op, args)
    s = Src._tab.get(key)
    if s is None:
        s = Src()
        s.kind, s.op, s.args, s.mask = kind, op, args, mask
        s.h = hash(key)
        _n[0] += 1
        s.n = _n[0]
        Src._tab[key] = s
        s.len = len if len is not None else L(atom("len", s, lo=lo, hi=hi))
    return s


_n = [0]


def el(s, i):
    """Element i of a source, as an integer"""
    if s.op in ("latin", "unlatin"):
        return el(s.args[0], i)
    a = atom("el", s, i, lo=0, hi=255 if s.kind == "b" or s.mask else 0x10FFFF)
    if s.mask and s.mask != "latin" and a.tag is None:
        a.tag = s.mask  # excluded values
    return L(a)


def latin_src(s):
    """Text with the code points of a byte source"""
    if s.op == "unlatin":
        return s.args[0]
    return src("s", "latin", s, len=s.len, mask=s.mask or "latin")


def unlatin_src(s):
    if s.op == "latin":
        return s.args[0]
    return src("b", "unlatin", s, len=s.len, mask=None if s.mask == "latin" else s.mask)


class Rope:
    """kind 'b' or 's'; segs: ('e', value) | ('s', src, lo, hi)"""
    __slots__ = ("kind", "segs", "h")

    def __init__(self, kind, segs):
        self.kind, self.segs = kind, tuple(segs)
        self.h = hash((kind, self.segs))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Rope) and self.kind == o.kind and self.segs == o.segs

    def __repr__(self):
        return show_rope(self)


def native(kind, vals):
    if kind == "b":
        return bytes(vals)
    return "".join(map(chr, vals))


def rope(kind, segs):
    """Canonical: adjacent slices merged, single source elements stored as slices; native value when constant."""
    out = []
    for g in segs:
        if g[0] == "e":
            v = g[1]
            if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].op == "el":
                s, i = v.t[0][0].args
                if s.kind == kind:
                    g = ("s", s, i, add(i, 1))
                elif kind == "s":
                    g = ("s", latin_src(s), i, add(i, 1))
                elif s.mask:
                    g = ("s", unlatin_src(s), i, add(i, 1))
        if g[0] == "s":
            if g[2] == g[3]:
                continue
            if out and out[-1][0] == "s" and out[-1][1] is g[1] and out[-1][3] == g[2]:
                out[-1] = ("s", g[1], out[-1][2], g[3])
                continue
        out.append(g)
    if all(g[0] == "e" and isinstance(g[1], int) for g in out):
        return native(kind, [g[1] for g in out])
    return Rope(kind, out)


def kind_of(v):
    if isinstance(v, Rope):
        return v.kind
    if isinstance(v, bytes):
        return "b"
    if isinstance(v, str):
        return "s"
    raise Gap(f"not a byte string or text: {v!r}")


def segs(v):
    if isinstance(v, Rope):
        return v.segs
    if isinstance(v, bytes):
        return tuple(("e", x) for x in v)
    if isinstance(v, str):
        return tuple(("e", ord(x)) for x in v)
    raise Gap(f"not a byte string or text: {v!r}")


def is_str(v):
    return isinstance(v, (str, bytes, Rope))


def whole(s):
    return rope(s.kind, [("s", s, 0, s.len)])


def seglen(g):
    return 1 if g[0] == "e" else sub(g[3], g[2])


def rlen(v):
    if isinstance(v, (bytes, str)):
        return len(v)
    n = 0
    for g in v.segs:
        n = add(n, seglen(g))
    return n


def cat(*vs):
    k = kind_of(vs[0])
    out = []
    for v in vs:
        if kind_of(v) != k:
            raise Gap("mixed concatenation")
        out.extend(segs(v))
    return rope(k, out)


def finite_elems(v):
    """List of element values when the length is a (small) constant, else None."""
    n = rlen(v)
    if not isinstance(n, int) or n > 4096:
        return None
    out = []
    for g in segs(v):
        if g[0] == "e":
            out.append(g[1])
        else:
            k = seglen(g)
            if not isinstance(k, int):
                return None
            for i in range(k):
                out.append(el(g[1], add(g[2], i)))
    return out


def split_at(v, n, decide):
    """(prefix of length n, rest), assuming 0 <= n <= len(v). decide(cond) -> bool may fork the trace."""
    pre = []
    gs = list(segs(v))
    k = kind_of(v)
    i = 0
    while i < len(gs):
        if isinstance(n, int) and n == 0:
            break
        g = gs[i]
        l = seglen(g)
        if l == n:
            pre.append(g)
            i += 1
            n = 0
            break
        c = ge(n, l)
        if decide(c):
            pre.append(g)
            n = sub(n, l)
            i += 1
            continue
        if g[0] == "e":
            # 0 <= n < 1
            n = 0
            break
        m = add(g[2], n)
        pre.append(("s", g[1], g[2], m))
        gs[i] = ("s", g[1], m, g[3])
        n = 0
        break
    else:
        # everything consumed; n must be 0 here
        pass
    return rope(k, pre), rope(k, gs[i:])


def elem_at(v, i, decide):
    """Element i, assuming 0 <= i < len(v)"""
    for g in segs(v):
        l = seglen(g)
        if isinstance(i, int) and isinstance(l, int):
            if i < l:
                return g[1] if g[0] == "e" else el(g[1], add(g[2], i))
            i -= l
            continue
        d = sub(i, l)
        if isinstance(d, int):
            inside = d < 0
        else:
            inside = not decide(ge(i, l))
        if inside:
            if g[0] == "e":
                return g[1]
            return el(g[1], add(g[2], i))
        i = d
    raise Gap("element beyond the end")


# ---------------------------------------------------------------- byte homomorphisms

def hom(table, v):
    """Apply a byte -> bytes table element-wise"""
    k = kind_of(v)
    if all(table[i] == (i,) for i in range(256)):
        return v
    out = []
    for g in segs(v):
        if g[0] == "e":
            x = g[1]
            if isinstance(x, int):
                out.extend(("e", y) for y in (table[x] if x < 256 else (x,)))
                continue
            img = {table[i] for i in range(256)}
            dep = byte_dep(x)
            vals = None
            if dep is not None:
                vals = {ev(x, {dep: i}) for i in range(dep.lo, dep.hi + 1)}
            elif isinstance(x, Lin):
                l, h = rng(x)
                if l is not None and h is not None and h - l < 256:
                    vals = set(range(l, h + 1))
            if vals is not None and all(table[i] == (i,) for i in vals if i < 256):
                out.append(g)
                continue
            one = src(k, "one", x, len=1)
            out.append(("s",) + _hom_src(k, table, one, 0, 1))
        else:
            s, lo, hi = g[1:]
            if s.mask and s.mask != "latin" and all(table[i] == (i,) for i in range(256) if not s.mask >> i & 1):
                out.append(g)
                continue
            if s.op == "hom" and lo == 0 and hi == s.len:
                t2 = s.args[0]
                tc = tuple(tuple(z for y in t2[i] for z in table[y]) for i in range(256))
                s2, l2, h2 = s.args[1:]
                if all(tc[i] == (i,) for i in range(256)):
                    out.append(("s", s2, l2, h2))
                else:
                    out.append(("s",) + _hom_src(k, tc, s2, l2, h2))
            else:
                out.append(("s",) + _hom_src(k, table, s, lo, hi))
    return rope(k, out)


def _hom_src(k, table, s, lo, hi):
    lens = {len(t) for t in table}
    n = sub(hi, lo)
    mask = 0
    img = {y for t in table for y in t}
    for i in range(256):
        if i not in img:
            mask |= 1 << i
    if len(lens) == 1:
        h = src(k, "hom", table, s, lo, hi, len=mulc(n, lens.pop()), mask=mask or None)
    else:
        h = src(k, "hom", table, s, lo, hi, mask=mask or None)
    return h, 0, h.len


IDENT = tuple((i,) for i in range(256))


def replace_table(a, b):
    t = list(IDENT)
    t[a] = tuple(b)
    return tuple(t)


# ---------------------------------------------------------------- printing

def show_src(s):
    if s.op == "in":
        return str(s.args[0])
    if s.op == "hom":
        t = s.args[0]
        ch = "".join(f" {i:02x}->{bytes(x).hex() if all(y < 256 for y in x) else x}" for i, x in enumerate(t) if x != (i,))
        return f"map[{ch.strip()[:80]}]({show_seg(('s',) + s.args[1:])})"
    return f"{s.op}({', '.join(_s(a) for a in s.args)})"


def show_seg(g):
    if g[0] == "e":
        return show(g[1])
    s, lo, hi = g[1:]
    if lo == 0 and hi == s.len:
        return str(s)
    d = sub(hi, lo)
    if d == 1:
        return f"{s}[{show(lo)}]"
    return f"{s}[{show(lo)}:{show(hi)}]"


def show_rope(v):
    if isinstance(v, (str, bytes)):
        return repr(v)
    parts = []
    run = []
    for g in v.segs:
        if g[0] == "e" and isinstance(g[1], int):
            run.append(g[1])
            continue
        if run:
            parts.append(repr(native(v.kind, run)))
            run = []
        parts.append(show_seg(g))
    if run:
        parts.append(repr(native(v.kind, run)))
    return "<" + " ".join(parts) + ">"
