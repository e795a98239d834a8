"""Integer side of the abstract domain.

An abstract integer is a Python int or a ``Lin`` (constant + sum of coefficient * atom).  Atoms are
named quantities of the analysed program (a byte of an input, the length of an input, an argument, a
bit field, a remainder, a fold over a byte sequence ...).  Bit-level values are kept as XOR/AND normal
forms (sets of monomials over input bits), which makes equal boolean functions equal objects.

Nothing here executes code of the analysed program and no solver is involved: all questions are answered
by normalisation, interval arithmetic, and exhaustive look-up over single byte-sized quantities.
"""
import hashlib
from math import gcd


class Gap(Exception):
    """The analysis cannot decide something (reported as an error of the check, never as a verdict)."""


_serial = [0]


class Atom:
    __slots__ = ("op", "args", "lo", "hi", "n", "h", "tag")
    _tab = {}

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.n < o.n


PREFIX = [""]       # put before the names of inputs while an earlier call is followed


def atom(op, *args, lo=None, hi=None):
    if op == "in" and PREFIX[0]:
        args = (PREFIX[0] + str(args[0]),) + args[1:]
    key = (op, args)
    a = Atom._tab.get(key)
    if a is None:
        a = Atom()
        a.op, a.args, a.lo, a.hi = op, args, lo, hi
        _serial[0] += 1
        a.n = _serial[0]
        a.h = hash(key)
        a.tag = None
        Atom._tab[key] = a
    return a


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c, self.t = c, t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        return show(self)


def terms(v):
    return v.t if isinstance(v, Lin) else ()


def const(v):
    return v.c if isinstance(v, Lin) else v


def L(a):
    """Atom -> value"""
    return Lin(0, ((a, 1),))


def mk(c, d, bits=True):
    """Canonical value from a constant and a dict atom -> coefficient."""
    d = {a: k for a, k in d.items() if k}
    if not d:
        return c
    if len(d) > 1:
        changed = True
        while changed:
            changed = False
            for a, k in list(d.items()):
                if a.op == "bf":
                    base, lo, n = a.args
                    if n is None:
                        continue
                    for b, kb in list(d.items()):
                        if b.op == "bf" and b.args[0] == base and b.args[1] == lo + n and kb == k << n:
                            m = b.args[2]
                            v = bf(base, lo, None if m is None else n + m)
                            del d[a], d[b]
                            c = _acc(c, d, v, k)
                            changed = True
                            break
                    if not changed:
                        # low field next to the shifted rest given as base itself
                        pass
                elif a.op == "mod":
                    x, m = a.args
                    q = div(x, m)
                    t = terms(q)
                    if len(t) == 1 and const(q) == 0 and t[0][1] == 1 and d.get(t[0][0]) == k * m:
                        del d[a], d[t[0][0]]
                        c = _acc(c, d, x, k)
                        changed = True
                if changed:
                    break
        d = {a: k for a, k in d.items() if k}
        if not d:
            return c
    if bits and (len(d) > 1 or c or next(iter(d.values())) != 1) and any(a.op == "bv" for a in d):
        v = Lin(c, tuple(sorted(d.items(), key=lambda x: x[0].n)))
        bs = _disjoint_bits(v)
        if bs is not None:
            return from_bits(bs)
    return Lin(c, tuple(sorted(d.items(), key=lambda x: x[0].n)))


def _acc(c, d, v, k):
    if isinstance(v, int):
        return c + k * v
    c += k * v.c
    for a, ka in v.t:
        d[a] = d.get(a, 0) + k * ka
    return c


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int):
        return _shift(b, a)
    if isinstance(b, int):
        return _shift(a, b)
    d = dict(a.t)
    c = _acc(a.c, d, b, 1)
    return mk(c, d)


def _shift(v, k):
    if k == 0:
        return v
    if any(a.op == "bv" for a, _ in v.t):
        return mk(v.c + k, dict(v.t))
    return Lin(v.c + k, v.t)


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return mk(a.c * k, {x: y * k for x, y in a.t})


def sub(a, b):
    return add(a, mulc(b, -1))


def mul(a, b):
    if isinstance(a, int):
        return mulc(b, a)
    if isinstance(b, int):
        return mulc(a, b)
    x, y = sorted((a, b), key=lambda v: show(v))
    (xl, xh), (yl, yh) = rng(x), rng(y)
    lo = hi = None
    if xl is not None and yl is not None and xl >= 0 and yl >= 0:
        lo = xl * yl
        if xh is not None and yh is not None:
            hi = xh * yh
    return L(atom("mul", x, y, lo=lo, hi=hi))


# ---------------------------------------------------------------- ranges

def atom_rng(a, F=None):
    lo, hi = a.lo, a.hi
    if F is not None:
        lo, hi = F.atom_range(a, lo, hi)
    if F is not None and a.op in ("bf", "mod", "div", "min", "max"):
        l2, h2 = _derived_rng(a, F)
        if l2 is not None and (lo is None or l2 > lo):
            lo = l2
        if h2 is not None and (hi is None or h2 < hi):
            hi = h2
    return lo, hi


def _derived_rng(a, F):
    if a.op == "bf":
        base, l, n = a.args
        bl, bh = rng(base, F)
        if bl is not None and bh is not None and bl >= 0:
            if n is None or (bl >> l) >> n == (bh >> l) >> n:
                m = (1 << n) - 1 if n is not None else -1
                return (bl >> l) & m if n is not None else bl >> l, (bh >> l) & m if n is not None else bh >> l
    elif a.op == "div":
        bl, bh = rng(a.args[0], F)
        m = a.args[1]
        return (None if bl is None else bl // m, None if bh is None else bh // m)
    elif a.op == "mod":
        bl, bh = rng(a.args[0], F)
        m = a.args[1]
        if bl is not None and bh is not None and bl // m == bh // m:
            return bl % m, bh % m
    elif a.op == "min":
        r = [rng(x, F) for x in a.args]
        his = [h for _, h in r if h is not None]
        los = [l for l, _ in r]
        return (min(los) if None not in los else None, min(his) if his else None)
    elif a.op == "max":
        r = [rng(x, F) for x in a.args]
        his = [h for _, h in r]
        los = [l for l, _ in r if l is not None]
        return (max(los) if los else None, max(his) if None not in his else None)
    return None, None


def rng(v, F=None):
    if isinstance(v, int):
        return int(v), int(v)
    lo = hi = v.c
    for a, k in v.t:
        l, h = atom_rng(a, F)
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    if F is not None:
        g, s, key = lin_key(v)
        st = F.iv.get(key)
        if st is not None:
            l, h = st
            m = g * s
            if m < 0:
                l, h = h, l
            l = None if l is None else l * m + v.c
            h = None if h is None else h * m + v.c
            if l is not None and (lo is None or l > lo):
                lo = l
            if h is not None and (hi is None or h < hi):
                hi = h
    return lo, hi


def lin_key(v):
    """v = c + g*s*K with K primitive and first coefficient positive; returns g, s, key of K."""
    g = 0
    for _, k in v.t:
        g = gcd(g, abs(k))
    s = 1 if v.t[0][1] > 0 else -1
    return g, s, tuple((a, k * s // g) for a, k in v.t)


# ---------------------------------------------------------------- bit fields, mod, div

def is_pow2(m):
    return m > 0 and m & (m - 1) == 0


def bf(v, lo, n):
    """(v >> lo) mod 2**n   (n None: no upper limit)"""
    if isinstance(v, int):
        r = v >> lo
        return r if n is None else r & ((1 << n) - 1)
    if n == 0:
        return 0
    # nested field
    if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        a = v.t[0][0]
        if a.op == "bf":
            base, l, m = a.args
            if m is not None and lo >= m:
                return 0
            nn = n
            if m is not None:
                nn = m - lo if n is None else min(n, m - lo)
            return bf(base, l + lo, nn)
        if a.op == "bv":
            bs = a.args[0][lo:] if n is None else a.args[0][lo:lo + n]
            return from_bits(list(bs))
    # common factor of two
    g = v.c
    for _, k in v.t:
        g |= k
    j = (g & -g).bit_length() - 1
    if j:
        y = Lin(v.c >> j, tuple((a, k >> j) for a, k in v.t))
        if lo >= j:
            return bf(y, lo - j, n)
        if n is None:
            return mulc(y, 1 << (j - lo))
        return mulc(bf(y, 0, max(n - (j - lo), 0)), 1 << (j - lo))
    # drop what lies above
    if n is not None:
        mod = 1 << (lo + n)
        d = {a: k for a, k in v.t if k % mod}
        c = v.c % mod
        # remainders of a coarser modulus can be replaced by their argument
        ch = False
        for a, k in list(d.items()):
            if a.op == "bf" and a.args[1] == 0 and a.args[2] is not None and (k << a.args[2]) % mod == 0:
                if len(d) > 1 or c or k != 1:
                    del d[a]
                    c = _acc(c, d, a.args[0], k)
                    ch = True
            elif a.op == "bf" and a.args[1] == 0 and a.args[2] is not None and k % mod == 0:
                pass
        if ch or len(d) != len(v.t) or c != v.c:
            d = {a: k for a, k in d.items() if k % mod}
            # keep coefficients in a canonical residue range
            d = {a: (k % mod if k % mod <= mod // 2 else k % mod - mod) for a, k in d.items()}
            nv = mk(c % mod, d)
            if nv != v:
                return bf(nv, lo, n)
    # split off aligned part
    if lo:
        m = 1 << lo
        hi_d = {a: k for a, k in v.t if k % m == 0}
        lo_d = {a: k for a, k in v.t if k % m}
        chi, clo = v.c - v.c % m, v.c % m
        if hi_d or chi:
            rest = mk(clo, lo_d)
            l, h = rng(rest)
            if l is not None and h is not None and l >= 0 and h < m:
                return bf(mk(chi // m, {a: k // m for a, k in hi_d.items()}), 0, n)
        elif not hi_d:
            l, h = rng(v)
            if l is not None and h is not None and l >= 0 and h < m:
                return 0
    else:
        if n is None:
            return v
        l, h = rng(v)
        if l is not None and h is not None and l >> n == h >> n:
            return sub(v, l >> n << n)
    if len(v.t) > 1 or v.c:
        bs = _disjoint_bits(v)
        if bs is not None:
            return from_bits(bs[lo:] if n is None else bs[lo:lo + n])
    l, h = rng(v)
    if n is not None and l is not None and l >= 0 and h is not None:
        w = h.bit_length()
        if lo >= w:
            return 0
        if lo + n > w:
            n = None
    elif n is None and l is not None and l >= 0 and h is not None and lo >= h.bit_length():
        return 0
    if n is None:
        w = None
        if h is not None and l is not None and l >= 0:
            w = h.bit_length() - lo
            return L(atom("bf", v, lo, w, lo=0, hi=h >> lo))
        return L(atom("bf", v, lo, None, lo=None if l is None else l >> lo, hi=None if h is None else h >> lo))
    hh = (1 << n) - 1
    return L(atom("bf", v, lo, n, lo=0, hi=hh))


def mod(v, m):
    if isinstance(v, int):
        return v % m
    if m <= 0:
        raise Gap("mod by non-positive")
    if is_pow2(m):
        return bf(v, 0, m.bit_length() - 1)
    d = {a: k for a, k in v.t if k % m}
    c = v.c % m
    for a, k in list(d.items()):
        if a.op == "mod" and (a.args[1] * k) % m == 0 and (len(d) > 1 or c or k != 1):
            del d[a]
            c = _acc(c, d, a.args[0], k)
    d = {a: (k % m if k % m <= m // 2 else k % m - m) for a, k in d.items() if k % m}
    v = mk(c % m, d)
    if isinstance(v, int):
        return v % m
    l, h = rng(v)
    if l is not None and h is not None and l >= 0 and h < m:
        return v
    if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].op == "mod" and v.t[0][0].args[1] == m:
        return v
    return L(atom("mod", v, m, lo=0, hi=m - 1))


def div(v, m):
    if isinstance(v, int):
        return v // m
    if m <= 0:
        raise Gap("div by non-positive")
    if m == 1:
        return v
    if is_pow2(m):
        return bf(v, m.bit_length() - 1, None)
    hi_d = {a: k for a, k in v.t if k % m == 0}
    lo_d = {a: k for a, k in v.t if k % m}
    chi, clo = v.c - v.c % m, v.c % m
    rest = mk(clo, lo_d)
    l, h = rng(rest)
    top = mk(chi // m, {a: k // m for a, k in hi_d.items()})
    if l is not None and h is not None and l >= 0 and h < m:
        return top
    if hi_d or chi:
        return add(top, div(rest, m))
    return L(atom("div", v, m, lo=None if l is None else l // m, hi=None if h is None else h // m))


# ---------------------------------------------------------------- bits as XOR/AND normal forms

ZERO = frozenset()
ONE = frozenset([frozenset()])
MONO_LIMIT = 4096


def bxor(a, b):
    return a ^ b


def band(a, b):
    if not a or not b:
        return ZERO
    if a == ONE:
        return b
    if b == ONE:
        return a
    if len(a) * len(b) > MONO_LIMIT:
        raise Gap("boolean function too large")
    out = set()
    for x in a:
        for y in b:
            m = x | y
            if m in out:
                out.discard(m)
            else:
                out.add(m)
    return frozenset(out)


def bnot(a):
    return a ^ ONE


def bitvar(base, i):
    return frozenset([frozenset([(base, i)])])


def atom_bits(a):
    if a.op == "bv":
        return list(a.args[0])
    if a.op == "bf":
        base, lo, n = a.args
        if n is None:
            return None
        b = _as_base(base)
        return [bitvar(b, lo + i) for i in range(n)]
    if a.lo is not None and a.hi is not None and a.lo >= 0:
        return [bitvar(a, i) for i in range(max(1, a.hi.bit_length()))]
    return None


def _as_base(v):
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        return v.t[0][0]
    return v


def _disjoint_bits(v):
    """Bits of v when its terms occupy disjoint bit positions, else None."""
    if isinstance(v, int):
        return int_bits(v) if v >= 0 else None
    if v.c < 0:
        return None
    res = {}
    for i, b in enumerate(int_bits(v.c)):
        if b:
            res[i] = b
    for a, k in v.t:
        if k <= 0 or k & (k - 1):
            return None
        bs = atom_bits(a)
        if bs is None:
            return None
        s = k.bit_length() - 1
        for i, b in enumerate(bs):
            if not b:
                continue
            if i + s in res:
                return None
            res[i + s] = b
    if not res:
        return []
    return [res.get(i, ZERO) for i in range(max(res) + 1)]


def int_bits(v):
    return [ONE if v >> i & 1 else ZERO for i in range(v.bit_length())]


def to_bits(v, F=None):
    bs = _disjoint_bits(v)
    if bs is not None:
        return bs
    if isinstance(v, int):
        return None
    l, h = rng(v, F)
    if l is None or h is None or l < 0:
        return None
    return [bitvar(v, i) for i in range(h.bit_length())]


def _single(b):
    if len(b) == 1:
        (m,) = b
        if len(m) == 1:
            (x,) = m
            return x
    return None


def from_bits(bits):
    bits = list(bits)
    while bits and not bits[-1]:
        bits.pop()
    if all(b == ZERO or b == ONE for b in bits):
        return sum(1 << i for i, b in enumerate(bits) if b)
    if all(b == ZERO or b == ONE or _single(b) for b in bits):
        c = sum(1 << i for i, b in enumerate(bits) if b == ONE)
        d = {}
        i = 0
        while i < len(bits):
            s = _single(bits[i]) if bits[i] not in (ZERO, ONE) else None
            if s is None:
                i += 1
                continue
            base, b0 = s
            n = 1
            while i + n < len(bits) and bits[i + n] not in (ZERO, ONE) and _single(bits[i + n]) == (base, b0 + n):
                n += 1
            val = L(base) if isinstance(base, Atom) else base
            c = _acc(c, d, bf(val, b0, n), 1 << i)
            i += n
        return mk(c, d, bits=False)
    return L(atom("bv", tuple(bits), lo=0, hi=(1 << len(bits)) - 1))


def bitop(a, b, op, F=None):
    if isinstance(a, int) and isinstance(b, int):
        return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
    if op == "and":
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and y >= 0:
                bs = to_bits(x, F)
                if bs is None:
                    out, p = 0, 0
                    while y >> p:
                        if y >> p & 1:
                            n = 1
                            while y >> (p + n) & 1:
                                n += 1
                            out = add(out, mulc(bf(x, p, n), 1 << p))
                            p += n
                        else:
                            p += 1
                    return out
                return from_bits([bs[i] if y >> i & 1 else ZERO for i in range(min(len(bs), y.bit_length()))])
    A, B = to_bits(a, F), to_bits(b, F)
    if A is None or B is None:
        x, y = sorted((a, b), key=show)
        return L(atom("bit" + op, x, y))
    n = max(len(A), len(B))
    A = A + [ZERO] * (n - len(A))
    B = B + [ZERO] * (n - len(B))
    if op == "and":
        return from_bits([band(x, y) for x, y in zip(A, B)])
    if op == "xor":
        return from_bits([bxor(x, y) for x, y in zip(A, B)])
    return from_bits([bxor(bxor(x, y), band(x, y)) for x, y in zip(A, B)])


# ---------------------------------------------------------------- evaluation over single byte-sized quantities

def bases(v, out=None):
    """Underlying quantities an abstract integer depends on."""
    if out is None:
        out = set()
    if isinstance(v, int):
        return out
    if isinstance(v, Lin):
        for a, _ in v.t:
            bases(a, out)
        return out
    a = v
    if a.op in ("bf", "mod", "div"):
        bases(a.args[0], out)
    elif a.op == "tab":
        bases(a.args[1], out)
    elif a.op == "hexc":
        bases(a.args[0], out)
    elif a.op == "bv":
        for b in a.args[0]:
            for m in b:
                for base, _ in m:
                    bases(base, out)
    elif a.op in ("mul", "bitand", "bitor", "bitxor", "min", "max"):
        for x in a.args:
            bases(x, out)
    else:
        out.add(a)
    return out


def ev(v, env):
    if isinstance(v, int):
        return v
    if isinstance(v, Lin):
        return v.c + sum(k * ev(a, env) for a, k in v.t)
    a = v
    if a in env:
        return env[a]
    if a.op == "bf":
        base, lo, n = a.args
        r = ev(base, env) >> lo
        return r if n is None else r & ((1 << n) - 1)
    if a.op == "mod":
        return ev(a.args[0], env) % a.args[1]
    if a.op == "div":
        return ev(a.args[0], env) // a.args[1]
    if a.op == "tab":
        return a.args[0][ev(a.args[1], env)]
    if a.op == "hexc":
        return ord("0123456789abcdef"[ev(a.args[0], env)])
    if a.op == "bv":
        r = 0
        for i, b in enumerate(a.args[0]):
            x = 0
            for m in b:
                y = 1
                for base, j in m:
                    y &= ev(base, env) >> j & 1
                x ^= y
            r |= x << i
        return r
    if a.op == "mul":
        return ev(a.args[0], env) * ev(a.args[1], env)
    if a.op == "bitand":
        return ev(a.args[0], env) & ev(a.args[1], env)
    if a.op == "bitor":
        return ev(a.args[0], env) | ev(a.args[1], env)
    if a.op == "bitxor":
        return ev(a.args[0], env) ^ ev(a.args[1], env)
    if a.op == "min":
        return min(ev(x, env) for x in a.args)
    if a.op == "max":
        return max(ev(x, env) for x in a.args)
    raise KeyError(a)


def is_bytelike(a):
    return a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi <= 4095 and a.hi - a.lo <= 255


def byte_dep(v):
    if isinstance(v, int):
        return None
    b = bases(v)
    if len(b) == 1:
        (a,) = b
        if is_bytelike(a):
            return a
    return None


_full = {}


def full_mask(a):
    m = _full.get(a)
    if m is None:
        m = ((1 << (a.hi - a.lo + 1)) - 1) << a.lo
        ex = a.tag
        if ex:
            m &= ~ex
        _full[a] = m
    return m


# ---------------------------------------------------------------- conditions

class Cond:
    """Symbolic truth value. kinds: eq lin | ge lin | mask atom set | pred name args | not c | and cs"""
    __slots__ = ("k", "h")

    def __init__(self, *k):
        self.k = k
        self.h = hash(k)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.k == o.k

    def __repr__(self):
        return show_cond(self)


def pred(name, *args):
    return Cond("pred", name, *args)


def c_not(c):
    if c is True or c is False:
        return not c
    if c.k[0] == "not":
        return c.k[1]
    if c.k[0] == "mask":
        _, a, m = c.k
        return mask_cond(a, full_mask(a) & ~m)
    if c.k[0] == "ge":
        return ge0(sub(-1, c.k[1]))
    return Cond("not", c)


def mask_cond(a, m):
    f = full_mask(a)
    m &= f
    if m == 0:
        return False
    if m == f:
        return True
    return Cond("mask", a, m)


def c_and(cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if isinstance(c, Cond) and c.k[0] == "and":
            out.extend(c.k[1])
        else:
            out.append(c)
    if not out:
        return True
    if len(out) > 1:
        masks, rest = {}, []
        for c in out:
            if isinstance(c, Cond) and c.k[0] == "mask":
                masks[c.k[1]] = masks.get(c.k[1], -1) & c.k[2]
            else:
                rest.append(c)
        for a, m in masks.items():
            c = mask_cond(a, m)
            if c is False:
                return False
            if c is not True:
                rest.append(c)
        out = rest
        if not out:
            return True
    if len(out) > 1:
        out = sorted(set(out), key=str)
    if len(out) == 1:
        return out[0]
    return Cond("and", tuple(out))


def c_or(cs):
    return c_not(c_and([c_not(c) for c in cs]))


_vals = {}


def _by_mask(v, test):
    a = byte_dep(v)
    if a is None:
        return None
    m = 0
    f = full_mask(a)
    if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][0] is a:
        k, c = v.t[0][1], v.c
        vals = range(k * a.lo + c, k * a.hi + c + (1 if k > 0 else -1), k)
    else:
        vals = _vals.get(v)
        if vals is None:
            if len(_vals) > 20000:
                _vals.clear()
            vals = _vals[v] = [ev(v, {a: x}) if f >> x & 1 else None for x in range(a.lo, a.hi + 1)]
    b = 1 << a.lo
    for y in vals:
        if y is not None and f & b and test(y):
            m |= b
        b <<= 1
    return mask_cond(a, m)


def eq0(v):
    if isinstance(v, int):
        return v == 0
    if len(v.t) == 1:
        a, k = v.t[0]
        if byte_dep(v) is a:
            x, r = divmod(-v.c, k)
            return mask_cond(a, full_mask(a) & (1 << x) if r == 0 and x >= 0 else 0)
    l, h = rng(v)
    if (l is not None and l > 0) or (h is not None and h < 0):
        return False
    c = _by_mask(v, lambda x: x == 0)
    if c is not None:
        return c
    g, s, key = lin_key(v)
    if v.c % g:
        return False
    if v.c == 0 and len(v.t) >= 3:
        # digits of different weight are zero separately
        ks = sorted({abs(k) for _, k in v.t})
        for cut in ks[1:]:
            G = 0
            for _, k in v.t:
                if abs(k) >= cut:
                    G = gcd(G, k)
            if G <= ks[0]:
                continue
            low = mk(0, {a: k for a, k in v.t if abs(k) < cut})
            l, h = rng(low)
            if l is not None and h is not None and -G < l and h < G:
                return c_and([eq0(low), eq0(mk(0, {a: k for a, k in v.t if abs(k) >= cut}))])
    # bits: a conjunction of zero bits when it is a pure bit value
    return Cond("eq", Lin(v.c // g * s, key))


def eq(a, b):
    return eq0(sub(a, b))


def ge0(v):
    if isinstance(v, int):
        return v >= 0
    l, h = rng(v)
    if l is not None and l >= 0:
        return True
    if h is not None and h < 0:
        return False
    c = _by_mask(v, lambda x: x >= 0)
    if c is not None:
        return c
    g, s, key = lin_key(v)
    # g*s*K + c >= 0
    if s > 0:
        return Cond("ge", Lin(v.c // g, key))
    return Cond("ge", Lin(v.c // g, tuple((a, -k) for a, k in key)))


def ge(a, b):
    return ge0(sub(a, b))


# ---------------------------------------------------------------- facts of one trace

class Facts:
    __slots__ = ("masks", "iv", "ne", "preds", "log", "eqs", "links")

    def __init__(self):
        self.masks, self.iv, self.ne, self.preds, self.log = {}, {}, {}, {}, []
        self.eqs = []
        self.links = ()

    def copy(self):
        f = Facts()
        f.masks, f.iv, f.ne = dict(self.masks), dict(self.iv), dict(self.ne)
        f.preds, f.log = dict(self.preds), list(self.log)
        f.eqs = list(self.eqs)
        f.links = self.links
        return f

    def mask(self, a):
        return self.masks.get(a, full_mask(a))

    def atom_range(self, a, lo, hi):
        st = self.iv.get(((a, 1),))
        if st is not None:
            if st[0] is not None and (lo is None or st[0] > lo):
                lo = st[0]
            if st[1] is not None and (hi is None or st[1] < hi):
                hi = st[1]
        m = self.masks.get(a)
        if m:
            l = (m & -m).bit_length() - 1
            h = m.bit_length() - 1
            lo = l if lo is None or l > lo else lo
            hi = h if hi is None or h < hi else hi
        return lo, hi

    def decide(self, c):
        if c is True or c is False:
            return c
        k = c.k[0]
        if k == "not":
            r = self.decide(c.k[1])
            return None if r is None else not r
        if k == "and":
            rs = [self.decide(x) for x in c.k[1]]
            if False in rs:
                return False
            if all(r is True for r in rs):
                return True
            return self.preds.get(c)
        if k == "mask":
            _, a, m = c.k
            cur = self.mask(a)
            if not cur & ~m:
                return True
            if not cur & m:
                return False
            return None
        if k in ("eq", "ge"):
            v = c.k[1]
            l, h = rng(v, self)
            if k == "ge":
                if l is not None and l >= 0:
                    return True
                if h is not None and h < 0:
                    return False
            else:
                if (l is not None and l > 0) or (h is not None and h < 0):
                    return False
                if l == 0 and h == 0:
                    return True
                g, s, key = lin_key(v)
                if g == 1 and -v.c * s in self.ne.get(key, ()):
                    return False
            r = self.preds.get(c)
            if r is not None:
                return r
            r = self._by_bytes(v, k)
            if r is not None:
                return r
            v2 = simp(v, self)
            if v2 != v:
                return self.decide(eq0(v2) if k == "eq" else ge0(v2))
            v3 = self.subst(v)
            if v3 != v:
                v3 = simp(v3, self)
                c2 = eq0(v3) if k == "eq" else ge0(v3)
                if c2 != c:
                    return self.decide(c2)
            return self.by_links(v, k)
        return self.preds.get(c)

    def by_links(self, v, k):
        """Eliminate one byte with a recorded equality and enumerate what is left"""
        if isinstance(v, int):
            return None
        v = simp(v, self)
        if isinstance(v, int):
            return v == 0 if k == "eq" else v >= 0
        d = dict(v.t)
        for e in self.links:
            if not any(a in d and is_bytelike(a) for a, _ in e.t):
                continue
            e = simp(e, self)
            for a, kk in () if isinstance(e, int) else e.t:
                if kk in (1, -1) and a in d and is_bytelike(a):
                    w = simp(sub(v, mulc(e, kk * d[a])), self)
                    l, h = rng(w, self)
                    if k == "ge" and l is not None and l >= 0 or k == "eq" and l == 0 == h:
                        return True
                    if h is not None and h < 0 or k == "eq" and l is not None and l > 0:
                        return False
                    if not isinstance(w, int) and len(bases(w)) <= 1:
                        r = self._by_bytes(w, k)
                        if r is not None:
                            return r
        return None

    def subst(self, v):
        """Use recorded equalities with a plain unit-coefficient quantity to eliminate it."""
        if isinstance(v, int) or not self.eqs:
            return v
        for a, e in self.eqs:
            for x, k in terms(v):
                if x is a:
                    v = add(sub(v, mulc(L(a), k)), mulc(e, k))
                    break
            if isinstance(v, int):
                return v
        return v

    def _by_bytes(self, v, k):
        bs = bases(v)
        tot = 1
        doms = []
        for a in bs:
            if not is_bytelike(a):
                l, h = atom_rng(a, self)
                if l is None or h is None or h - l > 255 or a in [x for x, _ in v.t]:
                    return None
                tot *= h - l + 1
                if tot > 4096:
                    return None
                doms.append((a, range(l, h + 1)))
                continue
            m = self.mask(a)
            n = bin(m).count("1")
            tot *= n
            if tot > 4096:
                return None
            doms.append((a, [x for x in range(a.lo, a.hi + 1) if m >> x & 1]))
        res = set()

        def rec(i, env):
            if len(res) == 2:
                return
            if i == len(doms):
                x = ev(v, env)
                res.add(x == 0 if k == "eq" else x >= 0)
                return
            a, d = doms[i]
            for x in d:
                env[a] = x
                rec(i + 1, env)

        rec(0, {})
        if len(res) == 1:
            return res.pop()
        return None

    def assume(self, c, truth=True):
        """Record; returns False when this contradicts what is known."""
        if c is True or c is False:
            return c == truth
        self.log.append((c, truth))
        return self._assume(c, truth)

    def narrow(self, a):
        """Consequences of a smaller value set"""
        for v in self.links:
            if any(x is a for x, _ in v.t):
                if not self.propagate(v):
                    return False
        return True

    def propagate(self, v):
        """Value sets of the bytes in the equality v == 0"""
        for a, k in v.t:
            if not is_bytelike(a):
                continue
            rest = sub(v, mulc(L(a), k))
            l, h = rng(rest, self)
            g = 0
            for x, kk in terms(rest):
                g = gcd(g, kk)
            m0 = self.mask(a)
            m = 0
            c = rest if isinstance(rest, int) else rest.c
            for x in range(256):
                if not m0 >> x & 1:
                    continue
                y = -k * x
                if (l is not None and y < l) or (h is not None and y > h):
                    continue
                if (y - c) % g if g else y != c:
                    continue
                m |= 1 << x
            if m != m0:
                if not m:
                    return False
                self.masks[a] = m
                if not self.narrow(a):
                    return False
        return True

    def _assume(self, c, truth):
        if c is True or c is False:
            return c == truth
        k = c.k[0]
        if k == "not":
            return self._assume(c.k[1], not truth)
        if k == "and":
            if truth:
                return all([self._assume(x, True) for x in c.k[1]])
            open_ = [x for x in c.k[1] if self.decide(x) is not True]
            if not open_:
                return False
            if len(open_) == 1:
                return self._assume(open_[0], False)
            self.preds[c] = False
            return True
        if k == "mask":
            _, a, m = c.k
            cur = self.mask(a) & (m if truth else ~m)
            self.masks[a] = cur
            return cur != 0 and self.narrow(a)
        if k == "ge":
            v = c.k[1] if truth else sub(-1, c.k[1])
            g, s, key = lin_key(v)
            lo, hi = self.iv.get(key, (None, None))
            if s > 0:  # g*K + c >= 0  -> K >= -c/g
                b = -(v.c // g)
                lo = b if lo is None or b > lo else lo
            else:      # -g*K + c >= 0 -> K <= c/g
                b = v.c // g
                hi = b if hi is None or b < hi else hi
            self.iv[key] = (lo, hi)
            self.preds[c] = truth
            l, h = rng(Lin(0, key), self)
            return l is None or h is None or l <= h
        if k == "eq":
            v = c.k[1]
            g, s, key = lin_key(v)
            self.preds[c] = truth
            if truth:
                x = -v.c * s // g if v.c % g == 0 else None
                if x is None:
                    return False
                lo, hi = self.iv.get(key, (None, None))
                if (lo is not None and x < lo) or (hi is not None and x > hi):
                    return False
                self.iv[key] = (x, x)
                if 2 <= len(v.t) <= 6 and any(is_bytelike(a) for a, _ in v.t):
                    self.links = self.links + (v,)
                    if not self.propagate(v):
                        return False
                for a, kk in sorted(v.t, key=lambda t: -t[0].n):
                    if kk in (1, -1) and a.op in ("len", "var", "h", "u"):
                        rest = mulc(sub(v, mulc(L(a), kk)), -kk)
                        if a not in [x for x, _ in terms(rest)]:
                            self.eqs.append((a, rest))
                            break
                return True
            if g == 1:
                self.ne[key] = self.ne.get(key, frozenset()) | {-v.c * s}
                x = -v.c * s
                lo, hi = rng(Lin(0, key), self)
                l0, h0 = self.iv.get(key, (None, None))
                if lo is not None and lo == x:
                    self.iv[key] = (x + 1, h0 if h0 is None else h0)
                if hi is not None and hi == x:
                    self.iv[key] = (self.iv.get(key, (l0, h0))[0], x - 1)
                lo, hi = rng(Lin(0, key), self)
                return lo is None or hi is None or lo <= hi
            return True
        if k == "pred":
            if c in self.preds:
                return self.preds[c] == truth
            self.preds[c] = truth
            return True
        self.preds[c] = truth
        return True


def simp(v, F):
    """Rewrite v using the facts of a trace (ranges make remainders and fields disappear)."""
    if isinstance(v, int):
        return v
    c, d, ch = v.c, {}, False
    for a, k in v.t:
        r = simp_atom(a, F)
        if r is not None:
            ch = True
            c = _acc(c, d, r, k)
        else:
            d[a] = d.get(a, 0) + k
    return mk(c, d) if ch else v


def pinned(a, F):
    """Value of the remainder atom a when another remainder of a shifted quantity is known exactly"""
    m = a.args[1] if a.op == "mod" else 1 << a.args[2]
    for key in F.iv:
        if len(key) == 1 and key[0][0].op == a.op and key[0][0] is not a:
            b = key[0][0]
            if b.args[1:] != a.args[1:]:
                continue
            d = sub(a.args[0], b.args[0])
            if isinstance(d, int):
                l, h = atom_rng(b, F)
                if l is not None and l == h:
                    return (l + d) % m
            d = add(a.args[0], b.args[0])
            if isinstance(d, int):
                l, h = atom_rng(b, F)
                if l is not None and l == h:
                    return (d - l) % m
    return None


SIMP_HOOKS = {}


def simp_atom(a, F):
    l, h = atom_rng(a, F)
    if l is not None and l == h:
        return l
    if a.op == "mod" or a.op == "bf" and a.args[1] == 0 and a.args[2] is not None:
        x = pinned(a, F)
        if x is not None:
            return x
    if a.op == "bf":
        base, lo, n = a.args
        b2 = simp(base, F)
        l, h = rng(b2, F)
        if l is not None and h is not None and l >= 0:
            if h < 1 << lo:
                return 0
            if lo == 0 and n is None:
                return b2
        if l is not None and h is not None and lo == 0 and n is not None and l >> n == h >> n:
            return sub(b2, l >> n << n)
        if b2 != base:
            return bf(b2, lo, n)
    elif a.op == "mod":
        x, m = a.args
        b2 = simp(x, F)
        l, h = rng(b2, F)
        if l is not None and h is not None and l // m == h // m:
            return sub(b2, l // m * m)
        if b2 != x:
            return mod(b2, m)
    elif a.op == "div":
        x, m = a.args
        b2 = simp(x, F)
        l, h = rng(b2, F)
        if l is not None and h is not None and l // m == h // m:
            return l // m
        if b2 != x:
            return div(b2, m)
    elif a.op in SIMP_HOOKS:
        return SIMP_HOOKS[a.op](a, F)
    elif a.op in ("min", "max"):
        x, y = (simp(z, F) for z in a.args)
        r = F.decide(ge(x, y))
        if r is not None:
            return (y if r else x) if a.op == "min" else (x if r else y)
    elif a.op == "bv":
        # known bits
        bs = []
        ch = False
        for b in a.args[0]:
            nb = ZERO
            for m in b:
                mm, zero = set(), False
                for base, i in m:
                    kv = _known_bit(base, i, F)
                    if kv is None:
                        mm.add((base, i))
                    elif kv == 0:
                        zero = True
                        break
                if zero:
                    ch = True
                    continue
                if len(mm) != len(m):
                    ch = True
                nb = nb ^ frozenset([frozenset(mm)])
            bs.append(nb)
        if ch:
            return from_bits(bs)
    return None


def _known_bit(base, i, F):
    if isinstance(base, Atom) and is_bytelike(base):
        m = F.masks.get(base)
        if m:
            vals = {x >> i & 1 for x in range(base.lo, base.hi + 1) if m >> x & 1}
            if len(vals) == 1:
                return vals.pop()
    return None


# ---------------------------------------------------------------- printing

def show(v):
    if isinstance(v, int):
        return str(v) if abs(v) < 10 else hex(v)
    if isinstance(v, Lin):
        out = []
        for a, k in v.t:
            s = show_atom(a)
            if k == 1:
                out.append("+" + s)
            elif k == -1:
                out.append("-" + s)
            else:
                out.append(f"{k:+d}*{s}")
        if v.c:
            out.append(f"{v.c:+d}")
        r = "".join(out)
        return r[1:] if r[0] == "+" else r
    return str(v)


_DIG = {}


def digest(bits):
    """Name of a tuple of bit functions"""
    r = _DIG.get(bits)
    if r is None:
        t = [sorted(sorted((show_atom(b) if isinstance(b, Atom) else str(b), i) for b, i in m) for m in x) for x in bits]
        r = _DIG[bits] = hashlib.sha256(repr(t).encode()).hexdigest()[:12]
    return r


def show_atom(a):
    op, g = a.op, a.args
    if op == "el":
        return f"{g[0]}[{show(g[1])}]"
    if op in ("var", "u"):
        return str(g[0])
    if op == "h":
        return f"loop:{g[1]}{g[0][2] or '' if isinstance(g[0], tuple) and len(g[0]) == 3 else ''}"
    if op == "len":
        return f"len({g[0]})"
    if op == "bf":
        b = show(g[0])
        n = g[2]
        return f"bits({b},{g[1]},{'..' if n is None else n})"
    if op == "mod":
        return f"({show(g[0])} mod {g[1]})"
    if op == "div":
        return f"({show(g[0])} div {g[1]})"
    if op == "bv":
        return "xorbits#" + digest(g[0])
    if op == "fold":
        return f"fold#{digest(g[0])}({', '.join(str(x) for x in g[1:])})"
    return f"{op}({', '.join(_s(x) for x in g)})"


def _s(x):
    if isinstance(x, (int, Lin)):
        return show(x)
    s = str(x)
    return s if len(s) < 160 else s[:157] + "..."


def show_cond(c):
    if c is True or c is False:
        return str(c)
    k = c.k
    if k[0] == "eq":
        return f"{show(k[1])} == 0"
    if k[0] == "ge":
        return f"{show(k[1])} >= 0"
    if k[0] == "mask":
        vals = [i for i in range(256) if k[2] >> i & 1]
        return f"{show_atom(k[1])} in {_ranges(vals)}"
    if k[0] == "not":
        return f"not ({show_cond(k[1])})"
    if k[0] == "and":
        return " and ".join(show_cond(x) for x in k[1])
    return f"{k[1]}({', '.join(_s(x) for x in k[2:])})"


def _ranges(vals):
    out, i = [], 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        out.append(f"{vals[i]:#x}" if i == j else f"{vals[i]:#x}..{vals[j]:#x}")
        i = j + 1
    return "{" + ",".join(out[:12]) + (",.." if len(out) > 12 else "") + "}"
