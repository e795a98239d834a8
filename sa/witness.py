"""Example inputs for an abstract disagreement.

Two abstract results that the normal forms do not make equal either differ, or the analysis could not see that they
are equal.  This module looks for values of the inputs that satisfy the facts of the trace and makes the two *terms*
differ; only then is a disagreement reported.  Terms are evaluated; the analysed program is not run.
"""
import datetime
import hashlib
import operator
import random
import struct
from .heap import *
from .interp import num
from . import interp as I


UNARY = {}


class Stuck(Exception):
    pass


ERRORS = (Stuck, IndexError, KeyError, ValueError, ArithmeticError, TypeError, RecursionError)


def h(*a):
    return hashlib.sha256(repr(a).encode()).digest()


WORK = [0]
SPACES = frozenset(i for i in range(0x3001) if chr(i).isspace())


class Model:
    def __init__(self, facts, rnd):
        self.F, self.rnd = facts, rnd
        self.a = {}        # atoms
        self.src = {}      # leaf sources -> list of elements
        self.memo = {}
        self.pick = {}     # (src, index) -> mask

    # ---------------------------------------------------- leaves

    def choose_int(self, a):
        """A value that satisfies the facts about this quantity alone"""
        cs = self.unary().get(a)
        x = self.choose_any(a)
        if not cs:
            return x
        for i in range(90):
            self.memo[a] = x
            try:
                if all(self.cond(c) == t for c, t in cs):
                    return x
            except ERRORS:
                return x
            finally:
                self.memo.clear_derived()
                self.memo.pop(a, None)
            x = self.choose_any(a) if i < 20 else (a.lo or 0) + i - 20
        return x

    def unary(self):
        u = UNARY.get(id(self.F))
        if u is None or u[0] is not self.F or u[1] != len(self.F.log):
            d = {}
            for c, t in self.F.log:
                if isinstance(c, Cond) and c.k[0] in ("eq", "ge", "mask"):
                    bs = set(bases(c.k[1] if c.k[0] != "mask" else L(c.k[1])))
                    if len(bs) == 1:
                        b = next(iter(bs))
                        if b.op in ("len", "in", "var"):
                            d.setdefault(b, []).append((c, t))
            UNARY.clear()
            u = UNARY[id(self.F)] = (self.F, len(self.F.log), d)
        return u[2]

    def choose_any(self, a):
        lo, hi = atom_rng(a, self.F)
        r = self.rnd
        if a.op == "len":
            lo = lo or 0
            top = hi if hi is not None else lo + r.choice([0, 1, 2, 3, 5, 9, 17, 33, 40])
            return r.randint(lo, min(top, lo + 60)) if r.random() < .8 else top if top < 400 else r.randint(lo, lo + 60)
        if is_bytelike(a):
            m = self.F.mask(a)
            if m:
                xs = [x for x in range(a.lo, a.hi + 1) if m >> x & 1]
                if xs:
                    return r.choice(xs)
        if lo is None:
            lo = -3 if hi is None else hi - 20
        if hi is None:
            hi = lo + r.choice([1, 5, 60, 300, 70000])
        return r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)])

    def content(self, s):
        c = self.src.get(s)
        if c is not None and s.op not in CIPHER:
            return c
        n = self.ev(s.len)
        if c is not None and len(c) == n:
            return c
        if not 0 <= n <= 70000:
            raise Stuck("length")
        r = self.rnd
        WORK[0] += n
        out = list(r.randbytes(n - 3000)) if n > 3000 and not s.mask else []
        for i in range(n - len(out)):
            if s.mask and s.mask != "latin":
                xs = [x for x in range(256) if not s.mask >> x & 1] or [0]
                out.append(r.choice(xs))
            else:
                if i in (0, n - 1) and r.random() < .3:
                    out.append(r.choice([0, 0x20, 0x0A, 0x30]))
                    continue
                out.append(r.choice([0, 1, 0x0D, 0x1B, 0x20, 0x8D, 0xFF, 0x30, 0x41]) if r.random() < .3 else r.randrange(256))
        self.src[s] = out
        # facts about single elements
        for at, m in self.F.masks.items():
            if at.op == "el" and at.args[0] is s:
                try:
                    i = self.ev(at.args[1])
                except Stuck:
                    continue
                if 0 <= i < n and m:
                    xs = [x for x in range(256) if m >> x & 1]
                    if xs and not m >> out[i] & 1:
                        out[i] = r.choice(xs)
        return out

    def ciphers_ok(self):
        """The contents chosen for cipher terms are those of bijections"""
        seen = []
        for s, c in list(self.src.items()):
            if s.op in CIPHER:
                mode, d = s.op[4:7], s.op[8:]
                k, x, y = self.val(s.args[:2]), self.val(s.args[2]), bytes(c)
                seen.append((mode, k) + ((x, y) if d == "enc" else (y, x)))
        for i, p in enumerate(seen):
            for q in seen[:i]:
                if p[:2] == q[:2] and (p[2] == q[2]) != (p[3] == q[3]):
                    return False
        return True

    # ---------------------------------------------------- evaluation

    def ev(self, v):
        if isinstance(v, bool) or isinstance(v, int):
            return int(v)
        if isinstance(v, Lin):
            return v.c + sum(k * self.atom(a) for a, k in v.t)
        n = num(v)
        if n is not None:
            return self.ev(n)
        raise Stuck(f"number {v!r}")

    def atom(self, a):
        x = self.memo.get(a)
        if x is None:
            x = self.memo[a] = self.atom0(a)
        return x

    def atom0(self, a):
        op, g = a.op, a.args
        if op == "el":
            s = g[0]
            i = self.ev(g[1])
            t = self.text_of(s)
            if not 0 <= i < len(t):
                raise Stuck("element outside")
            return t[i]
        if op == "len" and isinstance(g[0], Src):
            s = g[0]
            if s.op in LEAF and s.op not in CIPHER or s.op not in DERIVED and s.op not in CIPHER:
                return self.choose_int(a)
            return len(self.text_of(s))
        if op == "bf":
            r = self.ev(g[0]) >> g[1]
            return r if g[2] is None else r & ((1 << g[2]) - 1)
        if op == "mod":
            return self.ev(g[0]) % g[1]
        if op == "div":
            return self.ev(g[0]) // g[1]
        if op == "tab":
            return g[0][self.ev(g[1])]
        if op == "hexc":
            return ord("0123456789abcdef"[self.ev(g[0])])
        if op == "bv":
            r = 0
            for i, b in enumerate(g[0]):
                x = 0
                for m in b:
                    y = 1
                    for base, j in m:
                        y &= (self.ev(L(base)) if isinstance(base, Atom) else self.ev(base)) >> j & 1
                    x ^= y
                r |= x << i
            return r
        if op == "mul":
            return self.ev(g[0]) * self.ev(g[1])
        if op == "bitand":
            return self.ev(g[0]) & self.ev(g[1])
        if op == "bitor":
            return self.ev(g[0]) | self.ev(g[1])
        if op == "bitxor":
            return self.ev(g[0]) ^ self.ev(g[1])
        if op == "min":
            return min(self.ev(x) for x in g)
        if op == "max":
            return max(self.ev(x) for x in g)
        if op == "sum":
            t = self.text_of(g[0])
            return sum(t[self.ev(g[1]):self.ev(g[2])])
        if op == "fold":
            key, init, r = g
            st = self.ev(init)
            for e in self.text(r):
                out = 0
                for i, b in enumerate(key):
                    x = 0
                    for m in b:
                        y = 1
                        for base, j in m:
                            y &= (st if base.op == "fs" else e) >> j & 1
                        x ^= y
                    out |= x << i
                st = out
            return st
        if op in ("idx", "ridx") and len(g) == 4 and isinstance(g[0], Src):
            t = self.text_of(g[0])
            lo, hi = self.ev(g[1]), self.ev(g[2])
            rg = range(lo, min(hi, len(t)))
            for i in (rg if op == "idx" else reversed(rg)):
                if t[i] == g[3]:
                    return i - lo
            raise Stuck("no such element")
        if op == "frombytes":
            return int.from_bytes(bytes(self.text(g[0])), g[1], signed=g[2])
        if op == "count":
            return self.text(g[0]).count(self.ev(g[1]))
        if op == "int":
            try:
                return int("".join(map(chr, self.text(g[0]))), g[1])
            except ValueError:
                raise Stuck("int literal")
        if op in ("in", "rand", "var", "sent"):
            return self.choose_int(a)
        if op == "dtfield":
            x = self.val(g[1])
            if isinstance(x, tuple) and x[0] == "datetime" and isinstance(g[0], str) and g[0] in DT.FIELDS:
                return x[1 + DT.FIELDS.index(g[0])]
            raise Stuck("date field")
        if op == "pow":
            x, y = self.ev(g[0]), self.ev(g[1])
            if 0 <= y < 64:
                return x ** y
        raise Stuck("uninterpreted " + op)

    def text_of(self, s):
        """Elements of a source"""
        t = self.memo.get(s)
        if t is None:
            t = self.memo[s] = self.text_of0(s)
        return t

    def text_of0(self, s):
        op, g = s.op, s.args
        if op in ("latin", "unlatin"):
            return self.text_of(g[0])
        if op == "seq":
            return self.text(g[0])
        if op == "one":
            return [self.ev(g[0])]
        if op == "hom":
            t = self.text_of(g[1])[self.ev(g[2]):self.ev(g[3])]
            out = []
            for x in t:
                out.extend(g[0][x] if x < 256 else (x,))
            return out
        if op == "strip":
            ls, rs, v = (SPACES if isinstance(x, frozenset) and "unicode whitespace" in x else x for x in g)
            t = list(self.text(v))
            while t and ls and t[0] in ls:
                t.pop(0)
            while t and rs and t[-1] in rs:
                t.pop()
            return t
        if op == "dec":
            return list(map(ord, str(self.ev(g[0]))))
        if op == "hex":
            return list(map(ord, bytes(self.text(g[0])).hex()))
        if op == "hexnum":
            return list(map(ord, hex(self.ev(g[0]))))
        if op == "repeat":
            return list(self.text(g[0])) * max(0, self.ev(g[1]))
        if op == "phi":
            for cs, v in g[0]:
                if all(self.cond(c) == t for c, t in cs):
                    return self.text(v)
            raise Stuck("no alternative")
        if op == "encode" and g[0] in ("latin-1", "latin1"):
            return self.text_of(g[1]) if isinstance(g[1], Src) else self.text(g[1])
        if op in LEAF:
            return self.content(s)
        if op in CIPHER:
            return self.content(s)
        if not op.startswith("aes-"):
            raise Stuck("uninterpreted " + op)
        n = None
        if not isinstance(s.len, int) and len(terms(s.len)) == 1 and terms(s.len)[0][0].op == "len" and terms(s.len)[0][0].args[0] is s:
            n = self.atom(terms(s.len)[0][0])
        else:
            n = self.ev(s.len)
        seed = h(s.kind, op, self.val(g))
        out = []
        while len(out) < n:
            out.extend(seed)
            seed = h(seed)
        out = [x & 127 for x in out] if s.kind == "s" else out
        return out[:n]

    def text(self, r):
        if isinstance(r, bytes):
            return list(r)
        if isinstance(r, str):
            return list(map(ord, r))
        if isinstance(r, BArr):
            return self.text(r.v)
        out = []
        for g in r.segs:
            if g[0] == "e":
                out.append(self.ev(g[1]))
            else:
                t = self.text_of(g[1])
                lo, hi = self.ev(g[2]), self.ev(g[3])
                if not 0 <= lo <= hi <= len(t):
                    raise Stuck("slice outside")
                out.extend(t[lo:hi])
        return out

    def cond(self, c):
        if c is True or c is False:
            return c
        k = c.k
        if k[0] == "not":
            return not self.cond(k[1])
        if k[0] == "and":
            return all([self.cond(x) for x in k[1]])
        if k[0] == "eq":
            return self.ev(k[1]) == 0
        if k[0] == "ge":
            return self.ev(k[1]) >= 0
        if k[0] == "mask":
            return bool(k[2] >> self.atom(k[1]) & 1)
        name, g = k[1], k[2:]
        if name == "has":
            t = self.text_of(g[0])
            return g[3] in t[self.ev(g[1]):self.ev(g[2])]
        if name == "realdate":
            try:
                datetime.date(*[self.ev(x) for x in g])
                return True
            except ValueError:
                return False
        if name == "equal":
            return self.val(g[0]) == self.val(g[1])
        if name == "ascii":
            return all(x < 128 for x in (self.text_of(g[0]) if isinstance(g[0], Src) else self.text(g[0])))
        if name == "encodable":
            t = self.text_of(g[1]) if isinstance(g[1], Src) else self.text(g[1])
            return all(x < (128 if g[0] == "ascii" else 256) for x in t)
        if name == "decodable":
            try:
                bytes(self.text(g[2])).decode(g[0], g[1])
                return True
            except UnicodeDecodeError:
                return False
            except LookupError:
                raise Stuck("codec")
        raise Stuck("uninterpreted " + str(name))

    def val(self, v, depth=0):
        """Comparable concrete value"""
        if depth > 12:
            return "..."
        d = depth + 1
        if isinstance(v, bool) or v is None or isinstance(v, (float, complex)):
            return v
        if isinstance(v, (int, Lin)):
            return self.ev(v)
        if isinstance(v, Cond):
            return self.cond(v)
        if isinstance(v, (str, bytes, Rope)):
            k = kind_of(v)
            t = self.text(v)
            return bytes(t) if k == "b" else "".join(map(chr, t))
        if isinstance(v, BArr):
            return bytes(self.text(v.v))
        if isinstance(v, Src):
            return ("src", tuple(self.text_of(v)))
        if isinstance(v, Atom):
            return self.atom(v)
        if isinstance(v, EnumM):
            return v.value if I.is_int_enum(v.cls) else (v.cls.name, v.name)
        if isinstance(v, EnumSym):
            return self.ev(v.value)
        if isinstance(v, tuple):
            return tuple(self.val(x, d) for x in v)
        if isinstance(v, frozenset):
            return frozenset(self.val(x, d) for x in v)
        if isinstance(v, ListO):
            out = []
            for x in v.items:
                if isinstance(x, LSeg):
                    if x.seq is None:
                        raise Stuck("list")
                    out.extend(self.text(x.seq))
                else:
                    out.append(self.val(x, d))
            return out
        if isinstance(v, DictO):
            return {repr(self.val(k, d)): self.val(x, d) for k, x in v.d.values()}
        if isinstance(v, DT):
            return ("datetime",) + tuple(self.ev(x) for x in v.f) + (repr(v.tz),)
        if isinstance(v, Opq):
            return self.opq(v, d)
        if isinstance(v, Inst):
            if v.payload is not None:
                return self.val(v.payload, d)
            n = v.cls.name if isinstance(v.cls, ClassO) else v.cls.__name__
            return (n, tuple(sorted((k, self.val(x, d)) for k, x in v.attrs.items() if not k.startswith(("·", "__")))))
        if isinstance(v, (ClassO,)):
            return ("class", v.qual)
        if isinstance(v, (FuncO, Builtin, BoundM, ExtObj, type)):
            return repr(v)
        return repr(v)

    def opq(self, v, d):
        op = v.op
        if op in ("float16", "float32", "float64"):
            x = struct.unpack("<" + {"16": "e", "32": "f", "64": "d"}[op[5:]], bytes(self.text(v.args[0])))[0]
            return "nan" if x != x else x
        if op in ARITH or op in ("float", "int", "round", "td", "neg"):
            xs = [self.val(x, d) for x in v.args]
            if any(x == "nan" for x in xs):
                return "nan"
            if op == "td":
                if not isinstance(xs[0], (int, float)):
                    raise Stuck("timedelta")
                return ("timedelta", xs[0])
            if not all(isinstance(x, (int, float)) or x is None for x in xs):
                raise Stuck("operands of " + op)
            try:
                r = ARITH[op](*xs) if op in ARITH else {"float": float, "int": int, "round": round, "neg": lambda x: -x}[op](*xs)
            except (ArithmeticError, ValueError, TypeError):
                raise Stuck("arithmetic")
            return "nan" if r != r else r
        if op == "dtadd":
            x, n = self.val(v.args[0], d), self.val(v.args[1], d)
            try:
                r = datetime.datetime(*x[1:8]) + datetime.timedelta(seconds=n)
            except (OverflowError, ValueError, TypeError):
                raise Stuck("date")
            return ("datetime", r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, x[8])
        if op in ("type", "typing", "annotation", "attr.NOTHING", "NotImplemented"):
            return repr(v)
        raise Stuck("opaque " + op)

    # ---------------------------------------------------- satisfying equations

    def fix(self, log):
        """Adjust elements so that recorded equalities hold"""
        for c, t in log:
            if not isinstance(c, Cond):
                continue
            if c.k[0] == "not":
                c, t = c.k[1], not t
            if c.k[0] == "eq" and t:
                self.solve(c.k[1])
            elif c.k[0] == "and" and t:
                self.fix([(x, True) for x in c.k[1]])
            elif c.k[0] == "ge":
                try:
                    x = self.ev(c.k[1])
                except ERRORS:
                    continue
                if t and x < 0:
                    self.solve(c.k[1])
                elif not t and x >= 0:
                    self.solve(add(c.k[1], 1))
            elif c.k[0] == "mask":
                a = c.k[1]
                m = self.F.mask(a)
                if a.op == "el" and m:
                    try:
                        i = self.ev(a.args[1])
                        s = base_src(a.args[0])
                        if s.op in LEAF:
                            ct = self.content(s)
                            if 0 <= i < len(ct) and not m >> ct[i] & 1:
                                ct[i] = self.rnd.choice([x for x in range(256) if m >> x & 1])
                                self.memo.clear_derived()
                    except ERRORS:
                        pass

    def solve(self, v):
        try:
            d = self.ev(v)
        except Stuck:
            return
        if d == 0:
            return
        # single elements first, then lengths; byte fields written little/big endian are adjusted together
        ts = sorted(terms(v), key=lambda t: (t[0].op != "el", abs(t[1])))
        els = [(a, k) for a, k in ts if a.op == "el" and base_src(a.args[0]).op in LEAF]
        if els:
            # total = sum k*e must change by -d
            els.sort(key=lambda t: -abs(t[1]))
            try:
                cur = sum(k * self.atom(a) for a, k in els)
                want = cur - d
                newv = []
                for a, k in els:
                    q = want // k
                    q = max(0, min(255, q))
                    newv.append((a, q))
                    want -= k * q
                if want == 0:
                    for a, q in newv:
                        s = base_src(a.args[0])
                        self.content(s)[self.ev(a.args[1])] = q
                    self.memo.clear_derived()
                    return
            except ERRORS:
                pass
        for a, k in ts:
            if a.op in ("in", "var", "rand", "len") and d % k == 0:
                if a.op == "len" and base_src(a.args[0]).op not in LEAF:
                    continue
                x = self.memo.get(a)
                if x is None:
                    continue
                nx = x - d // k
                lo, hi = a.lo, a.hi
                if (lo is not None and nx < lo) or (hi is not None and nx > hi):
                    continue
                self.memo[a] = nx
                self.a[a] = nx
                if a.op == "len":
                    self.src.pop(a.args[0], None)
                self.memo.clear_derived()
                return


def base_src(s):
    while s.op in ("latin", "unlatin"):
        s = s.args[0]
    return s


CIPHER = {"aes-cbc-enc", "aes-cbc-dec", "aes-ecb-enc", "aes-ecb-dec"}     # unknown bijections: free contents, checked at the end
LEAF = {"in", "random", "recv"} | CIPHER
ARITH = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv, "floordiv": operator.floordiv,
         "mod": operator.mod, "pow": lambda a, b: a ** b if abs(b) < 100 else 1 / 0}
DERIVED = {"latin", "unlatin", "seq", "one", "hom", "strip", "dec", "hex", "hexnum", "repeat", "phi"}


class Memo(dict):
    def clear_derived(self):
        for k in list(self):
            if isinstance(k, Atom):
                if k.op in ("in", "var", "rand", "sent") or k.op == "len" and k.args[0].op in LEAF:
                    continue
            del self[k]


def samples(facts, n=60, tries=3000, seed=1):
    """Models satisfying the facts of a trace"""
    rnd = random.Random(seed)
    got = 0
    WORK[0] = 0
    for _ in range(tries):
        if WORK[0] > 3000000:
            return
        m = Model(facts, rnd)
        m.memo = Memo()
        try:
            # decide quantities in order of appearance
            for c, t in facts.log:
                try:
                    m.cond(c)
                except Stuck:
                    pass
            for _ in range(4):
                m.fix(facts.log)
            if all(m.cond(c) == t for c, t in facts.log) and m.ciphers_ok():
                got += 1
                yield m
                if got >= n:
                    return
        except ERRORS:
            continue


def inputs_of(m):
    out = {}
    for s, c in m.src.items():
        if s.op == "in":
            nm = ".".join(map(str, s.args))
            out[nm] = bytes(x & 255 for x in c).hex() if s.kind == "b" else "".join(map(chr, c))
    for a, x in m.memo.items():
        if isinstance(a, Atom) and a.op in ("var", "in"):
            out[".".join(map(str, a.args))] = x
    return out


def distinguish(facts, a, b, tries=1500):
    """(True, description) when some inputs of this trace make the two values differ, (False, n) otherwise"""
    n = 0
    for m in samples(facts, n=40, tries=tries):
        try:
            x, y = m.val(a), m.val(b)
        except ERRORS:
            continue
        n += 1
        if x != y:
            return True, {"inputs": inputs_of(m), "got": repr(x)[:400], "expected": repr(y)[:400]}
    return False, n


def reachable(facts, tries=1500):
    """Inputs that follow this trace, or None"""
    for m in samples(facts, n=1, tries=tries):
        return inputs_of(m)
    return None
