"""Loops: unrolled while nothing is open, otherwise summarised by a fixpoint over one abstract iteration.

The summary of a loop generalises every location the body writes (numbers to a symbol with widened range, byte
strings to "consumed from the front" or "appended to", finite control values to their set), repeats until the
generalisation is inductive, and derives closed forms where the transfer function of a location has one (folds over
the bytes consumed, element-wise maps, counters).
"""
import ast
from . import interp as I
from . import models as M
from . import textops as T
from .heap import *
from .interp import throw, call, num, truth, truthc, txt, effect, RangeV, IterO, cond_bit

UNROLL = 20000
FORKED = 72
BOUND = 4
FOLLOW = [0]      # follow loops with an open condition exactly for up to this many iterations (inputs of bounded structure)
NOTES = []        # loops that were only analysed up to a bound
RECORDS = []


class LoopRecord:
    """One summarised loop: head values, iterations that continue, iterations that leave."""

    def __init__(self, where, rid):
        self.where, self.rid = where, rid
        self.cells, self.nexts, self.exits, self.closed, self.entry = {}, [], [], {}, {}

    def __repr__(self):
        return f"loop@{self.where}"


def note(w, why):
    if (w, why) not in NOTES:
        NOTES.append((w, why))


# ------------------------------------------------------------------ entry points

def while_loop(s, env):
    literal = isinstance(s.test, ast.Constant) and bool(s.test.value)

    def step():
        if not literal and not truth(I.ev_expr(s.test, env)):
            return False
        try:
            I.run_block(s.body, env)
        except ContinueE:
            pass
        return True

    def test():
        if literal:
            return True
        v = I.ev_expr(s.test, env)
        c = truthc(v)
        if c is True and (isinstance(v, BArr) or is_str(v)):
            l, h = rng(rlen(v.v if isinstance(v, BArr) else v), R.facts)
            if h is None or h > 64:
                return "open"
        return c

    try:
        drive(step, ("while", s.lineno), test=None if literal else test, literal=literal, env=(env, s))
    except BreakE:
        return
    I.run_block(s.orelse, env)


def for_loop(s, env):
    v = I.ev_expr(s.iter, env)
    it = M.iter_(v)

    def body(x):
        I.assign(s.target, x, env)
        try:
            I.run_block(s.body, env)
        except ContinueE:
            pass

    try:
        run_iter(it, body, ("for", s.lineno), (env, s), fresh=it is not v)
    except BreakE:
        return
    I.run_block(s.orelse, env)


def iterate(it, step_fn, cells=()):
    try:
        run_iter(it, step_fn, ("iterate", I.STACK[-1].line if I.STACK else 0))
    except BreakE:
        pass


def comprehension(gens, env, body_fn):
    def rec(i, e):
        if i == len(gens):
            body_fn(e)
            return
        g = gens[i]
        it = M.iter_(I.ev_expr(g.iter, e))
        e2 = Env(e, "comp", e.name)

        def body(x):
            I.assign(g.target, x, e2)
            for c in g.ifs:
                if not truth(I.ev_expr(c, e2)):
                    return
            rec(i + 1, e2)

        run_iter(it, body, ("comp", I.STACK[-1].line if I.STACK else 0, i))

    rec(0, env)


def collect(v):
    if isinstance(v, ListO):
        return ListO(v.items)
    if isinstance(v, tuple):
        return ListO(v)
    t = txt(v)
    if t is not None and T.elems(t) is None:
        return ListO([LSeg("seq", (), T.length(t), seq=t)])
    out = ListO()
    it = M.iter_(v)
    if it.kind == "seq" and it.idx == 0 and isinstance(it.data, ListO):
        return ListO(it.data.items)
    iterate(it, lambda x: M.list_append(out, x))
    return out


# ------------------------------------------------------------------ iteration over iterators

def remaining(it):
    """Number of items left in an iterator (int or Lin), or None when it is not known to be finite"""
    k = it.kind
    if k == "seq":
        if isinstance(it.data, ListO) and any(isinstance(x, LSeg) for x in it.data.items) and not (len(it.data.items) == 1 and it.data.items[0].seq is not None):
            return None
        return sub(M.seq_len(it.data), it.idx)
    if k == "enum":
        return remaining(it.data)
    if k in ("zip", "map"):
        subs = it.data if k == "zip" else it.data[1]
        ns = [remaining(x) for x in subs]
        fin = [n for n in ns if isinstance(n, int)]
        if fin and not any(isinstance(n, Lin) for n in ns):
            return min(fin)
        ls = [n for n in ns if n is not None]
        return ls[0] if len(ls) == 1 or all(x == ls[0] for x in ls) and ls else (fin[0] if fin else None)
    if k == "filter":
        return remaining(it.data[1])
    if k == "chain":
        tot = 0
        for s in it.data[it.idx:]:
            n = remaining(s)
            if n is None:
                return None
            tot = add(tot, n)
        return tot
    if k == "islice":
        return it.data[1] - it.idx
    return None


def wrap_seq(it):
    """Let an unbounded byte string that is a concatenation be walked as one sequence."""
    if it.kind == "seq":
        d = it.data
        if isinstance(d, (tuple, RangeV)):
            return
        if isinstance(d, ListO):
            return
        t = T.mat(txt(d))
        if isinstance(t, Rope) and (len(t.segs) != 1 or t.segs[0][0] == "e"):
            it.data = whole(src(t.kind, "seq", t, len=rlen(t)))
        elif not isinstance(d, (Rope, bytes, str)) and not isinstance(d, BArr):
            it.data = t
    elif it.kind in ("enum",):
        wrap_seq(it.data)
    elif it.kind == "zip":
        for x in it.data:
            wrap_seq(x)
    elif it.kind == "map":
        for x in it.data[1]:
            wrap_seq(x)
    elif it.kind == "filter":
        wrap_seq(it.data[1])


def run_iter(it, body, tag, env=None, fresh=False):
    src_ = [it]

    def step():
        ok, x = M.next_(src_[0])
        if not ok:
            return False
        body(x)
        return True

    n = remaining(it)
    if isinstance(n, Lin):
        l, h = rng(n, R.facts)
        if h is not None and h <= 64:
            forked(step, tag, h + 1)
            return
        if l is None or h is None or l != h:
            peel = None
            walked = it.data.v if it.kind == "seq" and isinstance(it.data, BArr) else it.data
            if it.kind == "seq" and isinstance(walked, Rope) and it.idx == 0:
                lead = 0
                while lead < len(walked.segs) and walked.segs[lead][0] == "e":
                    lead += 1

                def peel(cells, it=it, data=walked, box=it.data):
                    """Leading known elements one by one; the body may take some itself"""
                    if isinstance(box, BArr) and any(c.obj is box for c in cells.values()):
                        raise Gap("the bytes iterated over change")
                    it.put("data", data)
                    while it.idx < lead:
                        step()
                        if not isinstance(it.idx, int):
                            raise Gap("iterator advanced by an unknown amount")
                    it.put("data", rope(data.kind, data.segs[it.idx:]))
                    it.put(None, 0)
                    wrap_seq(it)
                if not 0 < lead <= 16:
                    peel = None
            wrap_seq(it)
            summarise(step, tag, env, peel, lambda: src_[0])
            return
        n = l
    if isinstance(n, int):
        forked(step, tag, max(n, 0) + 1)
        return
    drive(step, tag, env=env)


def forked(step, tag, limit):
    """Bounded number of iterations, each may partition the trace."""
    for _ in range(limit + 1):
        if not step():
            return
    raise Gap(f"loop {tag} did not end within {limit} iterations")


def drive(step, tag, test=None, literal=False, env=None):
    n = forks = 0
    while True:
        ok, v = trial(step)
        if ok:
            if not v:
                return
            n += 1
            if n > UNROLL:
                raise Gap(f"loop {tag} at {I.where()} does not end within {UNROLL} iterations")
            continue
        if test is not None:
            mode = "fork" if FOLLOW[0] else None
            ok, c = trial(test)
            k = None
            if ok and c != "open":
                k = known(c)
                if k is not None and not (isinstance(c, Cond) and not small_cond(c)):
                    mode = "fork"
                elif isinstance(c, Cond) and not FOLLOW[0]:
                    mode = "fork" if small_cond(c) else None
            if mode == "fork":
                forks += 1
                if forks > FORKED and not FOLLOW[0] and k is not None:
                    summarise(step, tag, env)       # the iterations followed so far are a prefix
                    return
                if forks > (FOLLOW[0] or FORKED):
                    raise Gap(f"loop {tag} at {I.where()} does not end within {FOLLOW[0] or FORKED} iterations")
                if not step():
                    return
                continue
        elif FOLLOW[0] and literal:
            forks += 1
            if forks > FOLLOW[0]:
                raise Gap(f"loop {tag} at {I.where()} does not end within {FOLLOW[0]} iterations")
            if not step():
                return
            continue
        summarise(step, tag, env)
        return


def small_cond(c):
    """The quantity tested has few values, so that unrolling ends"""
    if c.k[0] == "not":
        return small_cond(c.k[1])
    if c.k[0] == "mask":
        a = c.k[1]
        return a.op in ("rand", "bf", "mod")
    if c.k[0] in ("eq", "ge"):
        l, h = rng(c.k[1], R.facts)
        return l is not None and h is not None and h - l <= 64
    return False


# ------------------------------------------------------------------ summarising

def summarise(step, tag, env=None, peel=None, walk=None):
    rid = (I.where_fn(), tag, counter("loop"))
    jm = len(R.journal)
    try:
        S = Summary(step, tag, rid, env, walk)
        S.fixpoint()
        S.close()
        if peel is not None and any(c.kind == "acc" and c not in S.closed for c in S.cells.values()):
            rollback(jm)
            jm = None
            peel(S.cells)
            jm = len(R.journal)
            S = Summary(step, tag, rid, env, walk)
            S.fixpoint()
            S.close()
    except Gap as g:
        if jm is None:
            raise
        rollback(jm)
        note(f"{I.where()}", str(g))
        bounded_unroll(step)
        return
    S.leave()


def bounded_unroll(step):
    for _ in range(BOUND):
        if not step():
            return
    raise Infeasible()


def snap(v):
    if isinstance(v, BArr):
        return ("barr", v.v)
    if isinstance(v, ListO):
        return ("list", tuple(v.items))
    return v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str, bytes, Lin, Rope, Opq, DT, Cond, EnumSym, BoundM, float)):
        return a == b
    return False


class Cell:
    def __init__(self, obj, key, entry, name):
        self.obj, self.key, self.name = obj, key, name
        self.entry = entry          # snapshot
        self.kind = None            # num | acc | cur | hv | list | ctl | poison
        self.head = entry           # snapshot at the head
        self.box = None             # 'barr' / 'list' when the location holds a fresh object each time
        self.sym = None
        self.lo = self.hi = None
        self.mask = None
        self.opts = None
        self.upper = None
        self.bad = set()


THRESH = [0, 1, 7, 15, 31, 63, 127, 255, 4095, 65535, 2**24 - 1, 2**32 - 1, 2**63]


class Summary:
    def __init__(self, step, tag, rid, env=None, walk=None):
        self.step, self.tag, self.rid, self.walk = step, tag, rid, walk
        self.env, self.node = env or (None, None)
        self.cells = {}
        self.where = I.where()
        self.atoms_before = None

    # -------------------------------------------------------- one iteration from the head

    def setheads(self, override=None):
        for c in self.cells.values():
            h = c.head
            if override and c in override:
                h = override[c]
            elif c.kind == "ctl":
                i = choose(len(c.opts), ("loop", c.name))
                h = c.opts[i]
            if c.box == "barr":
                h = BArr(h[1])
            elif c.box == "list":
                h = ListO(h[1])
            c.obj.put(c.key, h)

    def facts(self, override=None):
        """Known relations of the head symbols"""
        for c in self.cells.values():
            if override and c in override:
                continue
            if c.sym is None:
                continue
            if c.kind == "cur":
                assume(ge(c.sym, c.lo))
                assume(ge(c.hi, c.sym))
            elif c.upper is not None:
                assume(ge(c.upper, c.sym))

    def run(self, override=None):
        self.facts(override)
        self.setheads(override)
        return self.step()

    def explore(self, override=None):
        jm = len(R.journal)

        def cap(p):
            out = {}
            for o, k, old in R.journal[jm:]:
                key = (id(o), k)
                if key not in out:
                    v = o.get_raw(k)
                    if isinstance(o, ListO):
                        v = tuple(v)
                    out[key] = (o, k, v, snap(v))
            return out

        return explore(lambda: self.run(override), capture=cap, limit=4000)

    def is_next(self, p):
        return p.kind == "ret" and p.value is True

    # -------------------------------------------------------- fixpoint

    def fixpoint(self):
        base_log = len(R.facts.log)
        for rnd in range(30):
            self.paths = ps = self.explore()
            nx = [p for p in ps if self.is_next(p)]
            changed = False
            # new locations
            for p in nx:
                for key, (o, k, v, s) in p.cap.items():
                    if key not in self.cells:
                        e = o.get_raw(k)
                        if isinstance(o, ListO):
                            e = tuple(e)
                        self.cells[key] = Cell(o, k, snap(e), self.unique(self.nameof(o, k)))
                        self.keep = getattr(self, "keep", []) + [o]
            for key, c in self.cells.items():
                vals = []
                for p in nx:
                    if key in p.cap:
                        vals.append((p, p.cap[key][3], p.cap[key][2]))
                    else:
                        vals.append((p, c.head, None))
                if self.generalise(c, vals):
                    changed = True
            if not changed:
                if not self.invariants(nx, base_log):
                    self.base_log = base_log
                    return
        raise Gap("loop summary does not stabilise")

    def unique(self, name):
        while any(c.name == name for c in self.cells.values()):
            name += "'"
        return name

    def nameof(self, o, k):
        n = len(self.cells)
        if isinstance(o, Env):
            return f"{k}"
        if isinstance(o, IterO):
            return "position" if not any(c.name == "position" for c in self.cells.values()) else f"position{n}"
        return f"{type(o).__name__}{n}.{k}" if k is not None else f"{type(o).__name__}{n}"

    def generalise(self, c, vals):
        nexts = [v for _, v, _ in vals]
        if c.kind is None and all(same(v, c.entry) for v in nexts):
            return False
        if c.kind == "poison":
            return False
        e = c.entry
        boxed = isinstance(e, tuple) and len(e) == 2 and e[0] in ("barr", "list") and not isinstance(c.obj, (ListO, BArr))
        if boxed and all(isinstance(v, tuple) and len(v) == 2 and v[0] == e[0] for v in nexts):
            # is it always the same object?
            cur = c.obj.get_raw(c.key)
            c.box = e[0]
            if e[0] == "barr":
                return self.gen_text(c, e[1], [(p, v[1]) for p, v, _ in vals], wrap=lambda r: ("barr", r))
            return self.gen_list(c, e[1], [(p, v[1]) for p, v, _ in vals], wrap=lambda r: ("list", r))
        if isinstance(c.obj, ListO):
            return self.gen_list(c, e, [(p, v) for p, v, _ in vals], wrap=lambda r: r)
        if e is MISSING or any(v is MISSING for v in nexts):
            return self.poison(c)
        if is_str(e) and all(is_str(v) for v in nexts) and c.kind in (None, "acc", "cur", "hv", "ctl") and len({kind_of(v) for v in nexts} | {kind_of(e)}) == 1:
            if c.kind == "ctl" or (isinstance(e, str) and all(isinstance(v, str) for v in nexts) and c.kind is None and all(not v.startswith(e) or e == v for v in nexts) and e):
                return self.gen_ctl(c, nexts)
            return self.gen_text(c, e, [(p, v) for p, v, _ in vals], wrap=lambda r: r)
        ns = [num(x) if not isinstance(x, (bool, Cond, EnumM, EnumSym)) else None for x in [e] + nexts]
        if all(x is not None for x in ns) and c.kind in (None, "num"):
            return self.gen_num(c, ns[0], ns[1:], vals)
        if all(isinstance(x, (bool, type(None), EnumM, ClassO, FuncO, Builtin, int, str, bytes, Opq, Inst)) for x in [e] + nexts) and c.kind in (None, "ctl"):
            return self.gen_ctl(c, nexts)
        return self.poison(c)

    def poison(self, c):
        if c.kind == "poison":
            return False
        c.kind = "poison"
        c.box = None
        c.head = Poison(f"{c.name} at {self.where}")
        return True

    def gen_ctl(self, c, nexts):
        opts = list(c.opts or [c.entry])
        n0 = len(opts) if c.kind == "ctl" else 0
        for v in nexts:
            if not any(same(v, o) for o in opts):
                if isinstance(v, Inst) or isinstance(v, Opq) and v.ty == "any":
                    return self.poison(c)
                opts.append(v)
        if len(opts) > 8:
            return self.poison(c)
        c.kind, c.opts = "ctl", opts
        c.head = opts[0]
        return len(opts) != n0

    def gen_num(self, c, e, nexts, vals):
        first = c.kind is None
        lo, hi = (rng(e, R.facts) if first else (c.lo, c.hi))
        if not first:
            el_, eh = lo, hi
        nl, nh = lo, hi
        for (p, _, _), v in zip(vals, nexts):
            l, h = rng(v, p.facts)
            if nl is not None and (l is None or l < nl):
                nl = None if l is None else next((-t for t in [0, 1] if -t <= l), None)
            if nh is not None and (h is None or h > nh):
                nh = None if h is None else next((t for t in THRESH if t >= h), None)
        if not first and (nl, nh) == (c.lo, c.hi):
            return False
        c.widen = getattr(c, "widen", 0) + 1
        if c.widen > 6:
            if nh != c.hi:
                nh = None
            if nl != c.lo:
                nl = None
        c.kind, c.lo, c.hi = "num", nl, nh
        a = atom("h", self.rid, c.name, nl, nh, lo=nl, hi=nh)
        c.sym = L(a)
        c.head = c.sym
        c.upper = None
        return True

    def gen_text(self, c, e, vals, wrap):
        k = kind_of(e) if is_str(e) else None
        cur = c.head[1] if c.box else c.head
        if c.kind in (None, "acc"):
            base = cur
            ems = []
            for p, v in vals:
                em = strip_prefix(v, base)
                if em is None:
                    ems = None
                    break
                ems.append((p, em))
            if ems is not None and (c.kind == "acc" or any(rlen(x) != 0 for _, x in ems)):
                bits = full = (1 << 256) - 1
                for p, em in ems:
                    bits &= excluded(em, p.facts)
                if c.kind == "acc":
                    m = c.mask & bits
                    if m == c.mask:
                        return False
                else:
                    m = bits
                c.kind, c.mask = "acc", m
                s = src(k, "acc", self.rid, c.name, m, mask=m or None)
                c.sym = None
                c.src = s
                c.head = wrap(cat(e, whole(s)))
                return True
        if c.kind in (None, "cur"):
            if c.kind is None:
                t = T.mat(e)
                if isinstance(t, Rope) and len(t.segs) == 1 and t.segs[0][0] == "s":
                    _, s, lo, hi = t.segs[0]
                elif isinstance(t, Rope):
                    s = src(k, "seq", t, len=rlen(t))
                    lo, hi = 0, s.len
                else:
                    s = None
                if s is not None and all(is_suffix(v, t) for _, v in vals):
                    c.kind, c.src, c.lo, c.hi = "cur", s, lo, hi
                    c.sym = L(atom("h", self.rid, c.name, "cur", lo=0))
                    c.head = wrap(rope(k, [("s", s, c.sym, hi)]))
                    return True
            else:
                ok = True
                for p, v in vals:
                    pos = self.position(c, v)
                    if pos is None or p.facts.decide(ge(pos, c.sym)) is not True or p.facts.decide(ge(c.hi, pos)) is not True:
                        ok = False
                if ok:
                    return False
        if c.kind == "hv":
            return False
        c.kind = "hv"
        c.sym = None
        c.src = src(k, "hv", self.rid, c.name)
        c.head = wrap(whole(c.src))
        return True

    def position(self, c, v):
        """Cursor value that a remaining text stands for"""
        v = T.mat(v)
        if rlen(v) == 0:
            return c.hi
        if isinstance(v, Rope) and len(v.segs) == 1 and v.segs[0][0] == "s" and v.segs[0][1] is c.src and v.segs[0][3] == c.hi:
            return v.segs[0][2]
        return None

    def gen_list(self, c, e, vals, wrap):
        cur = c.head[1] if c.box else c.head
        if c.kind in (None, "list"):
            app = []
            ok = True
            for p, v in vals:
                if len(v) >= len(cur) and all(same(x, y) for x, y in zip(v, cur)):
                    app.append((p, v[len(cur):]))
                else:
                    ok = False
            if ok:
                if c.kind == "list":
                    c.app = app
                    return False
                c.kind, c.app = "list", app
                c.seg = LSeg((self.rid, c.name), (), None)
                c.head = wrap(tuple(e) + (c.seg,)) if c.box else list(e) + [c.seg]
                if not c.box:
                    c.head = list(e) + [c.seg]
                return True
        if c.kind in (None, "lcur"):
            # consumed from the front
            if len(e) == 1 and isinstance(e[0], LSeg) and e[0].seq is not None:
                raise Gap("list consumed from the front")
        raise Gap(f"list {c.name} changed in a way the analysis does not follow")

    # -------------------------------------------------------- upper bounds of counters

    def delta(self, c, p):
        """Change of a numeric location on one continuing iteration"""
        key = next(k for k, x in self.cells.items() if x is c)
        if key not in p.cap:
            return 0
        v = p.cap[key][3]
        if c.kind == "cur":
            v = self.position(c, v[1] if c.box else v)
            if v is None:
                return None
        else:
            v = num(v)
        return sub(v, c.sym)

    def invariant_atoms(self, v):
        """Only quantities fixed before the loop"""
        for a in bases(v):
            if a.op in ("h",) and a.args[0] == self.rid:
                return False
            if a.op == "el" and not self.invariant_atoms(a.args[1]):
                return False
            if a.op in ("in", "rand", "sent"):
                return False
            if a.op == "len" and a.args[0].op in ("acc", "hv", "loop") and a.args[0].args[0] == self.rid:
                return False
        return True

    def invariants(self, nx, base_log):
        """Verify assumed upper bounds, propose new ones. Returns True when something changed."""
        changed = False
        for c in self.cells.values():
            if c.kind != "num" or c.sym is None:
                continue
            ds = [self.delta(c, p) for p in nx]
            if c.upper is not None:
                for p, d in zip(nx, ds):
                    if d is None or p.facts.decide(ge(c.upper, add(c.sym, d))) is not True:
                        c.bad.add(c.upper)
                        c.upper = None
                        changed = True
                        break
                continue
            if not nx or not all(isinstance(d, int) and d >= 0 for d in ds) or not any(ds):
                continue
            a = terms(c.sym)[0][0]
            cands = None
            for p, d in zip(nx, ds):
                if d == 0:
                    continue
                here = set()
                for cc, t in p.facts.log[base_log:]:
                    if not isinstance(cc, Cond):
                        continue
                    if cc.k[0] == "ge":
                        v = cc.k[1] if t else sub(-1, cc.k[1])
                        co = dict(terms(v)).get(a)
                        if co == -1:
                            b = add(v, c.sym)
                            if self.invariant_atoms(b):
                                here.add(add(b, d))
                    elif cc.k[0] == "eq" and not t and d == 1:
                        v = cc.k[1]
                        co = dict(terms(v)).get(a)
                        if co in (1, -1):
                            b = add(mulc(v, -co), c.sym)
                            if self.invariant_atoms(b):
                                here.add(b)
                cands = here if cands is None else cands & here
            for u in sorted(cands or (), key=show):
                if u in c.bad:
                    continue
                if known(ge(u, num(c.entry))) is True:
                    c.upper = u
                    changed = True
                    break
        return changed

    # -------------------------------------------------------- closed forms

    def close(self):
        nx = [p for p in self.paths if self.is_next(p)]
        self.nx = nx
        self.closed = {}
        self.cursor = None
        rec = LoopRecord(self.where, self.rid)
        self.rec = rec
        cur = []
        for c in self.cells.values():
            if c.kind in ("num", "cur") and c.sym is not None and nx and all(self.delta(c, p) == 1 for p in nx):
                if c.kind == "cur" or c.upper is not None:
                    cur.append(c)
        cur.sort(key=lambda c: (c.kind != "cur", not isinstance(c.obj, IterO)))
        if cur:
            self.cursor = k = cur[0]
            start = k.lo if k.kind == "cur" else num(k.entry)
            ka = terms(k.sym)[0][0]
            for c in self.cells.values():
                if c is k:
                    continue
                try:
                    v = self.closed_form(c, k, start, ka)
                except Gap:
                    v = None
                if v is not None:
                    self.closed[c] = v
        # leaving iterations, from the closed head
        self.exits = []
        self.collect_exits()
        rec.cells = self.cells
        rec.nexts = nx
        rec.exits = [p for _, p in self.exits]
        rec.summary = self

    def closed_form(self, c, k, start, ka):
        """function of the cursor value"""
        nx = self.nx
        key = next(kk for kk, x in self.cells.items() if x is c)
        if c.kind == "cur" or c.kind == "num":
            ds = [self.delta(c, p) for p in nx]
            if all(isinstance(d, int) and d == ds[0] for d in ds):
                e = c.lo if c.kind == "cur" else num(c.entry)
                if c.kind == "num":
                    return lambda pos: add(e, mulc(sub(pos, start), ds[0]))
                cc = c
                if ds[0] == 1:
                    w = (lambda r: ("barr", r)) if c.box == "barr" else (lambda r: r)
                    return lambda pos: w(rope(cc.src.kind, [("s", cc.src, add(e, sub(pos, start)), cc.hi)]))
        vals = [(p, p.cap[key][3] if key in p.cap else c.head) for p in nx]
        if c.kind == "num":
            return self.fold(c, k, start, ka, vals)
        if c.kind == "acc":
            b = c.head[1] if c.box else c.head
            ems = [(p, strip_prefix(v[1] if c.box else v, b)) for p, v in vals]
            S, tab = self.element_map(ems, ka)
            if S is None:
                return None
            e = c.entry[1] if c.box else c.entry
            w = (lambda r: ("barr", r)) if c.box == "barr" else (lambda r: r)
            kd = kind_of(b)
            return lambda pos: w(cat(e, conv_kind(hom(tab, self.piece(S[0], start, pos, kd, S[1])), kd)))
        if c.kind == "list":
            ems = []
            for p, xs in c.app:
                ns = [num(x) if not isinstance(x, bool) else None for x in xs]
                if any(n is None for n in ns):
                    return None
                ems.append((p, rope("b", [("e", n) for n in ns])))
            S, tab = self.element_map(ems, ka)
            if S is None:
                return None
            e = c.entry[1] if c.box else list(c.entry)

            def f(pos):
                r = hom(tab, self.piece(S[0], start, pos, "b", S[1]))
                sg = LSeg((self.rid, c.name, pos), (), T.length(r), seq=r)
                return ("list", tuple(e) + (sg,)) if c.box else list(e) + [sg]
            return f
        return None

    def piece(self, S, start, pos, kd=None, off=0):
        r = rope(S.kind, [("s", S, add(start, off), add(pos, off))])
        r = T.expand_seq(r)
        return conv_kind(r, kd) if kd else r

    def offset(self, a, ka):
        """Fixed distance of an element's index from the cursor, or None"""
        i = a.args[1]
        if not isinstance(i, Lin) or dict(i.t).get(ka) != 1:
            return None
        d = sub(i, L(ka))
        return d if self.invariant_atoms(d) else None

    def elem_atom(self, vs, ka):
        """The one element quantity (source, atom) at the cursor that values depend on"""
        found = None
        for v in vs:
            for a in bases(v):
                if a.op == "el" and self.offset(a, ka) is not None:
                    if found is not None and found is not a:
                        return None
                    found = a
        return found

    def path_conds(self, p):
        return [(c, t) for c, t in p.facts.log[self.base_log:] if isinstance(c, Cond)]

    def fold(self, c, k, start, ka, vals):
        ns = [num(v) for _, v in vals]
        conds = [self.path_conds(p) for p, _ in vals]
        a = terms(c.sym)[0][0]
        cvals = []
        for cs in conds:
            for cc, t in cs:
                for v in cond_quantities(cc):
                    cvals.append(v)
        ea = self.elem_atom(ns + cvals, ka)
        if ea is None:
            return None
        S, off = ea.args[0], self.offset(ea, ka)
        # plain sums
        if len({str(n) for n in ns}) == 1:
            v = ns[0]
            if sub(v, c.sym) == L(ea):
                e = num(c.entry)
                return lambda pos: add(e, rope_sum(self.piece(S, start, pos, off=off)))
            va = terms(v)[0][0] if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 else None
            if va is not None and va.op in ("bf", "mod"):
                inner = va.args[0]
                if sub(inner, c.sym) == L(ea) and (va.op == "mod" or va.args[1] == 0):
                    m = va.args[1] if va.op == "mod" else (1 << (va.args[2] if va.args[2] is not None else rng(inner)[1].bit_length()))
                    e = num(c.entry)
                    if isinstance(e, int) and 0 <= e < m or known(ge(m - 1, e)) is True and known(ge(e, 0)) is True:
                        return lambda pos: mod(add(e, rope_sum(self.piece(S, start, pos, off=off))), m)
        bits = None
        for n, cs in zip(ns, conds):
            b = to_bits(n)
            if b is None:
                return None
            g = ONE
            if len(ns) > 1:
                for cc, t in cs:
                    qs = set()
                    for q in cond_quantities(cc):
                        qs |= bases(q)
                    if not qs & {a, ea}:
                        continue
                    x = cond_bit(cc)
                    if x is None:
                        return None
                    g = band(g, x if t else bnot(x))
            b = [band(g, x) for x in b]
            if bits is None:
                bits = b
            else:
                w = max(len(bits), len(b))
                bits = [bxor(x, y) for x, y in zip(bits + [ZERO] * (w - len(bits)), b + [ZERO] * (w - len(b)))]
        while bits and not bits[-1]:
            bits.pop()
        st, elx = atom("fs"), atom("fe")
        w = len(bits)
        out = []
        for b in bits:
            nb = ZERO
            for m in b:
                mm = set()
                for base, i in m:
                    if base is a:
                        mm.add((st, i))
                    elif base is ea:
                        mm.add((elx, i))
                    else:
                        return None
                if any(x is st and i >= w for x, i in mm):
                    # higher bits of the state are zero after one step; they matter only for the initial value
                    e = num(c.entry)
                    l, h = rng(e)
                    if h is None or h >= 1 << w or l < 0:
                        return None
                    continue
                nb = nb ^ frozenset([frozenset(mm)])
            out.append(nb)
        fk = tuple(out)
        e = num(c.entry)
        l, h = rng(e)
        if l is None or l < 0 or h is None or h >= 1 << w:
            return None
        return lambda pos: fold_value(fk, e, self.piece(S, start, pos, off=off))

    def element_map(self, ems, ka):
        """Table byte -> emitted bytes when the emission depends on the element at the cursor only"""
        qs = []
        for p, em in ems:
            for g in segs(em):
                if g[0] == "e":
                    qs.append(g[1])
                elif isinstance(seglen(g), int):
                    for i in range(seglen(g)):
                        qs.append(el(g[1], add(g[2], i)))
                else:
                    return None, None
            for cc, t in self.path_conds(p):
                qs.extend(cond_quantities(cc))
        ea = self.elem_atom([q for q in qs if isinstance(q, Lin)], ka)
        if ea is None:
            return None, None
        for p, em in ems:
            for cc, t in self.path_conds(p):
                b = set()
                for q in cond_quantities(cc):
                    b |= bases(q)
                others = {x for x in b if x is not ea}
                if any(x is not ka and (x.op == "h" or x.op == "el" and self.offset(x, ka) is None) and ea in b for x in others):
                    return None, None
                if cc.k[0] == "pred":
                    return None, None
                if any(x.op == "h" and x is not ka and x.args[0] == self.rid for x in b):
                    return None, None
        tab = []
        for x in range(256):
            got = None
            for p, em in ems:
                if not (p.facts.mask(ea) >> x & 1):
                    continue
                es = T.fixed(em)
                if es is None:
                    return None, None
                try:
                    val = tuple(ev(y, {ea: x}) for y in es)
                except KeyError:
                    return None, None
                if got is not None and got != val:
                    return None, None
                got = val
            if got is None:
                got = ()
                # no continuing iteration for this byte: it can not have been passed
                if not any(p.facts.mask(ea) >> x & 1 for p in self.paths if not self.is_next(p)):
                    pass
            tab.append(got)
        return (ea.args[0], self.offset(ea, ka)), tuple(tab)

    # -------------------------------------------------------- leaving

    def override(self, pos):
        o = {}
        if self.cursor is not None:
            k = self.cursor
            if pos is None:
                p = k.sym
            else:
                p = pos
                if k.kind == "cur":
                    h = rope(k.src.kind, [("s", k.src, pos, k.hi)])
                    o[k] = ("barr", h) if k.box == "barr" else h
                else:
                    o[k] = pos
            for c, f in self.closed.items():
                o[c] = f(p)
        return o

    def collect_exits(self):
        todo = [None]
        k = self.cursor
        seen = set()
        resolved = False
        for pos in todo:
            ov = self.override(pos)
            for p in self.explore(ov):
                if self.is_next(p):
                    continue
                if pos is None and k is not None:
                    end = k.hi if k.kind == "cur" else k.upper
                    if p.facts.decide(ge(k.sym, end)) is True:
                        if not resolved:
                            resolved = True
                            todo.append(end)
                        continue
                self.exits.append((pos, p))

    def entry_key(self):
        """Canonical text of the state the loop starts from, except texts it only appends to; None when there is none"""
        if self.env is None:
            return None
        accs = [c for c in self.cells.values() if c.kind == "acc" and c not in self.closed]
        if not accs:
            return None
        own = [f"acc({self.rid!r}, {c.name}" for c in accs]
        seen = []
        for p in self.paths:
            seen.append((None, repr(p.value)))
            for cc, _ in p.facts.log[self.base_log:]:
                seen.append((None, str(cc)))
                if any(o in seen[-1][1] for o in own):
                    return None
            for key, (o, k, v, sn) in p.cap.items():
                c = self.cells.get(key)
                if c in accs:
                    base = c.head[1] if c.box else c.head
                    sn = strip_prefix(sn[1] if c.box else sn, base)
                elif c is None or c.kind == "poison":
                    continue
                seen.append((c, repr(sn)))
                if any(o in seen[-1][1] for o in own):
                    return None
        objs = {}

        def dead(c):
            """What it holds at the head is not used"""
            if c.kind == "poison":
                return True
            if c.kind == "num" and c.sym is not None:
                t = show(c.sym)
            elif c.kind == "hv":
                t = repr(whole(c.src))[1:-1]
            else:
                return False
            return not any(t in x for o, x in seen if o is not c)

        skip = {(id(c.obj), c.key): c for c in self.cells.values() if c in accs or dead(c)}
        read = {n.id for b in self.node.body + [getattr(self.node, "test", None)] if b is not None
                for n in ast.walk(b) if isinstance(n, ast.Name)}

        def settled(v):
            """Bytes iterated over, which the loop does not change"""
            return v.v if isinstance(v, BArr) and not any(c.obj is v for c in self.cells.values()) else v

        def canon(v, d=0):
            if d > 6:
                raise Gap("deep state")
            if v is MISSING or v is None or isinstance(v, (bool, int, str, bytes, float, Lin, Rope, Cond, EnumM)):
                ids = ()
                if isinstance(v, Rope):
                    ids = tuple(id(x[1]) if x[0] == "s" else canon(x[1]) for x in v.segs)
                elif isinstance(v, Lin):
                    ids = tuple(id(a) for a, _ in v.t)
                return (type(v).__name__, repr(v), ids)
            if isinstance(v, (FuncO, ClassO, Builtin)):
                return ("code", id(v))
            if isinstance(v, tuple):
                return ("tuple",) + tuple(canon(x, d + 1) for x in v)
            if isinstance(v, BArr):
                if id(v) in objs:
                    return ("same", objs[id(v)])
                objs[id(v)] = len(objs)
                if (id(v), None) in skip:
                    return ("acc", objs[id(v)])
                return ("barr", canon(v.v, d + 1))
            if isinstance(v, ListO) and len(v.items) <= 50 and not any(isinstance(x, LSeg) for x in v.items):
                if id(v) in objs:
                    return ("same", objs[id(v)])
                objs[id(v)] = len(objs)
                return ("list",) + tuple(canon(x, d + 1) for x in v.items)
            if isinstance(v, DictO) and len(v.d) <= 300:
                if id(v) in objs:
                    return ("same", objs[id(v)])
                objs[id(v)] = len(objs)
                return ("dict",) + tuple((canon(k, d + 1), canon(x, d + 1)) for k, x in v.d.items())
            if isinstance(v, IterO) and v.kind == "seq" and not isinstance(v.data, (ListO, RangeV)):
                if id(v) in objs:
                    return ("same", objs[id(v)])
                objs[id(v)] = len(objs)
                return ("iter", canon(settled(v.data), d + 1), canon(v.idx, d + 1))
            raise Gap("state without a canonical form")

        # locations go back to their values before the loop
        jm = len(R.journal)
        for c in self.cells.values():
            e = c.entry
            c.obj.put(c.key, BArr(e[1]) if c.box == "barr" else ListO(list(e[1])) if c.box == "list" else e)
        out = []
        try:
            e = self.env
            while e is not None and e.kind == "func":
                for k in sorted(e.vars):
                    if k not in read or (id(e), k) in skip and skip[id(e), k].kind != "acc":
                        continue
                    out.append((k, "acc" if (id(e), k) in skip else canon(e.vars[k])))
                e = e.parent
            for c in self.cells.values():
                if (id(c.obj), c.key) not in skip and not isinstance(c.obj, (Env, BArr)):
                    out.append((c.name, canon(c.entry)))
        except Gap:
            return None
            if isinstance(self.node, ast.For):
                it = self.walk and self.walk()
                if not isinstance(it, IterO) or it.kind != "seq":
                    return None
                out.append(("over", canon(settled(it.data))))
        finally:
            rollback(jm)
        return repr(out)

    def leave(self):
        effect("loop", self.rec)
        RECORDS.append(self.rec)
        if not self.exits:
            raise Infeasible()
        i = choose(len(self.exits), ("leave", self.tag))
        pos, p = self.exits[i]
        ov = self.override(pos)
        key = self.entry_key()
        if key is not None:
            # the same loop from the same state ends in the same way, with the same texts accumulated
            how = (p.kind, p.value.attrs.get("·at") if isinstance(p.value, Inst) else repr(p.value))
            how += tuple((c.name, repr(p.cap[k][3])) for k, c in self.cells.items() if c.kind == "ctl" and k in p.cap)
            if R.counters.setdefault(("leave", key), how) != how:
                raise Infeasible()
            for c in self.cells.values():
                if c.kind == "acc" and c not in self.closed:
                    name = c.name
                    if not isinstance(c.obj, Env):
                        name = next((k for k in sorted(self.env.vars) if self.env.vars[k] is c.obj), name)
                    b = whole(src(c.src.kind, "acc", (self.rid[0], self.rid[1], key), name, c.mask, mask=c.mask or None))
                    r = cat(c.entry[1] if c.box else c.entry, b)
                    ov[c] = ("barr", r) if c.box == "barr" else r
        effect("leave", self.rec, i)
        r = replay(lambda: self.run(ov), p.prefix)
        if r is True:
            raise Infeasible()


# ------------------------------------------------------------------ helpers

def conv_kind(r, kd):
    if kd is None or kind_of(r) == kd:
        return r
    out = []
    for g in segs(r):
        if g[0] == "e":
            out.append(g)
        else:
            out.append(("s", latin_src(g[1]) if kd == "s" else unlatin_src(g[1]), g[2], g[3]))
    return rope(kd, out)


def strip_prefix(v, base):
    """Rest of v after base, or None"""
    a, b = list(segs(v)), list(segs(base))
    for i, g in enumerate(b):
        if i >= len(a):
            return None
        if a[i] == g:
            continue
        if g[0] == "s" and a[i][0] == "s" and a[i][1] is g[1] and a[i][2] == g[2] and i == len(b) - 1:
            a[i] = ("s", g[1], g[3], a[i][3])
            return rope(kind_of(v), a[i:])
        return None
    return rope(kind_of(v), a[len(b):])


def is_suffix(v, t):
    """v is what remains of t after taking something off its front"""
    a, b = list(segs(v)), list(segs(t))
    if not a:
        return True
    for n in range(len(a)):
        i, j = len(a) - 1 - n, len(b) - 1 - n
        if j < 0:
            return False
        if a[i] == b[j]:
            continue
        if i == 0 and a[i][0] == "s" and b[j][0] == "s" and a[i][1] is b[j][1] and a[i][3] == b[j][3]:
            return True
        return False
    return True


def excluded(em, F):
    """Byte values that can not occur in a text"""
    m = (1 << 256) - 1
    for g in segs(em):
        if g[0] == "e":
            x = g[1]
            if isinstance(x, int):
                m &= ~(1 << x) if x < 256 else m
                continue
            d = byte_dep(x)
            if d is not None:
                fm = F.mask(d)
                for y in range(d.lo, d.hi + 1):
                    if fm >> y & 1:
                        z = ev(x, {d: y})
                        if 0 <= z < 256:
                            m &= ~(1 << z)
                continue
            return 0
        n = seglen(g)
        s = g[1]
        if isinstance(n, int) and n <= 4:
            for i in range(n):
                a = terms(el(s, add(g[2], i)))[0][0]
                m &= ~F.mask(a)
        elif s.mask and s.mask != "latin":
            m &= s.mask
        else:
            return 0
    return m


def cond_quantities(c):
    k = c.k[0]
    if k in ("eq", "ge"):
        return [c.k[1]]
    if k == "mask":
        return [L(c.k[1])]
    if k == "not":
        return cond_quantities(c.k[1])
    if k == "and":
        return [q for x in c.k[1] for q in cond_quantities(x)]
    return []


def rope_sum(r):
    n = 0
    for g in segs(r):
        if g[0] == "e":
            n = add(n, g[1])
        else:
            k = seglen(g)
            if isinstance(k, int) and k <= 16:
                for i in range(k):
                    n = add(n, el(g[1], add(g[2], i)))
            else:
                n = add(n, L(atom("sum", g[1], g[2], g[3], lo=0)))
    return n


def fold_value(key, init, r):
    """Left fold with the given step function (bits over state and element) over a byte string"""
    e = T.elems(r)
    if e is not None and len(e) <= 64 and (all(isinstance(x, int) for x in e) or len(e) <= 2):
        v = init
        for x in e:
            v = fold_step(key, v, x)
        return v
    if isinstance(init, Lin) and init.c == 0 and len(init.t) == 1 and init.t[0][1] == 1 and init.t[0][0].op == "fold" and init.t[0][0].args[0] == key:
        a = init.t[0][0]
        return fold_value(key, a.args[1], cat(a.args[2], r))
    return L(atom("fold", key, init, r, lo=0, hi=(1 << len(key)) - 1))


def fold_step(key, st, x):
    sb, xb = to_bits(st), to_bits(x)
    out = []
    for b in key:
        v = ZERO
        for m in b:
            t = ONE
            for base, i in m:
                s = sb if base.op == "fs" else xb
                t = band(t, s[i] if i < len(s) else ZERO)
            v = bxor(v, t)
        out.append(v)
    return from_bits(out)


def _simp_fold(a, F):
    key, init, r = a.args
    if not isinstance(r, Rope):
        return None
    ch = False
    out = []
    for g in r.segs:
        if g[0] == "e" and isinstance(g[1], Lin):
            x = simp(g[1], F)
            if x is not g[1] and x != g[1]:
                g, ch = ("e", x), True
        out.append(g)
    return fold_value(key, init, rope(r.kind, out)) if ch else None


SIMP_HOOKS["fold"] = _simp_fold
