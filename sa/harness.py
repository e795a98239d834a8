"""Obligations, verdicts and reports."""
import json
import os
import selectors
import signal
import sys
import time
import traceback
from .heap import *
from . import interp as I, models as M, loops, witness
from .interp import num

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "sa")


class Anchor(Exception):
    """A construct the property is about is missing"""


class TimeUp(BaseException):
    """Never handled inside an analysis"""


class Enough(Exception):
    """The verdict of this obligation is settled"""


ANALYSER = (RecursionError, ArithmeticError, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, NameError)
JOBS = max(1, min(8, os.cpu_count() or 1))


# ------------------------------------------------------------------ loading

def load(root=REPO):
    sys.setrecursionlimit(20000)
    I.set_loader(I.Loader(root, extra={"spec": SPEC}))
    del loops.NOTES[:]
    BROKEN.clear()
    for m in ["spec.lib"] + all_modules(root) + ["spec.wire"]:
        try:
            I.LOADER.import_(m)
        except PyRaise as e:
            BROKEN[m] = exc_text(e.inst)
        except Gap as g:
            BROKEN[m] = f"analysis incomplete: {g}"
            reset_stack()
    R.mark = R.loaded = fresh_serial()
    R.at_load = R.unknown
    del R.journal[:]
    del R.kept[:]
    return I.LOADER


BROKEN = {}


def reset_stack():
    del I.STACK[:]
    del I.CUR_EXC[:]


def all_modules(root=REPO):
    out = []
    top = os.path.join(root, "elgas")
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if not x.startswith((".", "__pycache__")))
        for f in sorted(fs):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                out.append(m[:-9] if m.endswith(".__init__") else m)
    return sorted(out)


def mod(name):
    if name in BROKEN:
        raise Anchor(f"module {name}: {BROKEN[name]}")
    try:
        return I.LOADER.import_(name)
    except PyRaise as e:
        raise Anchor(f"module {name} cannot be imported: {exc_text(e.inst)}")


def get(path):
    """Object named by a dotted path: module attributes, then class attributes"""
    parts = path.split(".")
    for i in range(len(parts), 0, -1):
        name = ".".join(parts[:i])
        if I.LOADER.find(name) is not None:
            o = mod(name)
            rest = parts[i:]
            break
    else:
        raise Anchor(f"no module for {path}")
    for p in rest:
        try:
            o = I.getattr_(o, p)
        except PyRaise:
            raise Anchor(f"{path} does not exist")
    return o


def maybe(path):
    try:
        return get(path)
    except Anchor:
        return None


def spec(name, *args):
    m = I.LOADER.import_("spec.wire")
    return I.call(I.getattr_(m, name), list(args), {})


def specfn(name):
    return I.getattr_(I.LOADER.import_("spec.wire"), name)


# ------------------------------------------------------------------ descriptions

def fnwhere(f):
    while isinstance(f, (BoundM, StaticM, ClassM)):
        f = f.func if isinstance(f, BoundM) else f.f
    if isinstance(f, FuncO):
        return f"{path_of(f.module)}:{f.node.lineno}:{f.qual.rsplit('.', 2)[-1] if f.qual else f.name}"
    if isinstance(f, ClassO):
        ln = f.node.lineno if f.node is not None else 0
        return f"{path_of(f.module)}:{ln}:{f.name}"
    return str(f)


def path_of(m):
    p = I.LOADER.paths.get(m, m)
    return os.path.relpath(p, I.LOADER.root) if p and p.startswith("/") else str(p)


def where_path(w):
    m, _, r = w.partition(":")
    return f"{path_of(m)}:{r}"


def exc_name(e):
    c = e.cls if isinstance(e, Inst) else e
    return c.name if isinstance(c, ClassO) else getattr(c, "__name__", str(c))


def exc_text(e):
    a = e.attrs.get("args", ())
    return f"{exc_name(e)}({', '.join(_short(x) for x in a)}) raised at {where_path(str(e.attrs.get('·at', '?')))}"


def _short(v, n=160):
    try:
        s = repr(v)
    except Exception:
        s = object.__repr__(v)
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------ outcomes and agreement

def outcome(fn):
    """('ret', value) or ('exc', instance) of a call in the current trace"""
    if WARM[0]:
        try:
            r = "ret", fn()
        except PyRaise as e:
            r = "exc", e.inst
        if outlives():
            raise Warm
        return r
    try:
        return ("ret", fn())
    except PyRaise as e:
        return ("exc", e.inst)


def is_exc(e, *names):
    """Is the exception instance one of the named classes or a subclass?"""
    for c in mro_of(e.cls):
        n = c.name if isinstance(c, ClassO) else getattr(c, "__name__", str(c))
        if n in names:
            return True
    return False


def plain(v):
    """Enumeration members and one-value payload objects as plain values, containers as tuples"""
    if isinstance(v, EnumM) and I.is_int_enum(v.cls):
        return v.value
    if isinstance(v, EnumSym):
        return v.value
    if isinstance(v, Inst) and v.payload is not None:
        return plain(v.payload)
    if isinstance(v, BArr):
        return v.v
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, ListO) and not any(isinstance(x, LSeg) for x in v.items):
        return tuple(plain(x) for x in v.items)
    return v


SAMPLES = [1500]


def agree(a, b):
    """(True, None), (False, description) or (None, reason) on the current trace"""
    a, b = plain(a), plain(b)
    if isinstance(a, Opq) and isinstance(b, Opq) and a == b:
        return True, None               # the same value, whether or not it equals itself
    try:
        r = M.equal(a, b)
    except Gap as g:
        r = g
    if r is True:
        return True, None
    if isinstance(r, Cond):
        k = known(r)
        if k is True:
            return True, None
    try:
        d, info = witness.distinguish(R.facts, a, b, tries=SAMPLES[0])
    except (Gap, RecursionError) as g:
        return None, f"no comparison: {g}"
    if d:
        return False, info
    return None, f"not shown equal ({info} interpretations of the facts agree): {_short(a)} / {_short(b)}"


def feasible(tries=None):
    """An input description following the current trace, or None"""
    try:
        return witness.reachable(R.facts, tries=tries or SAMPLES[0])
    except (Gap, RecursionError):
        return None


# ------------------------------------------------------------------ report

class Ob:
    def __init__(self, name, rule):
        self.name, self.rule = name, rule
        self.status = None          # ok, undecided, violated
        self.detail = ""
        self.traces = 0
        self.done = None

    def dump(self):
        d = {"obligation": self.name, "status": self.status, "rule": self.rule}
        if self.traces:
            d["traces"] = self.traces
        if self.detail:
            d["detail"] = self.detail[:1200]
        return d


class Verdicts:
    """Verdicts of the traces of one obligation"""

    def __init__(self):
        self.traces = 0
        self.bad = []
        self.und = []

    def ok(self):
        self.traces += 1

    def undecided(self, why):
        self.traces += 1
        self.und.append(why)
        if len(self.und) >= 15 and not self.bad:
            raise Enough

    def bad_(self, where, msg, wit=None):
        self.traces += 1
        self.bad.append((where, msg, wit))
        if len(self.bad) >= 3:
            raise Enough

    def same(self, got, want, where, what):
        """Agreement of two values on the current trace"""
        r, info = agree(got, want)
        if r is True:
            self.ok()
        elif r is None:
            self.undecided(f"{what}: {info}")
        else:
            self.bad_(where, f"{what} differs from the specification", dict(info, derived=_short(plain(got), 300), required=_short(plain(want), 300)))
        return r

    def fail(self, where, msg, certain=False, extra=None):
        """The current trace breaks the rule; it counts when it can be followed"""
        w = feasible()
        if w is None and not certain:
            self.undecided(f"{msg} on a trace that could not be shown feasible: {[c for c in R.facts.log][:8]}")
            return
        wit = {"inputs": w, "trace": [f"{'' if t else 'not '}{c}" for c, t in R.facts.log][:20]}
        if extra:
            wit.update(extra)
        self.bad_(where, msg, wit)

    def outcomes(self, got, want, where, what, errors=("ValueError",)):
        """Same kind of outcome and same value; an error of the specification stands for the named classes"""
        if got[0] == "ret" and want[0] == "ret":
            return self.same(got[1], want[1], where, what)
        if got[0] == "exc" and want[0] == "exc":
            if is_exc(got[1], *errors):
                return self.ok()
            return self.fail(where, f"{what}: raises {exc_text(got[1])} instead of {'/'.join(errors)}")
        if got[0] == "exc":
            return self.fail(where, f"{what}: raises {exc_text(got[1])} where the specification requires a result", extra={"required": _short(want[1])})
        return self.fail(where, f"{what}: returns {_short(got[1])} where the specification requires {'/'.join(errors)}")


CUR = [None]
_explore = explore


class Warm(BaseException):
    """The earlier call has been made"""


WARM = [False]      # the earlier call of an obligation is being made
AGAIN = [None]      # the obligation whose calls are made a second time


class Silent(Verdicts):
    """No verdicts: the earlier call"""

    def undecided(self, why):
        pass

    def bad_(self, where, msg, wit=None):
        pass

    def fail(self, *a, **k):
        pass

    same = outcomes = fail


def outlives():
    """Whether a call of this trace changed something that exists since the package was imported"""
    return any(not (isinstance(o, ExtObj) and o.path == "log") for o, k in R.kept)


HISTORY = [False]   # objects that live on have been used before
HISTORY_OF = set()  # the classes of which an attribute with no known meaning was set


def used(o, exercise):
    """The object; after earlier use of it where what it keeps is not known"""
    if not HISTORY[0] or WARM[0] or not isinstance(o, Inst):
        return o
    HISTORY[0] = False
    saved = dict(I.SUMMARIES)
    cur, CUR[0] = CUR[0], Silent()
    try:
        n = len(R.effects)
        parts = [x for x in (o, *o.attrs.values()) if isinstance(x, Inst) and isinstance(x.cls, ClassO) and x.cls.name in WATCHED]

        def numbers():
            return {(id(x), k): a for x in parts for k, a in x.attrs.items() if k not in WATCHED[x.cls.name] and isinstance(a, (int, Lin)) and not isinstance(a, bool)}
        I.SUMMARIES.clear()
        first = numbers()
        exercise(o)
        second = numbers()
        if choose(2, "one or many earlier uses"):
            k = ivar("further earlier uses", 0)
            step = {}
            for x in parts:
                for a in x.attrs:
                    i = id(x), a
                    if i in second:
                        d = sub(second[i], first.get(i, 0)) if i in first else second[i]
                        if isinstance(d, int) and d:
                            step[i] = d
                            x.put(a, add(second[i], mul(k, d)))
            if not step:
                raise Infeasible()
            before = numbers()
            exercise(o)
            after = numbers()

            def even():
                return all(known(eq(sub(after.get(i, 0), before[i]), d)) is True for i, d in step.items())
            for bound in (65533, 253, 125):     # a counter may begin again
                if even():
                    break
                assume(ge(bound, k))
            if not even():
                raise Infeasible()      # does not count evenly
        del R.effects[n:]
        return o
    except PyRaise:
        raise Infeasible()
    finally:
        I.SUMMARIES.clear()
        I.SUMMARIES.update(saved)
        CUR[0] = cur
        HISTORY[0] = True


def after_earlier(fn, body):
    """The body of an obligation, after one earlier call of the same kind with other inputs"""
    def run():
        del R.kept[:]
        WARM[0], PREFIX[0], AGAIN[0] = True, "earlier ", None
        cur, CUR[0] = CUR[0], Silent()
        try:
            fn(CUR[0])
        except (Warm, PyRaise):
            pass
        finally:
            WARM[0], PREFIX[0] = False, ""
            CUR[0] = cur
        try:
            if not outlives():
                raise Infeasible()
            return body()
        finally:
            AGAIN[0] = fn
    return run


def explore(fn, *a, **k):
    """Traces of an obligation; a trace left by an exception has no verdict and counts as undecided"""
    if WARM[0]:
        fn()
        raise Warm
    if AGAIN[0] is not None:
        fn = after_earlier(AGAIN[0], fn)
    out = _explore(fn, *a, **k)
    for p in out:
        if p.kind == "exc" and CUR[0] is not None:
            CUR[0].undecided(f"the set-up of the obligation raises {exc_text(p.value)}")
    return out


FIX = [None]


def inp(kind, name, **kw):
    """An input text of unknown length and content (of one fixed length while refuting)"""
    if FIX[0] is not None and "len" not in kw:
        kw["len"] = FIX[0]
    return whole(src(kind, "in", name, *([FIX[0]] if FIX[0] is not None else []), **kw))


def ivar(name, lo=None, hi=None):
    return L(atom("in", name, lo=lo, hi=hi))


def funcs_of(f):
    while isinstance(f, (BoundM, StaticM, ClassM)):
        f = f.func if isinstance(f, BoundM) else f.f
    return f


class Tape(Obj):
    """A record kept by a model; undone with the trace that wrote it"""
    __slots__ = ("v",)

    def __init__(self, v=()):
        super().__init__()
        self.v = tuple(v)

    def get_raw(self, k):
        return self.v

    def put_raw(self, k, v):
        self.v = v

    def append(self, x):
        self.put(None, self.v + (x,))

    def set(self, x):
        self.put(None, (x,))

    def get(self):
        return self.v[-1] if self.v else None

    def take(self):
        x = self.v[0]
        self.put(None, self.v[1:])
        return x

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __getitem__(self, i):
        return self.v[i]

    def index(self, x):
        return self.v.index(x)


class Number(Obj):
    """A number kept by a model; undone with the trace that wrote it, generalised by loops"""
    __slots__ = ("v",)

    def __init__(self, v=0):
        super().__init__()
        self.v = v

    def get_raw(self, k):
        return self.v

    def put_raw(self, k, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.put(None, v)


class following:
    """Loops are followed exactly for up to n iterations instead of being summarised"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.saved = loops.FOLLOW[0]
        loops.FOLLOW[0] = self.n

    def __exit__(self, *a):
        loops.FOLLOW[0] = self.saved


class stubs:
    """Functions replaced by a model: {dotted path: fn(func, args, kwargs)}; a path that does not exist is not replaced"""

    def __init__(self, table):
        self.table = table

    def __enter__(self):
        self.saved = dict(I.SUMMARIES)
        for path, fn in self.table.items():
            f = funcs_of(maybe(path)) if isinstance(path, str) else funcs_of(path)
            if isinstance(f, FuncO):
                I.SUMMARIES[f.qual] = fn
        return self

    def __exit__(self, *a):
        I.SUMMARIES.clear()
        I.SUMMARIES.update(self.saved)


def one_of(label, *xs):
    """One of several outcomes: a value, an exception class to raise, or a thunk"""
    x = xs[choose(len(xs), label)]
    if isinstance(x, type) and issubclass(x, BaseException) or isinstance(x, ClassO) and "BaseException" in [getattr(k, "__name__", getattr(k, "name", "")) for k in mro_of(x)]:
        I.throw(x, label)
    return x() if callable(x) and not isinstance(x, Obj) else x


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.violations = []
        self.known = []
        self.notes = []
        self.functions = set()
        self.bounded = []
        self.t0 = time.time()
        self.assumptions = []
        self.explain = ""
        self.budget = 420
        self.known_list = load_known(pid)
        I.CALL_HOOKS.append(self._hook)

    def _hook(self, f, args, kw):
        if f.module and not f.module.startswith("spec"):
            self.functions.add(f.qual)

    def refute(self, fn, v, fix, end, again=False):
        """Where the general argument is open: look at inputs of a few fixed lengths, where loops are followed exactly"""
        for n in (40, *fix) if again else fix:
            left = end - time.time()
            if left <= 1:
                return
            w = CUR[0] = Verdicts()
            FIX[0] = n
            AGAIN[0] = fn if again else None
            try:
                with alarm(min(left, 40)):
                    fn(w)
            except Enough:
                pass
            except (Gap, TimeUp, Infeasible, NeedFork, PyRaise, Anchor) + ANALYSER:
                pass
            finally:
                FIX[0] = None
                AGAIN[0] = None
                WARM[0], PREFIX[0] = False, ""
                reset()
            v.traces += w.traces
            if w.bad:
                v.bad.extend(w.bad)
                return

    def ob(self, name, rule, fn, fix=(0, 1, 2, 3, 4, 5)):
        """One obligation: fn(v) records the verdicts of its traces"""
        o = Ob(name, rule)
        o.fn, o.fix = fn, fix
        self.obs.append(o)
        return o

    def run_ob(self, o, end, again=False, history=False):
        """The verdicts of an obligation; where its calls leave something behind that a later call can see, also those of
        a second call after an earlier one with other inputs"""
        v = CUR[0] = Verdicts()
        del R.kept[:]
        del R.private[:]
        AGAIN[0] = o.fn if again else None
        HISTORY[0] = history
        if not history:
            HISTORY_OF.clear()
        try:
            left = end - time.time()
            if left <= 1:
                raise TimeUp("time budget of the check used up")
            with alarm(min(left, PER_OB[0])):
                o.fn(v)
        except Enough:
            pass
        except Gap as g:
            v.und.append(f"analysis incomplete at {I.where()}: {g}")
        except TimeUp as t:
            v.und.append(str(t))
        except (Infeasible, NeedFork):
            v.und.append("analysis incomplete: decision outside exploration")
        except PyRaise as e:
            v.und.append(f"analysis incomplete: {exc_text(e.inst)}")
        except Anchor as a:
            v.und.append(f"anchor missing: {a}")
        except ANALYSER as e:
            v.und.append("analyser error: " + "".join(traceback.format_exception(e)[-3:])[:1500])
        finally:
            AGAIN[0] = None
            WARM[0], PREFIX[0] = False, ""
            HISTORY[0] = False
            left_behind = outlives()
            private = bool(R.private)
            HISTORY_OF.update(c for c, k in R.private)
            reset()
        if v.und and not v.bad and o.fix and not history:
            self.refute(o.fn, v, o.fix, end, again)
        if private and not again and not history and not v.bad and self.pid not in ("C26", "C27"):
            w = self.run_ob(o, end, False, True)
            v.traces += w.traces
            v.bad.extend(w.bad)
            v.und.extend("after earlier use: " + x for x in w.und)
        if left_behind and not again and not history and not v.bad and self.pid not in ("C26", "C27"):
            w = self.run_ob(o, end, True)
            v.traces += w.traces
            v.bad.extend(w.bad)
            v.und.extend("after an earlier call: " + x for x in w.und)
        return v

    def run(self):
        """All obligations, each in a forked child of its own"""
        end = self.t0 + self.budget
        todo = list(self.obs)
        if os.environ.get("VERIF_SERIAL"):
            for o in todo:
                v = self.run_ob(o, end)
                self.settle(o, {"traces": v.traces, "bad": v.bad, "und": v.und, "notes": [list(map(str, x)) for x in loops.NOTES],
                                "functions": []})
            return
        live = {}
        sel = selectors.DefaultSelector()
        while todo or live:
            while todo and len(live) < JOBS:
                o = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    code = 1
                    try:
                        v = self.run_ob(o, end)
                        d = {"traces": v.traces, "bad": v.bad, "und": v.und[:5], "functions": sorted(self.functions),
                             "notes": [list(map(str, x)) for x in loops.NOTES][:20]}
                        with os.fdopen(w, "w") as f:
                            json.dump(d, f, default=str)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = (o, pid, [])
                sel.register(r, selectors.EVENT_READ)
            for key, _ in sel.select(timeout=1):
                o, pid, buf = live[key.fd]
                x = os.read(key.fd, 1 << 16)
                if x:
                    buf.append(x)
                    continue
                sel.unregister(key.fd)
                os.close(key.fd)
                del live[key.fd]
                os.waitpid(pid, 0)
                try:
                    d = json.loads(b"".join(buf))
                except ValueError:
                    d = {"traces": 0, "bad": [], "und": ["the analysis of this obligation ended without a result"], "functions": [], "notes": []}
                self.settle(o, d)
            if time.time() > end + 45:
                for o, pid, _ in live.values():
                    os.kill(pid, signal.SIGKILL)

    def settle(self, o, d):
        o.traces = d["traces"]
        self.functions.update(d["functions"])
        for x in d["notes"]:
            if x not in self.bounded:
                self.bounded.append(x)
        o.done = d

    def conclude(self):
        for o in self.obs:
            d = o.done
            if d["bad"]:
                o.status = "violated"
                for w, m, wit in d["bad"]:
                    if not self.violate(o.name, o.rule, w, m, wit):
                        o.status = "known finding" if o.status != "really" else o.status
                    else:
                        o.status = "really"
                o.status = "violated" if o.status == "really" else o.status
                o.detail = f"{d['bad'][0][0]}: {d['bad'][0][1]}"
            elif d["und"]:
                o.status = "undecided"
                o.detail = d["und"][0]
            elif o.traces == 0:
                o.status = "undecided"
                o.detail = "nothing analysed"
            else:
                o.status = "ok"

    def violate(self, name, rule, where, msg, wit):
        for k in self.known_list:
            if k["match"] and all(m in f"{name} {where} {msg}" for m in k["match"]):
                if k["text"] not in self.known:
                    self.known.append(k["text"])
                return False
        self.violations.append({"obligation": name, "rule": rule, "construct": where, "message": msg, "witness": wit})
        return True

    # ---------------------------------------------------- end

    def finish(self):
        self.run()
        self.conclude()
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        n = {s: sum(1 for o in self.obs if o.status == s) for s in ("ok", "undecided", "violated", "known finding")}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {
            "property": self.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.explain,
                "obligations": len(self.obs), "discharged": n["ok"], "undecided": n["undecided"], "violated": n["violated"],
                "traces_partitioned": sum(o.traces for o in self.obs),
                "functions_analysed": sorted(self.functions),
                "modules_read": {m: p for m, p in sorted(I.LOADER.paths.items()) if not m.startswith("spec")},
                "loops_only_bounded": self.bounded[:20],
                "rules": [o.dump() for o in self.obs],
                "known_findings": self.known,
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.violations),
        }
        with open(os.path.join(HERE, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for o in self.obs:
            if os.environ.get("VERIF_VERBOSE") or o.status != "ok":
                print(f"{self.pid} {o.status}: {o.name} ({o.traces} traces) {o.detail[:600]}")
        print(f"{self.pid}: {len(self.obs)} obligations, {n['ok']} discharged, {n['undecided']} undecided, "
              f"{n['violated']} violated, {ev['coverage']['traces_partitioned']} traces, {ev['wall_s']} s")
        if self.violations:
            rp = os.path.join(HERE, "evidence", f"{self.pid}.violation.json")
            with open(rp, "w") as f:
                json.dump(self.violations, f, indent=1, default=str)
                f.write("\n")
            for v in self.violations[:10]:
                print(f"  {v['construct']}: {v['message']}")
                print(f"    rule: {v['rule']}")
                if v["witness"]:
                    print(f"    {_short(v['witness'], 600)}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if n["ok"] == 0 and not self.known:
            print(f"{self.pid}: nothing could be decided")
            if os.environ.get("VERIF_STRICT") or all(o.detail.startswith("anchor missing") for o in self.obs):
                return 2
        return 3 if n["undecided"] and os.environ.get("VERIF_STRICT") else 0


PER_OB = [90]


class alarm:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def hit(*a):
            raise TimeUp(f"time limit of {self.s:.0f} s")
        self.old = signal.signal(signal.SIGALRM, hit)
        signal.setitimer(signal.ITIMER_REAL, self.s, 1.0)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def reset():
    """Undo everything an obligation changed in the abstract heap"""
    rollback(0)
    R.effects = []
    R.facts = Facts()
    R.oracles = []
    R.counters = {}
    R.mark = fresh_serial()
    R.steps = 0
    R.unknown = R.at_load
    del I.STACK[:]
    del I.CUR_EXC[:]


def load_known(pid):
    """known-findings.txt: lines 'known: property=<id> match=<a>|<b> <text>'; 'fixed:' lines suppress nothing"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                head, _, text = line[6:].strip().partition(" :: ")
                f = dict(x.split("=", 1) for x in head.split(" ", 1)[:1] + head.split(" ", 1)[1:] if "=" in x)
                if f.get("property") == pid:
                    out.append({"match": f.get("match", "").strip().split("|"), "text": text})
    return out
