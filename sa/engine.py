"""Path-sensitive abstract interpreter for the (parsed, never imported) source of mysql_mimic.

One *path* is one resolution of the undecided branches; `explore` enumerates them (trace
partitioning) up to a budget.  A path state is: the abstract heap, the facts learned from branches
(truth of terms, class membership, equalities and integer intervals) and the trace of events.
"""
from __future__ import annotations

import ast
import heapq
import os
import time

from .values import *
from .values import _ck

REPO = os.environ.get("SA_REPO", "/repo")
INF = float("inf")

# A check that takes longer than this stops, and leaves the rest undecided
LIMIT = time.time() + float(os.environ.get("SA_LIMIT", "720"))


# --------------------------------------------------------------------------- program


class Program:
    """All modules of the package, parsed from the working tree"""

    def __init__(self, root=None, package="mysql_mimic", sqlglot=False):
        self.root = root or REPO
        self.package = package
        self.trees = {}
        self.files = {}
        self.mods = {}
        base = os.path.join(self.root, package)
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    self.trees[rel] = ast.parse(src, p)
                    self.files[rel] = os.path.relpath(p, self.root)
        if not self.trees:
            raise SystemExit("no source found in " + base)
        self._gen_cache = {}
        self.shared = {}
        self.path = None
        from . import models

        self.models = models
        self.interp = Interp(self)
        models.LIBS.clear()
        if sqlglot:
            from . import sqlg

            sqlg.install(self)
        loader = Path(self, Client())
        loader.loading = True
        self.path = loader
        for name in list(self.trees):
            self.load(name)
        self.path = None
        self._mark_shared()

    def load(self, name):
        m = self.mods.get(name)
        if m is None:
            m = self.mods[name] = Mod(name)
            m.ns["__name__"] = name
            m.file = self.files[name]
            fr = Frame(m, None, None)
            fr.locals = m.ns
            fr.is_module = True
            g = self.interp.exec_block(self.trees[name].body, fr)
            try:
                for _ in g:
                    pass
            except Raise as r:
                raise Undecided(f"module {name} raises {r.value!r}") from r
            m.loaded = True
        return m

    def load_text(self, name, text):
        """A module that isn't part of the package: the application around it, in the words of a check"""
        if name not in self.mods:
            self.trees[name] = ast.parse(text)
            self.files[name] = name
            p, self.path = self.path, Path(self, Client())
            self.path.loading = True
            try:
                self.load(name)
            finally:
                self.path = p
        return self.mods[name].ns

    def _mark_shared(self):
        """Objects that exist once per process"""
        seen = {}

        def go(v, why):
            if id(v) in seen or not isinstance(v, AV):
                if isinstance(v, tuple):
                    for x in v:
                        go(x, why)
                return
            if isinstance(v, (Sym, EnumV, Ext, ExtClass, Prim)):
                return
            seen[id(v)] = (v, why)
            if isinstance(v, AList):
                for x in v.items:
                    go(x, why)
            elif isinstance(v, ADict):
                for k, x in v.d.items():
                    go(k, why)
                    go(x, why)
            elif isinstance(v, Obj):
                for x in v.attrs.values():
                    go(x, why)
            elif isinstance(v, UClass):
                for k, x in v.ns.items():
                    go(x, f"{v.qual}.{k}")
            elif isinstance(v, Func):
                for x in list(v.defaults) + list(v.kw_defaults.values()):
                    go(x, f"default argument of {v.qual}")
            elif isinstance(v, Bound):
                go(v.self_, why)

        for m in self.mods.values():
            if m.name.startswith(self.package):
                for k, v in m.ns.items():
                    go(v, f"{m.name}.{k}")
        self.shared = seen

    def find(self, qual):
        """Look up 'mysql_mimic.stream.MysqlStream.read' (through re-exports)"""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            m = self.mods.get(".".join(parts[:i]))
            if m is not None:
                v = m
                for p in parts[i:]:
                    if isinstance(v, Mod):
                        v = v.ns.get(p)
                    elif isinstance(v, UClass):
                        v = v.lookup(p)[0]
                    else:
                        return None
                    if v is None:
                        return None
                return v
        return None

    def need(self, qual):
        v = self.find(qual)
        if v is None:
            raise MissingEntry(qual)
        return v


class MissingEntry(Exception):
    pass


class Frame:
    __slots__ = ("module", "func", "parent", "locals", "globals_", "nonlocals", "is_module", "yields", "cls", "exc", "line", "self_cls")

    def __init__(self, module, func, parent):
        self.module, self.func, self.parent = module, func, parent
        self.locals = {}
        self.globals_ = self.nonlocals = ()
        self.is_module = False
        self.yields = None
        self.cls = None
        self.exc = None
        self.self_cls = None
        self.line = 0


# --------------------------------------------------------------------------- paths


class Client:
    """Hooks of a check.  Every method may be overridden."""

    kmax = 2
    max_loop = 40
    max_steps = 200_000
    max_depth = 60
    host_values = False  # may dates, durations and decimals be known values?
    order = "dfs"

    def start(self, path):
        pass

    def decide(self, path, sym):
        return None

    def call(self, path, func, args, kwargs, node):
        return NotImplemented

    def attr(self, path, obj, name):
        return NotImplemented

    def call_unknown(self, path, callee, args, kwargs, node):
        return NotImplemented

    def suspend(self, path, what, node):
        pass

    def event(self, path, kind, info):
        pass

    def set_attr(self, path, obj, name, value, node):
        pass

    def await_unknown(self, path, value, node):
        return NotImplemented

    def pure(self, path, o, name, args, kwargs, node):
        """A method of a string, byte string or number"""
        return NotImplemented

    split_slices = False

    def iteration(self, path, src, i, node):
        """An item of an unknown sequence is about to be taken"""

    def exhausted(self, path, src, i, node):
        pass

    def element(self, path, src, i):
        return Sym("elem", src, i)

    def pull(self, path, src, i, node):
        """Another item of an unknown async iterable is asked for"""

    def enum_value(self, path, cls, v, node):
        return NotImplemented

    def enum_name(self, path, cls, v, node):
        return NotImplemented

    def item(self, path, o, k, node):
        return NotImplemented

    def dict_lookup(self, path, d, k, cands, node):
        return NotImplemented

    def unpack(self, path, v, n):
        return NotImplemented

    def yielded(self, path, frame, v, node):
        pass

    def loop(self, path, frame, node, n):
        pass

    def loop_limit(self, path, frame, node):
        return self.max_loop

    def broke(self, path, src, node):
        pass

    def handled(self, path, exc, handler, frame):
        pass

    def short_read(self, path, reader, data, pos, count, value, node):
        """Does the data end where BytesIO reads from?"""
        return None

    def unpack_size(self, path, data, size, node):
        """Does the data have the size that struct.unpack() needs?"""
        return None


class Path:
    def __init__(self, program, client, script=()):
        self.program, self.client = program, client
        self.script = list(script)
        self.pos = 0
        self.decisions = []  # (n, chosen, label)
        self.truths = {}
        self.classes = {}  # sym -> (yes, no)
        self.eqs = {}  # sym -> const
        self.neqs = {}
        self.ranges = {}
        self.trace = []
        self.steps = 0
        self.stack = []
        self.serial = 0
        self.loading = False
        self.undo = {}
        self.violations = []
        self.tasks = []
        self.data = {}
        self.forked = False

    # -- decisions
    def choose(self, n, label=""):
        if n <= 1:
            return 0
        if self.loading:
            raise Undecided("undecided while loading: %s" % (label,))
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
        self.pos += 1
        self.decisions.append((n, c, label))
        return c

    def fresh(self):
        self.serial += 1
        return self.serial

    def where(self):
        """Innermost program location"""
        for fr in reversed(self.stack):
            return loc(fr)
        # after the fact: where something happened last
        for _, info in reversed(self.trace):
            if info.get("where", "?") != "?":
                return info["where"]
        return "?"

    def callers(self):
        return [loc(fr) for fr in self.stack]

    def func(self):
        for fr in reversed(self.stack):
            if fr.func is not None:
                return fr.func.qual
        return "?"

    def emit(self, kind, **info):
        info["where"] = self.where()
        info["func"] = self.func()
        self.trace.append((kind, info))
        self.client.event(self, kind, info)

    def violation(self, rule, message, where=None, func=None, **more):
        self.violations.append(
            dict(
                rule=rule,
                message=message,
                where=where or self.where(),
                func=func or self.func(),
                stack=self.callers(),
                decisions=[f"{show_label(l)} -> {c}" for _, c, l in self.decisions],
                **more,
            )
        )

    # -- writes
    def mutate(self, obj, node=None, what=""):
        sh = self.program.shared.get(id(obj))
        if sh is not None and not self.loading:
            if id(obj) not in self.undo:
                self.undo[id(obj)] = (obj, _snapshot(obj))
            self.emit("shared_write", obj=obj, name=sh[1], what=what)

    def rollback(self):
        for obj, snap in self.undo.values():
            _restore(obj, snap)
        self.undo = {}

    # -- facts
    def interval(self, s):
        if isinstance(s, EnumV):
            s = s.value
        if isinstance(s, (int, float)) and not isinstance(s, bool):
            return (s, s)
        if isinstance(s, bool):
            return (int(s), int(s))
        if isinstance(s, Sym):
            if s in self.eqs and isinstance(self.eqs[s], (int, float)):
                return (self.eqs[s], self.eqs[s])
            lo, hi = self.ranges.get(s, (-INF, INF))
            if s.op == "len":
                lo, hi = max(lo, 0), min(hi, 2**63 - 1)
            elif s.op == "uint":
                lo, hi = max(lo, 0), min(hi, s.args[0])
            elif s.op == "byte" or s.op == "item" and isinstance(s.args[0], Sym) and s.args[0].ty == "bytes":
                lo, hi = max(lo, 0), min(hi, 255)
            elif s.op == "unle":
                n, signed = s.args[0], s.args[1]
                if signed:
                    lo, hi = max(lo, -(256**n // 2)), min(hi, 256**n // 2 - 1)
                else:
                    lo, hi = max(lo, 0), min(hi, 256**n - 1)
            elif s.op == "+":
                a, b = self.interval(s.args[0]), self.interval(s.args[1])
                lo, hi = max(lo, a[0] + b[0]), min(hi, a[1] + b[1])
            elif s.op == "-":
                a, b = self.interval(s.args[0]), self.interval(s.args[1])
                lo, hi = max(lo, a[0] - b[1]), min(hi, a[1] - b[0])
            elif s.op == "*":
                a, b = self.interval(s.args[0]), self.interval(s.args[1])
                ps = [x * y for x in a for y in b if not (x in (INF, -INF) and y == 0 or y in (INF, -INF) and x == 0)]
                if len(ps) == 4:
                    lo, hi = max(lo, min(ps)), min(hi, max(ps))
            elif s.op == "//" and isinstance(s.args[1], int) and s.args[1] > 0:
                a = self.interval(s.args[0])
                f = lambda x: x if x in (INF, -INF) else x // s.args[1]
                lo, hi = max(lo, f(a[0])), min(hi, f(a[1]))
            elif s.op == "%" and isinstance(s.args[1], int) and s.args[1] > 0:
                lo, hi = max(lo, 0), min(hi, s.args[1] - 1)
            elif s.op == ">>" and isinstance(s.args[1], int):
                a = self.interval(s.args[0])
                f = lambda x: x if x in (INF, -INF) else int(x) >> s.args[1]
                lo, hi = max(lo, f(a[0])), min(hi, f(a[1]))
            elif s.op == "&":
                for x, y in (s.args, s.args[::-1]):
                    if isinstance(x, int) and x >= 0:
                        lo, hi = max(lo, 0), min(hi, x)
            return (lo, hi)
        return (-INF, INF)

    def set_interval(self, s, lo, hi):
        if not isinstance(s, Sym):
            return
        if s.op == "+" and isinstance(s.args[1], int):
            return self.set_interval(s.args[0], lo - s.args[1], hi - s.args[1])
        if s.op == "+" and isinstance(s.args[0], int):
            return self.set_interval(s.args[1], lo - s.args[0], hi - s.args[0])
        if s.op == "-" and isinstance(s.args[1], int):
            return self.set_interval(s.args[0], lo + s.args[1], hi + s.args[1])
        l, h = self.ranges.get(s, (-INF, INF))
        self.ranges[s] = (max(l, lo), min(h, hi))
        if s.op in (">>", "//") and isinstance(s.args[1], int) and s.args[1] > 0 and isinstance(s.args[0], Sym):
            n = 1 << s.args[1] if s.op == ">>" else s.args[1]
            lo, hi = self.ranges[s]
            self.set_interval(s.args[0], lo if lo == -INF else lo * n, hi if hi == INF else hi * n + n - 1)

    def known(self, s):
        """Truth of a term, if the facts decide it"""
        if s in self.truths:
            return self.truths[s]
        op = s.op
        if op == "not":
            t = self.known(s.args[0])
            return None if t is None else not t
        if op == "cmp":
            o, a, b = s.args
            return self.known_cmp(o, a, b)
        if op == "isnone":
            x = s.args[0]
            if x in self.eqs:
                return self.eqs[x] is None
            if x in self.classes and self.classes[x][0]:
                return False
            if self.truths.get(x) is True:
                return False
            if x.ty in ("str", "bytes", "int", "bool", "float", "obj"):
                return False
            return None
        if op == "isinstance":
            return self.known_inst(*s.args)
        if op in ("and", "or"):
            ks = [self.known(x) for x in s.args]
            short = op == "or"
            if any(k is short for k in ks):
                return short
            if all(k is (not short) for k in ks):
                return not short
            return None
        if op == "oneof":
            rs = [self.known_cmp("==", s.args[0], y) for y in s.args[1]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if s in self.eqs:
            v = self.eqs[s]
            return bool(v) if not isinstance(v, AV) else None
        if op == "cat":
            if any(isinstance(p, (str, bytes)) and p for p in s.args):
                return True
        if op in ("lenenc", "lenstr", "le"):
            return True
        if s.ty == "int" or op in ("len", "uint", "+", "-", "&", "//", "%", ">>"):
            lo, hi = self.interval(s)
            if lo > 0 or hi < 0:
                return True
            if lo == hi == 0:
                return False
        if s.ty == "obj":
            return True
        if s in self.truths:
            return self.truths[s]
        n = Sym("isnone", s)
        if self.truths.get(n):
            return False
        l = Sym("len", s)
        if l in self.ranges or l in self.eqs:
            lo, hi = self.interval(l)
            if lo > 0:
                return True
            if hi == 0:
                return False
        if op in ("slice", "cat") and s.ty in ("bytes", "str"):
            l = self.program.interp.length(s)
            lo, hi = self.interval(l) if isinstance(l, Sym) else (l, l)
            if lo > 0:
                return True
            if hi == 0:
                return False
        return None

    def known_cmp(self, o, a, b):
        s = Sym("cmp", o, a, b)
        if s in self.truths:
            return self.truths[s]
        if o == "==":
            s2 = Sym("cmp", "==", b, a)
            if s2 in self.truths:
                return self.truths[s2]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and not isinstance(y, Sym):
                    if x in self.eqs:
                        return const_eq(self.eqs[x], y)
                    if any(const_eq(n, y) for n in self.neqs.get(x, ())):
                        return False
                    if y is None and self.known(Sym("isnone", x)) is False:
                        return False
                    if x.ty in ("str", "bytes", "int") and is_const(y) and not isinstance(y, tuple):
                        t = {"str": str, "bytes": bytes, "int": (int, float)}[x.ty]
                        if not isinstance(y, t):
                            return False
                    if isinstance(y, (str, bytes)):
                        lo, hi = self.interval(Sym("len", x))
                        if not lo <= len(y) <= hi:
                            return False
                        if self.truths.get(x) is True and not y:
                            return False
                        if self.truths.get(x) is False and y:
                            return False
                    if isinstance(x, Sym) and x.op == "cat" and isinstance(y, (bytes, str)) and x.args:
                        p = x.args[0]
                        if isinstance(p, type(y)) and not y.startswith(p):
                            return False
            ia, ib = self.interval(a), self.interval(b)
            if ia[1] < ib[0] or ib[1] < ia[0]:
                return False
            if ia[0] == ia[1] == ib[0] == ib[1] and ia[0] not in (INF, -INF):
                return True
            return None
        if o == "<":
            ia, ib = self.interval(a), self.interval(b)
            if ia[1] < ib[0]:
                return True
            if ia[0] >= ib[1]:
                return False
            s2 = Sym("cmp", "<", b, a)
            if self.truths.get(s2):
                return False
            return None
        return None

    def known_inst(self, x, t):
        it = self.program.interp
        yes, no = self.classes.get(x, ((), ()))
        if x in self.eqs and self.eqs[x] is None:
            return t is type(None)
        for y in yes:
            if it.subclass(y, t):
                return True
        for n in no:
            if it.subclass(t, n):
                return False
        if x.ty in ("str", "bytes", "int", "bool", "float"):
            host = {"str": str, "bytes": bytes, "int": int, "bool": bool, "float": float}[x.ty]
            if isinstance(t, type):
                if issubclass(host, t):
                    return True
                if host is int and t is bool:
                    return None
                return False
            if isinstance(t, (UClass, ExtClass)):
                return False
        for y in yes:
            if it.unrelated(y, t):
                return False
        return None

    def assume(self, s, truth):
        """Learn the truth of a term"""
        self.truths[s] = truth
        op = s.op
        if op == "not":
            self.assume(s.args[0], not truth)
        elif op == "cmp":
            o, a, b = s.args
            if o == "==":
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Sym) and not isinstance(y, Sym):
                        if truth:
                            self.eqs[x] = y
                            if isinstance(y, int):
                                self.set_interval(x, y, y)
                            if isinstance(y, (bytes, str)):
                                self.set_interval(Sym("len", x), len(y), len(y))
                        else:
                            self.neqs.setdefault(x, []).append(y)
                            if isinstance(y, int):
                                lo, hi = self.interval(x)
                                if lo == y:
                                    self.set_interval(x, y + 1, hi)
                                elif hi == y:
                                    self.set_interval(x, lo, y - 1)
                            if isinstance(y, (bytes, str)) and not y:
                                self.set_interval(Sym("len", x), 1, INF)
            elif o == "<":
                ia, ib = self.interval(a), self.interval(b)
                if truth:
                    if ib[1] != INF:
                        self.set_interval(a, -INF, ib[1] - 1)
                    if ia[0] != -INF:
                        self.set_interval(b, ia[0] + 1, INF)
                else:
                    if ib[0] != -INF:
                        self.set_interval(a, ib[0], INF)
                    if ia[1] != INF:
                        self.set_interval(b, -INF, ia[1])
        elif op == "oneof":
            if not truth:
                for y in s.args[1]:
                    self.neqs.setdefault(s.args[0], []).append(y)
        elif op == "isnone":
            if truth:
                self.eqs[s.args[0]] = None
        elif op == "isinstance":
            x, t = s.args
            yes, no = self.classes.get(x, ((), ()))
            if truth:
                self.classes[x] = (yes + (t,), no)
            else:
                self.classes[x] = (yes, no + (t,))
        else:
            if truth is True:
                if s.ty in ("bytes", "str") or s.op in ("cat",):
                    self.set_interval(Sym("len", s), 1, INF)
                elif s.ty == "int" and self.interval(s)[0] == 0:
                    self.set_interval(s, 1, INF)
            elif truth is False:
                if s.ty in ("bytes", "str"):
                    self.eqs[s] = b"" if s.ty == "bytes" else ""
                    self.set_interval(Sym("len", s), 0, 0)
                elif s.ty == "int":
                    self.eqs[s] = 0
                    self.set_interval(s, 0, 0)

    def decide(self, s) -> bool:
        t = self.known(s)
        if t is None and s.op == "and":
            t = all(self.decide(x) for x in s.args)
            self.truths[s] = t
            return t
        if t is None and s.op == "or":
            t = any(self.decide(x) for x in s.args)
            self.truths[s] = t
            return t
        if t is None:
            t = self.client.decide(self, s)
            if t is None:
                if s.op == "not":
                    return not self.decide(s.args[0])
                t = self.choose(2, s) == 0
            self.assume(s, t)
        return t

    def resolve(self, v):
        """Replace a term by the constant it's known to be equal to"""
        if isinstance(v, Sym) and v in self.eqs:
            return self.eqs[v]
        return v


def const_eq(a, b):
    try:
        return bool(a == b) and (isinstance(a, bool) == isinstance(b, bool) or True)
    except Exception:  # pylint: disable=broad-except
        return a is b


def show_label(l):
    return show(l) if isinstance(l, AV) else str(l)


def loc(fr):
    f = fr.module.file if fr.module else "?"
    q = fr.func.qual.split(".", 2)[-1] if fr.func is not None else "<module>"
    return f"{f}:{fr.line} ({q})"


def _snapshot(o):
    if isinstance(o, AList):
        return list(o.items)
    if isinstance(o, ASet):
        return list(o.items)
    if isinstance(o, ADict):
        return (dict(o.d), o.open)
    if isinstance(o, ABuf):
        return list(o.parts)
    if isinstance(o, Obj):
        return dict(o.attrs)
    if isinstance(o, UClass):
        return dict(o.ns)
    if isinstance(o, Mod):
        return dict(o.ns)
    if isinstance(o, Func):
        return dict(o.attrs)
    return None


def _restore(o, s):
    if isinstance(o, (AList, ASet)):
        o.items = s
    elif isinstance(o, ADict):
        o.d, o.open = s
    elif isinstance(o, ABuf):
        o.parts = s
    elif isinstance(o, Obj):
        o.attrs = s
    elif isinstance(o, (UClass, Mod)):
        o.ns.clear()
        o.ns.update(s)
    elif isinstance(o, Func):
        o.attrs = s


class Result:
    """Outcome of one path"""

    __slots__ = ("path", "status", "value", "exc", "reason")

    def __init__(self, path, status, value=None, exc=None, reason=None):
        self.path, self.status, self.value, self.exc, self.reason = path, status, value, exc, reason


def explore(program, client, run, max_paths=4000, deadline=None):
    """Enumerate the abstract paths of run(path).  Yields a Result per path."""
    script = []
    heap = []
    n = 0
    while True:
        path = Path(program, client, script)
        program.path = path
        client.start(path)
        try:
            value = run(path)
            res = Result(path, "ok", value)
        except Raise as r:
            res = Result(path, "raise", exc=r)
        except Cut as c:
            res = Result(path, "cut", reason=str(c))
        except Stop as c:
            res = Result(path, "stop", reason=str(c))
        except Undecided as u:
            res = Result(path, "undecided", reason=str(u))
        except RecursionError:
            res = Result(path, "undecided", reason="recursion")
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, NotImplementedError, AssertionError) as e:
            if os.environ.get("SA_DEBUG"):
                raise
            res = Result(path, "undecided", reason=f"analyser: {type(e).__name__}: {e}")
        finally:
            path.rollback()
            program.path = None
        n += 1
        yield res
        dec = path.decisions
        if client.order == "few":
            # the paths with the fewest unusual turns come first
            base = sum(1 for _, c, _ in dec[: len(script)] if c)
            pre = [c for _, c, _ in dec]
            for i in range(len(script), len(dec)):
                for c in range(1, dec[i][0]):
                    heapq.heappush(heap, (base + 1, len(heap) + n * 1000, i, pre[:i] + [c]))
            if not heap:
                return
            script = heapq.heappop(heap)[3]
            if n >= max_paths or time.time() > (deadline or LIMIT) or time.time() > LIMIT:
                yield Result(path, "budget", reason=f"{n} paths, {len(heap)} left")
                return
            continue
        i = len(dec) - 1
        while i >= 0 and dec[i][1] + 1 >= dec[i][0]:
            i -= 1
        if i < 0:
            return
        script = [c for _, c, _ in dec[:i]] + [dec[i][1] + 1]
        if n >= max_paths or time.time() > (deadline or LIMIT) or time.time() > LIMIT:
            yield Result(path, "budget", reason=f"{n} paths")
            return


from .interp import Interp  # noqa: E402  pylint: disable=wrong-import-position
