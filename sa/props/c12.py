"""C12: results stream lazily, with back-pressure, and without starving others"""
from __future__ import annotations

from .talk import *

N = 25_000  # rows of the long result
M = 3_000  # rows of the result that's used to look at back-pressure


class Long(Talk):
    """An application that returns a long result from a source that never suspends by itself"""

    app_outcomes = {}
    rows_fail = False
    encode_fails = False
    max_faults = 0
    max_steps = 10**9
    live = 0
    width = 100
    shape = "result"  # how the application returns its rows
    value = "text"
    fields = False

    def __init__(self, program):
        super().__init__(program)
        self.kmax = N
        self.max_loop = 10**9

    def start(self, path):
        super().start(path)
        path.data.update(pulled=0, secured=0, handed=0, yields=[], drains=[], unsure=None)

    # -- the application

    def make_result(self, path, o):
        r = super().make_result(path, "rows")
        rows = path.data["rows"]
        path.data["over"] = False
        if self.shape == "tuple":
            cols = r.attrs["columns"]
            return (rows, cols)
        if self.shape == "names":
            return (rows, AList([f"column {i}" for i in range(self.ncols)]))
        return r

    def decide(self, path, sym):
        d = path.data
        if d["phase"] == "commands":
            x = sym.args[0] if sym.args else None
            if sym.op == "isnone" and isinstance(x, Sym) and x.op in ("item", "elem"):
                return self.value == "null"
            if sym.op == "isinstance" and self.async_rows is not None and x in d.get("all_rows", ()):
                return self.async_rows
            if d.get("rows") is not None and not d.get("over"):
                known = sym.op in ("hasflag", "atom", "nonempty", "not") or sym.op == "isinstance"
                if sym.op == "cmp" and any(t.op == "len" for t in terms(sym)) and any(t in d.get("all_rows", ()) for t in terms(sym)):
                    # the end of the rows
                    return True
                if not known:
                    d["unsure"] = show(sym)
        return super().decide(path, sym)

    def iteration(self, path, src, i, node):
        d = path.data
        if src in d.get("all_rows", ()):
            d["pulled"] = i + 1
            d["ahead"] = max(d.get("ahead", 0), i + 1 - d.get("at_drain", 0))

    def exhausted(self, path, src, i, node):
        d = path.data
        if src in d.get("all_rows", ()):
            d["over"] = True
            d["yields"].append(("end", d["pulled"]))
            d["drains"].append(("end", d["pulled"], d["handed"]))

    def element(self, path, src, i):
        if src in path.data.get("all_rows", ()):
            return tuple(Sym("item", Sym("elem", src, i), j) for j in range(self.ncols))
        return super().element(path, src, i)

    def attr(self, path, o, name):
        if isinstance(o, Obj) and isinstance(o.cls, UClass) and o.cls.qual == "mysql_mimic.results.ResultColumn":
            if name in ("text_encode", "binary_encode", "text_encoder", "binary_encoder"):
                v = b"x" * self.width
                return Prim(name, lambda it, a, k, n: v)
        if isinstance(o, Obj) and o is path.data.get("writer"):
            if name == "write" or name == "writelines":
                return Prim(name, lambda it, a, k, n: self.socket_write(path, a[0]))
            if name == "drain":
                return Prim(name, lambda it, a, k, n: Coro(lambda: self.socket_drain(path, n), None))
        return super().attr(path, o, name)

    def call(self, path, f, args, kwargs, node):
        d = path.data
        if isinstance(f, Func) and f.owner is None and f.qual.startswith("mysql_mimic.packets.make_") and d.get("rows") is not None and (not d["pulled"] or d.get("over")):
            return b"packet"
        if self.fields and isinstance(f, Func) and f.owner is None and f.name == "make_column_definition_41" and d.get("rows") is not None:
            # its names are as long as a value of a row
            return b"x" * self.width
        return super().call(path, f, args, kwargs, node)

    # -- the socket

    def make(self, path, **kw):
        it = self.it
        w = Obj(ExtClass("asyncio.StreamWriter"), {}, "writer", True)
        r = Obj(ExtClass("asyncio.StreamReader"), {}, "reader", True)
        path.data.update(writer=w, reader=r)
        stream = it.call(self.stream_cls, [r, w], {}, None)
        conn = super().make(path, stream=stream, **kw)
        path.data["stream"] = stream
        return conn

    def stream_call(self, path, name, f, args, kwargs, node):
        d = path.data
        if name == "read" or d["phase"] == "handshake" or d.get("rows") is None:
            return super().stream_call(path, name, f, args, kwargs, node)
        return NotImplemented

    def socket_write(self, path, data):
        d = path.data
        n = self.it.length(data)
        n = path.resolve(n)
        if not isinstance(n, int):
            d["unsure"] = f"size of {show(data)[:60]}"
            n = 0
        d["handed"] += n

    def socket_drain(self, path, node):
        d = path.data
        d["secured"] = d["handed"]
        d["drains"].append(("drain", d["pulled"], d["handed"]))
        self.it.suspend(("drain",), node)

    def suspend(self, path, what, node):
        d = path.data
        if what[0] == "sleep":
            d["yields"].append(("yield", d["pulled"]))
        elif what[0] == "await":
            d["yields"].append(("yield", d["pulled"]))
            d["unsure"] = f"await of {show(what[1])[:60] if len(what) > 1 and isinstance(what[1], AV) else what}"


# (name, commands, use_cursor)
WAYS = [("text protocol", [QUERY], False), ("binary protocol", [PREPARE, EXECUTE], False), ("cursor fetch", [PREPARE, EXECUTE, FETCH], True), ("field list", [FIELD_LIST], False)]


def check(rep):
    p = Program()
    rep.rule("lazy.ahead", "rows are taken from the source as the socket accepts them: between two waits for the socket, only a bounded number of rows is taken beyond what it was given")
    rep.rule("lazy.fair", "while rows are streamed from a source that never suspends, the event loop gets its turn after a bounded number of rows")
    rep.rule("lazy.peek", "the rows that are read ahead to infer column types are bounded")
    rep.rule("lazy.pass", "the row source isn't read before the response is written")
    rep.assumptions.append(f"results of {N} (fairness) and {M} (back-pressure) rows stand for arbitrarily long ones")
    for way in WAYS:
        rep.section(fair, rep, p, way)
        for width in (1, 100, 40_000) if rep.thorough else (100, 40_000):
            rep.section(ahead, rep, p, way, width)
    rep.section(peek, rep, p)


def stream(rep, p, way, env, name, each):
    wname, cmds, cursor = way

    def run(path):
        path.data.update(caps_on=0, use_cursor=cursor, num_rows=2**31, ncols=env.ncols)
        return env.run(path, cmds)

    def outer(res):
        if res.status == "budget":
            return
        each(res)

    rep.explore(p, env, run, name, max_paths=3, budget_s=200, each=outer)


def gaps(seq, n):
    """Distances between events, and the rest after the last one"""
    last, out = 0, []
    for x in seq:
        out.append(x - last)
        last = x
    return out, n - last


def fair(rep, p, way):
    for asy in (True, False):
        site = way[0] + (", async rows" if asy else ", sync rows")
        if not asy and not rep.thorough and way[0] != "text protocol":
            continue

        def each(res):
            d = res.path.data
            if res.status == "undecided" or not d.get("rows"):
                rep.ob("lazy.fair", site, None, res.reason or "no rows are streamed")
                return
            y = [n for k, n in d["yields"] if k == "yield" and 0 < n < N]
            if d["pulled"] < N:
                rep.ob("lazy.fair", site, None, f"only {d['pulled']} rows are streamed")
                return
            closed, rest = gaps(y, N)
            worst = max(closed or [0])
            ok = bool(y) and rest <= worst + 1
            if not ok and d["unsure"]:
                ok = None
            rep.ob("lazy.fair", site, ok, f"the event loop doesn't get a turn during {max(rest, worst)} rows" + (f" (it did every {worst} rows at first)" if y else ""), path=res.path) if ok is not None else rep.ob("lazy.fair", site, None, d["unsure"])

        e = Quick(p)
        e.async_rows = asy
        if FIELD_LIST in way[1]:
            e.ncols, e.fields = 6, True
        stream(rep, p, way, e, f"fairness: {site}", each)


class Quick(Long):
    """The stream and the packets aren't looked at"""

    ncols = 1

    def stream_call(self, path, name, f, args, kwargs, node):
        return Talk.stream_call(self, path, name, f, args, kwargs, node)

    def call(self, path, f, args, kwargs, node):
        d = path.data
        if isinstance(f, Func) and f.owner is None and f.qual.startswith("mysql_mimic.packets.make_") and d.get("pulled"):
            return b"row"
        return super().call(path, f, args, kwargs, node)


def ahead(rep, p, way, width):
    env = Long(p)
    env.kmax = M if width > 1 else 4 * M
    env.width = width
    n = env.kmax
    for asy in (True, False):
        if not asy and (width != 100 or way[0] != "text protocol"):
            continue
        env.async_rows = asy
        if FIELD_LIST in way[1]:
            env.ncols, env.fields = 6, True
        site = f"{way[0]}, rows of {width} bytes" + ("" if asy else " (sync)")

        def each(res):
            d = res.path.data
            if res.status == "undecided" or not d.get("rows") or d["pulled"] < n:
                rep.ob("lazy.ahead", site, None, res.reason or f"only {d['pulled']} rows are streamed")
                return
            total = d["drains"][-1][2] if d["drains"] else 0
            end = next((i for i, x in enumerate(d["drains"]) if x[0] == "end"), None)
            size = width + 4  # at least
            worst = 0
            secured = 0
            for k, pulled, handed in d["drains"]:
                worst = max(worst, pulled - secured // size)
                secured = handed
            ok = worst < n // 2
            if not ok and d["unsure"]:
                ok = None
            rep.ob("lazy.ahead", site, ok, f"{worst} of {n} rows are taken from the source before the server waits for the socket to accept them", path=res.path)

        stream(rep, p, way, env, f"back-pressure: {site}", each)


def peek(rep, p):
    """The first row may come late, but not after the whole result was read"""
    for value in ("null", "text"):
        env = Quick(p)
        env.kmax = 6_000
        env.shape = "names"
        env.value = value
        env.async_rows = True
        site = "columns to infer, " + ("all NULL" if value == "null" else "no NULL")

        def each(res):
            d = res.path.data
            if res.status == "undecided" or not d.get("rows") or not d["pulled"]:
                rep.ob("lazy.peek", site, None, res.reason or "no rows are read")
                return
            n = d.get("before_response")
            ok = None if n is None else n < env.kmax
            if d["unsure"] and not ok:
                ok = None
            rep.ob("lazy.peek", site, ok, f"all of the {n} rows are read before the response begins", path=res.path)

        env.wrote = lambda path, data, drain, node: path.data.setdefault("before_response", path.data["pulled"]) if path.data.get("rows") is not None else None
        stream(rep, p, WAYS[0], env, f"type inference: {site}", each)
