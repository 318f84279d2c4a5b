"""C11: server-side cursors deliver every row exactly once, in order"""
from __future__ import annotations

from .c03 import *


class Cursor(Lockstep):
    kmax = 3
    max_loop = 12
    ncols = 1
    app_outcomes = {"handle_query": ("ok",), "reset": ("ok",), "use": ("ok",), "init": ("ok",), "close": ("ok",)}
    results = ("rows",)
    rows_fail = False
    encode_fails = False
    max_faults = 0

    def __init__(self, program, rep):
        super().__init__(program, rep)

    def start(self, path):
        super().start(path)
        path.data.update(ids=[], cursors={}, script=[])

    # `script`: (command, statement, options)

    def command(self, path, cmd):
        d = path.data
        r = d.get("reply")
        super().command(path, cmd)
        self.after(path, r)
        d["op"] = d["script"][d["i"]] if cmd is not None else None
        if cmd is not None:
            d["calm"] = True
            o = d["op"]
            d["row_mark"] = len(path.trace)
            d["cur_fail"] = o[2].get("fail") if len(o) > 2 else None

    def calm_decide(self, path, sym):
        if sym.op == "cmp" and not any(x.op == "len" for x in terms(sym) if x is not sym):
            return None
        if sym.op == "eq":
            return None
        if sym.op == "isnone":
            return False
        return super().calm_decide(path, sym)

    def decide(self, path, sym):
        if path.data["phase"] != "handshake" and sym.op == "isnone" and isinstance(sym.args[0], Sym) and sym.args[0].op in ("item", "elem"):
            return False
        return super().decide(path, sym)

    def stmt_id(self, path):
        d = path.data
        o = d.get("op")
        if o is None or d.get("cmd") == PREPARE:
            return super().stmt_id(path)
        s = o[1]
        if isinstance(s, tuple):
            # an id that's unknown, but looks similar
            return self.it.binop("+", d["ids"][s[0]], s[1]) if len(d["ids"]) > s[0] else Sym("atom", "unknown id", ty="int")
        if s == "unknown" or s >= len(d["ids"]):
            x = Sym("atom", "unknown id", ty="int")
            for i in d["ids"]:
                c = self.it.eq(x, i)
                if isinstance(c, Sym):
                    path.assume(c, False)
            return x
        return d["ids"][s]

    def field(self, path, o, n):
        op = path.data.get("op")
        if op is None:
            return
        opts = op[2] if len(op) > 2 else {}
        if n == "use_cursor":
            o.attrs[n] = opts.get("cursor", True)
        if n == "num_rows" and "n" in opts:
            path.data["num_rows"] = o.attrs[n] = opts["n"]
        elif n == "num_rows":
            x = Sym("atom", f"num_rows#{path.data['i']}", ty="int")
            path.set_interval(x, 0, 2**32 - 1)
            o.attrs[n] = x
            path.data["num_rows"] = x

    def app_result(self, path, name, o):
        if name == "handle_query" and path.data.get("cur_fail") == "query":
            path.emit("app_failed", name=name, how="error")
            raise exc(Exception, "query")
        return super().app_result(path, name, o)

    def element(self, path, src, i):
        d = path.data
        if src in d.get("all_rows", ()) and d.get("cur_fail") == "row":
            d["cur_fail"] = None
            path.emit("app_failed", name="rows", how="error")
            raise exc(Exception, "row")
        return tuple(Sym("item", Sym("elem", src, i), j) for j in range(self.ncols)) if src in d.get("all_rows", ()) else super().element(path, src, i)

    def expected(self, path, r, name):
        pass

    # ---- what each response means

    def after(self, path, r):
        d = path.data
        if r is None or r.lost:
            return
        op = d.get("op")
        if op is None:
            return
        ob = self.rep.ob
        cur = d["cursors"]
        s = op[1]
        opts = op[2] if len(op) > 2 else {}
        if r.cmd == PREPARE:
            if getattr(r, "prepared", None) is None:
                return
            i = r.prepared["id"]
            ob("cursor.ids", "COM_STMT_PREPARE", i not in d["ids"], f"statement id {show(i)} is used twice", path=path)
            d["ids"].append(i)
            return
        if r.cmd not in (EXECUTE, FETCH, RESET_STMT, CLOSE):
            return
        known = isinstance(s, int) and s < len(d["ids"]) and s not in d.get("closed", ())
        name = cmd_name(r.cmd)
        if r.cmd in (EXECUTE, FETCH, RESET_STMT) and not known:
            ob("cursor.unknown", name, r.err, f"{name} with an unknown statement id isn't answered with ERR", path=path)
            return
        if r.cmd == EXECUTE:
            if r.err:
                ob("cursor.works", name, opts.get("fail") is not None, f"{name} fails", path=path)
                cur[s] = None
            else:
                rows = d["rows"]
                cur[s] = dict(rows=rows, at=0, over=False) if opts.get("cursor", True) else None
                if opts.get("cursor", True):
                    st = getattr(r, "meta_status", None) if not r.deprecate else r.final["status"] if r.final else None
                    ob("cursor.opened", name, bool(st & CURSOR_EXISTS) if isinstance(st, int) else None, "the response doesn't say that a cursor exists", path=path)
                    ob("cursor.opened", name + ": rows", r.rows == 0, "rows are sent although a cursor was asked for", path=path)
        elif r.cmd == CLOSE:
            d.setdefault("closed", set()).add(s)
            cur[s] = None
        elif r.cmd == RESET_STMT:
            cur[s] = None
            ob("cursor.works", name, not r.err, f"{name} fails", path=path)
        elif r.cmd == FETCH:
            c = cur.get(s)
            if c is None:
                ob("cursor.discarded", d.get("why", "no cursor"), r.err, f"COM_STMT_FETCH delivers rows {show(tuple(self.rows_of(r)))[:80]} although the statement has no cursor ({d.get('why')})", path=path)
                return
            if r.err:
                ob("cursor.works", name, bool(opts.get("fail")) or c.get("broken", False), f"{name} fails on an open cursor", path=path)
                c["broken"] = True
                return
            if c.get("broken"):
                ob("cursor.rows", "after a failure", r.rows == 0 and False, "rows are fetched from a cursor that failed", path=path) if r.rows else None
                return
            self.fetched(path, r, c)
        return

    def rows_of(self, r):
        return [x for pkt in r.packets for x in terms(pkt) if x.op == "elem"]

    def fetched(self, path, r, c):
        ob = self.rep.ob
        n = path.data["num_rows"]
        k = c["at"]
        got = []
        for pkt in r.packets[:-1]:
            es = {x for x in terms(pkt) if x.op == "elem"}
            got.append(es.pop() if len(es) == 1 else None)
        for g in got:
            if g is None:
                ob("cursor.rows", "COM_STMT_FETCH", None, "can't tell which row it is")
                c["at"] = k
                return
            if g.args[0] is not c["rows"]:
                ob("cursor.rows", "COM_STMT_FETCH: source", False, f"a row of another cursor is sent: {show(g)}", path=path)
                return
            ob("cursor.rows", "COM_STMT_FETCH", g.args[1] == k, f"row {g.args[1]} is sent instead of row {k}", path=path)
            if g.args[1] != k:
                return
            k += 1
        c["at"] = k
        over = any(src is c["rows"] for src in path.data.get("ends", ()))
        lo, hi = path.interval(n) if isinstance(n, Sym) else (n, n)
        m = len(got)
        ob("cursor.count", "COM_STMT_FETCH: too many", m <= hi, f"{m} rows are sent, but at most {hi} were asked for", path=path)
        if lo < m <= hi:
            # it may have been less that was asked for, if that's all that was found out about it
            others = [t for t in path.truths if isinstance(t, Sym) and n in terms(t) and not (t.op in ("cmp", "eq") and n in t.args)]
            ob("cursor.count", "COM_STMT_FETCH: too many", None if others else False, f"{m} rows are sent, even if only {lo} were asked for", path=path)
        if not over:
            ob("cursor.count", "COM_STMT_FETCH: filled", hi <= m, f"{m} rows are sent although {'more' if lo > m else 'possibly more'} were asked for, and there are more", path=path)
        st = r.final.get("status") if r.final else None
        if isinstance(st, int):
            last = bool(st & LAST_ROW_SENT)
            if lo > m:
                ob("cursor.last", "COM_STMT_FETCH: unfilled", last, f"a fetch of at least {lo} rows got {m}, but the last row isn't flagged", path=path)
            if last:
                ob("cursor.last", "COM_STMT_FETCH: rows remain", over, "the last row is flagged although rows may remain", path=path)
            elif lo == hi == m and not over:
                ob("cursor.last", "COM_STMT_FETCH: filled", True)
        else:
            ob("cursor.last", "COM_STMT_FETCH", None, "status flags")

    def exhausted(self, path, src, i, node):
        super().exhausted(path, src, i, node)
        path.data.setdefault("ends", []).append(src)


def check(rep):
    p = Program()
    rep.rule("cursor.rows", "the n-th row that's fetched from a cursor is row n of the result that was executed")
    rep.rule("cursor.count", "a fetch delivers as many rows as were asked for, unless the source has ended")
    rep.rule("cursor.last", "last-row-sent is flagged if the fetch couldn't be filled, and only if the source has ended")
    rep.rule("cursor.discarded", "after execute (even if it fails), reset or close, rows of the old cursor can't be fetched")
    rep.rule("cursor.unknown", "unknown statement ids yield ERR")
    rep.rule("cursor.opened", "an execute with a cursor sends no rows, and says that there's a cursor")
    rep.rule("cursor.ids", "statement ids are distinct")
    rep.rule("cursor.works", "fetching from an open cursor, and resetting it, succeeds")
    rep.section(histories, rep, p)
    rep.section(long, rep, p)
    rep.section(flags, rep, p)


A, B = 0, 1
P = (PREPARE, None)


def E(s, **kw):
    return (EXECUTE, s, kw)


def F(s, **kw):
    return (FETCH, s, kw)


HISTORIES = [
    ("fetches until the end", [P, E(A), F(A), F(A), F(A)]),
    ("two statements", [P, P, E(A), E(B), F(A), F(B), F(A)]),
    ("re-execute", [P, E(A), F(A), E(A), F(A)]),
    ("re-execute without a cursor", [P, E(A), F(A), E(A, cursor=False), F(A)]),
    ("failing re-execute", [P, E(A), E(A, fail="query"), F(A)]),
    ("reset", [P, E(A), F(A), (RESET_STMT, A), F(A)]),
    ("close", [P, P, E(A), E(B), (CLOSE, A), F(A), F(B)]),
    ("prepared only", [P, F(A)]),
    ("unknown ids", [P, (RESET_STMT, "unknown"), E("unknown"), F("unknown")]),
    ("execute after close", [P, (CLOSE, A), E(A)]),
    ("row fails", [P, E(A), F(A, fail="row"), F(A)]),
    ("reset of another statement", [P, P, E(A), E(B), (RESET_STMT, A), F(B)]),
    ("execute of another statement", [P, P, E(A), F(A), E(B, cursor=False), F(A)]),
    ("close of another statement", [P, P, E(A), (CLOSE, B), F(A)]),
    ("a statement that's prepared in between", [P, E(A), F(A), P, F(A)]),
    ("a statement that's prepared after another was closed", [P, P, E(B), F(B), (CLOSE, A), P, F(B), E(2), F(B), F(2)]),
    ("a query in between", [P, E(A), F(A), (QUERY, None), F(A)]),
    ("other commands in between", [P, E(A), F(A), (PING, None), (INIT_DB, None), (FIELD_LIST, None), F(A)]),
    ("ids that look like known ones", [P, P, E(B), F((B, 1 << 16)), F((B, 1 << 8)), F((B, 1 << 31)), (RESET_STMT, (B, 1 << 16)), E((B, 1 << 24)), (CLOSE, (B, 1 << 16)), F(B)]),
    ("fetches of nothing", [P, E(A), F(A, n=0), F(A), F(A, n=0), F(A)]),
]


def histories(rep, p):
    env = Cursor(p, NoForm(rep))
    env.live = 0
    for name, h in HISTORIES:
        for asy in (True, False):
            if not asy and name not in ("fetches until the end",) and not rep.thorough:
                continue
            env.async_rows = asy

            def run(path):
                d = path.data
                d.update(caps_on=0, script=h, why=name)
                d["calm"] = True
                return env.run(path, [x[0] for x in h])

            def each(res):
                path = res.path
                if res.status == "undecided":
                    rep.ob("cursor.rows", "COM_STMT_FETCH", None, res.reason)

            rep.explore(p, env, run, f"history: {name}" + ("" if asy else " (sync rows)"), max_paths=3000, budget_s=60, each=each)


class Many(Cursor):
    """A long result"""

    kmax = 12_000
    max_loop = 10**9
    max_steps = 10**9

    def decide(self, path, sym):
        rows = path.data.get("all_rows", ())
        if path.data["phase"] == "commands" and sym.op == "cmp" and any(t.op == "len" for t in terms(sym)) and any(t in rows for t in terms(sym)):
            return True  # there are more rows
        return super().decide(path, sym)

    def call(self, path, f, args, kwargs, node):
        if isinstance(f, Func) and f.name == "make_binary_resultrow" and args and isinstance(args[0], tuple):
            es = {x for v in args[0] for x in terms(v) if isinstance(x, Sym) and x.op == "elem"}
            if len(es) == 1:
                return Sym("row", es.pop(), ty="bytes")
        return super().call(path, f, args, kwargs, node)


def long(rep, p):
    env = Many(p, NoForm(rep))
    env.live = 0
    h = [P, E(A), F(A, n=10_500), F(A, n=7), F(A, n=1_200), F(A, n=2**32 - 1), F(A, n=1)]

    def run(path):
        path.data.update(caps_on=0, script=h, why="a long result")
        path.data["calm"] = True
        return env.run(path, [x[0] for x in h])

    def each(res):
        if res.status == "undecided":
            rep.ob("cursor.rows", "COM_STMT_FETCH: a long result", None, res.reason)

    for asy in (True, False) if rep.thorough else (True,):
        env.async_rows = asy
        rep.explore(p, env, run, "history: a long result", max_paths=4, budget_s=120, each=each)


class NoForm:
    """Only the rules on cursors are of interest here"""

    def __init__(self, rep):
        self.rep = rep

    def ob(self, rule, *a, **k):
        if rule.startswith("cursor."):
            return self.rep.ob(rule, *a, **k)
        return a[1]

    @property
    def obligations(self):
        return {}


def flags(rep, p):
    """The flag in COM_STMT_EXECUTE"""
    it = p.interp
    env = ConnEnv(p)
    env.summarise_parse = False
    f = p.need("mysql_mimic.packets.parse_com_stmt_execute")
    fl = Sym("atom", "flags", ty="int")

    def run(path):
        path.set_interval(fl, 0, 255)
        ps = p.need("mysql_mimic.prepared.PreparedStatement")
        stmt = mk(path, ps, "stmt", stmt_id=1, num_params=0, sql=Sym("atom", "sql", ty="str"), param_buffers=None, cursor=None)
        data = cat(b"\x01\x00\x00\x00", Sym("le", 1, False, fl, ty="bytes"), b"\x01\x00\x00\x00", Sym("atom", "rest", ty="bytes"))
        caps = Sym("atom", "caps", ty=env.caps_cls)
        get = Prim("get_stmt", lambda it, a, k, n: stmt)
        path.data["stmt"] = stmt
        names = [a.arg for a in f.node.args.args]
        vals = dict(zip(names, [caps, Sym("atom", "charset", ty=p.need(CHARSET)), data, get]))
        return it.call(f, [], vals, None)

    env.opaque_split = True

    def each(res):
        path = res.path
        if res.status == "raise":
            return
        if res.status != "ok" or not isinstance(res.value, Obj):
            rep.ob("cursor.flag", "parse_com_stmt_execute", None, res.reason)
            return
        u = res.value.attrs.get("use_cursor")
        if isinstance(u, Sym):
            t = path.known(u)
            if t is None and u.op == "cmp":
                # the decision is left to the caller
                for want in (True, False):
                    pass
                lo, hi = path.interval(fl)
                ok = None
                if u.args[0] == "==" and fl in u.args:
                    x = u.args[1] if u.args[2] is fl else u.args[2]
                    x = getattr(x, "value", x)
                    ok = x == 1
                rep.ob("cursor.flag", "parse_com_stmt_execute", ok, f"a cursor is used iff {show(u)}", path=path)
                return
            u = t
        lo, hi = path.interval(fl)
        one = path.known(it.eq(fl, 1)) if isinstance(it.eq(fl, 1), Sym) else it.eq(fl, 1)
        if u is True:
            rep.ob("cursor.flag", "parse_com_stmt_execute", None if one is None and (lo, hi) != (1, 1) else True)
        elif u is False:
            rep.ob("cursor.flag", "parse_com_stmt_execute", False if one is True or (lo, hi) == (1, 1) else True, "a read-only cursor that's asked for isn't opened", path=path)
        else:
            rep.ob("cursor.flag", "parse_com_stmt_execute", None, show(u))

    rep.rule("cursor.flag", "a read-only cursor is opened iff the client asks for it (flag CURSOR_TYPE_READ_ONLY)")
    rep.explore(p, env, run, "parse_com_stmt_execute", max_paths=200, each=each)
