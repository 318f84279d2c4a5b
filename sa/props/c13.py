"""C13: the application sees exactly the statements it must handle, once, in order"""
from __future__ import annotations

import itertools
import os
import time

from .sess import *
from .stmt import *

CATALOGS = ("information_schema", "mysql")
ATTRS = {"trace": "abc", "": "x"}


class Expected:
    """What should happen to a list of statements"""

    def __init__(self, corpus, texts, database):
        self.queries = []  # (text, database, root)
        self.uses = []
        self.kills = []
        self.last = None  # kind and text of the last statement
        db = database
        for t in texts:
            k = corpus.kind(t)
            if k == "empty":
                continue
            trees = [d for d in corpus.texts[t]["parse"] if d and d["c"] != "Semicolon"]
            root = trees[0]
            if k == "use":
                db = root["a"]["this"]["a"]["this"]["a"]["this"]
                self.uses.append(db)
            elif k == "kill":
                kind = root["a"].get("kind")
                self.kills.append((int(root["a"]["this"]["a"]["this"]), kind["a"]["this"].upper() if kind else "CONNECTION"))
            inside = (db or "").lower() in CATALOGS
            if k == "app" or "unqualified" in k and not inside:
                self.queries.append((t, db, root["c"]))
                k = "app"
            elif "unqualified" in k:
                k = "catalog"
            self.last = (k, t)
        self.database = db


def mentioned(v):
    """All terms in a value"""
    seen, out, stack = set(), [], [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Sym):
            out.extend(terms(x))
        elif isinstance(x, AV) and id(x) not in seen:
            seen.add(id(x))
            if isinstance(x, AList):
                stack.extend(x.items)
            elif isinstance(x, ADict):
                stack.extend(x.d.values())
            elif isinstance(x, Obj):
                stack.extend(x.attrs.values())
        elif isinstance(x, tuple):
            stack.extend(x)
    return out


def from_library(r):
    return r.exc is not None and str(r.exc.where or "").startswith("sqlglot/")


class Singles:
    def __init__(self, rep):
        self.rep = rep
        self.p = Program(sqlglot=True)
        self.env = SessEnv(self.p)
        self.corpus = self.env.corpus
        self.where = "Session.handle_query"

    def run(self, texts, sql, database, site):
        rep, env = self.rep, self.env
        want = Expected(self.corpus, texts, database)
        attrs = ADict(dict(ATTRS))

        def go(path):
            s = env.connect(path, database)
            v = env.handle(path, s, sql, attrs)
            return v, s

        for r in explore(self.p, env, go, max_paths=64, deadline=time.time() + 60):
            rep.count(r)
            self.judge(r, want, sql, site)

    def judge(self, r, want, sql, site):
        rep, path = self.rep, r.path
        if r.status != "ok":
            if r.status == "raise" and not from_library(r):
                rep.ob("answered", site, False, f"fails: {r.exc.value!r}", r.exc.where, path=path)
            else:
                rep.ob("answered", site, None, r.reason or repr(r.exc), path=path)
            return
        value, s = r.value
        qs = [i for k, i in path.trace if k == "query"]
        texts = [q[0] for q in want.queries]
        got = [getattr(i["tree"], "label", None) for i in qs]
        ok = None
        msg = ""
        where = None
        if len(qs) != len(want.queries):
            ok = False
            where = qs[-1]["where"] if len(qs) > len(want.queries) else None
            msg = f"{len(qs)} statements reach the application, instead of {len(want.queries)}"
        else:
            ok = True
            for i, (t, db, root) in zip(qs, want.queries):
                src = i["tree"].attrs.get("__src__") if isinstance(i["tree"], Obj) else None
                if i["cls"] is not None and i["cls"] != root:
                    ok, where, msg = False, i["where"], f"the application is given a {i['cls']} for {t!r}"
                elif src is not None and src != t:
                    ok, where, msg = False, i["where"], f"{src!r} reaches the application where it should get {t!r}"
                elif i["cls"] is None or src is None:
                    ok = ok and None
        rep.ob("routed", site, ok, msg, where, path=path)
        if ok is False:
            return
        for i, (t, db, root) in zip(qs, want.queries):
            if isinstance(i["sql"], str):
                rep.ob("text", site, i["sql"] == sql, f"the application is given {i['sql']!r}, instead of the client's text", i["where"], path=path)
            else:
                rep.ob("text", site, None, path=path)
            a = i["attrs"]
            if isinstance(a, ADict) and not a.open:
                rep.ob("attributes", site, a.d == ATTRS, f"the application is given the attributes {a.d}", i["where"], path=path)
            else:
                rep.ob("attributes", site, False if a is None else None, "the application isn't given the attributes", i["where"], path=path)
            d = i["database"]
            rep.ob("database", site, d == db if not isinstance(d, Sym) else None, f"the application sees the database {d!r}, instead of {db!r}", i["where"], path=path)
        us = [i["name"] for k, i in path.trace if k == "used"]
        rep.ob("use", site, None if any(isinstance(u, Sym) for u in us) else us == want.uses, f"use() is called for {us}, instead of {want.uses}", path=path)
        ks = [(i["id"], getattr(i["kill"], "name", None)) for k, i in path.trace if k == "killed"]
        rep.ob("kill", site, None if any(isinstance(u, Sym) for u, _ in ks) else ks == want.kills, f"{ks} is killed, instead of {want.kills}", path=path)
        d = s.attrs.get("database")
        rep.ob("database.after", site, None if isinstance(d, Sym) else d == want.database, f"afterwards the database is {d!r}, instead of {want.database!r}", path=path)
        self.result(r, value, want, qs, site)

    def result(self, r, value, want, qs, site):
        rep, path = self.rep, r.path
        ts = [t for t in mentioned(value) if t.op == "atom"]
        names = {str(t.args[0]) for t in ts}
        if want.last is None:
            rep.ob("result", site, value is None or None, "", path=path)
            return
        kind, text = want.last
        apps = {n for n in names if n.startswith("application's result")}
        if kind == "app":
            mine = f"application's result {qs[-1]['k']}"
            rep.ob("result", site, names == {mine} if names else False if value is None or not isinstance(value, Sym) else None,
                   f"the client gets {value!r}, instead of the result of the last statement", path=path)
            return
        if apps:
            rep.ob("result", site, False, f"the client gets {value!r}, although the library answers the last statement", path=path)
            return
        evs = [(k, i) for k, i in path.trace if k in ("catalog", "executed")]
        last = evs[-1] if evs else None
        used = {n for n in names if n.startswith(("catalog's result", "rows ", "columns "))}
        if kind == "catalog":
            ok = None
            if last is not None and last[0] == "catalog":
                ok = used == {f"catalog's result {last[1]['k']}"}
            elif last is None and value is None:
                ok = False
            rep.ob("result", site, ok, f"the client gets {value!r}, instead of the result of the last statement", path=path)
        elif kind == "static":
            ok = None
            if last is not None and last[0] == "executed":
                src = getattr(last[1]["tree"], "attrs", {}).get("__src__")
                if used:
                    ks = {n.split()[-1] for n in used}
                    ok = len(ks) == 1 and max(int(k) for k in ks) >= 0
                    others = [i for k, i in evs[:-1]]
                    if src is not None and src != text:
                        ok = False
                elif value is None:
                    ok = False
            rep.ob("result", site, ok, f"the client gets {value!r}, instead of the result of the last statement", path=path)
        else:
            # a statement without rows, or one whose rows come from the catalog
            n = sum(1 for k, i in path.trace if k == "catalog")
            shows = kind in ("show", "describe") and last is not None and last[0] == "catalog"
            if shows:
                ok = used <= {f"catalog's result {last[1]['k']}"}
            else:
                ok = not used
            rep.ob("result", site, ok, f"the client gets {value!r}, instead of the result of the last statement", path=path)


REPRESENTATIVES = [
    "SET autocommit = 1", "USE db1", "use `Db-2`", "USE information_schema", "KILL QUERY 5", "SHOW DATABASES", "SHOW WARNINGS", "SHOW VARIABLES LIKE 'sql_mode'", "DESC db1.t",
    "BEGIN", "COMMIT", "ROLLBACK", "SELECT 1", "SELECT DATABASE()", "SELECT table_name FROM information_schema.tables",
    "SELECT a.table_name FROM information_schema.tables AS a JOIN t ON t.a = a.table_name", "SELECT a FROM t", "SELECT a FROM db1.t",
    "SELECT table_name FROM information_schema.tables UNION SELECT a FROM db1.t", "INSERT INTO db1.t VALUES (1, 'a')", "DESCRIBE SELECT a FROM db1.t",
    "SELECT /*+ SET_VAR(sql_mode='ORACLE') */ a FROM db1.t", "CALL p(1)", "DROP TABLE db1.t", "/* nothing */",
]


def pieces(rep, s):
    c = s.corpus.texts
    n = 0
    for t in c:
        for db in (None, "db1", "INFORMATION_SCHEMA"):
            s.run([t], t, db, f"{t!r}, in database {db}")
            n += 1
    reps = [t for t in REPRESENTATIVES if t in c]
    for a, b in itertools.product(reps, reps):
        s.run([a, b], f"{a}; {b}", "db1", f"{a!r}, then {b!r}")
        n += 1
    few = ["USE db2x", "USE information_schema", "SELECT a FROM t", "SELECT 1", "SET autocommit = 1", "SELECT table_name FROM information_schema.tables", "INSERT INTO db1.t VALUES (1, 'a')", "/* nothing */"]
    few = [t for t in few if t in c]
    sizes = (3, 4) if rep.thorough else (3,)
    for k in sizes:
        for ts in itertools.product(few, repeat=k):
            if k == 4 and len(set(ts)) < 3:
                continue
            for sep, end in ((";", ""), (" ;\n", " ; ")):
                if sep == ";" or ts[0] != ts[-1]:
                    s.run(list(ts), sep.join(ts) + end, "db1", f"{sep.join(ts) + end!r}")
                    n += 1
            if k == 4 and n > 9000:
                return


# ----------------------------------------------------------------------------- through a connection


def plain(sql):
    return lambda env: env.com_query(sql.encode())


def init_db(name):
    return lambda env: (lambda e, path: b"\x02" + name.encode())


def change_user(name, user=b"root2"):
    def make(env):
        out = b"\x11" + user + b"\0" + b"\x04abcd" + name.encode() + b"\0" + bytes([45, 0]) + b"mysql_native_password\0"
        return lambda e, path: out
    return make


def reset():
    return lambda env: (lambda e, path: b"\x1f")


def ping():
    return lambda env: (lambda e, path: b"\x0e")


def histories(rep, p):
    base = full_stmt(Stmt)

    class Env(base):
        base_caps = base.base_caps & ~(1 << 20)  # no attributes of the connection
        caps_on = QUERY_ATTRIBUTES

        def packet(self, path, cmd, i):
            pkt = super().packet(path, cmd, i)
            # authentication succeeds
            path.data["mid_command"] = path.data["calm"] = first_byte(pkt) == 0x11
            return pkt

        def wrote(self, path, data, drain, node):
            super().wrote(path, data, drain, node)
            if path.data.get("mid_command") and first_byte(data) in (0, 0xFF):
                path.data["mid_command"] = False

        def outcomes(self, path, what):
            if path.data.get("mid_command"):
                return ("user",) if what == "get_user" else ("success",)
            return super().outcomes(path, what)

    env = Env(p)
    picks = [
        ("COM_INIT_DB dbx", init_db("dbx"), "dbx"),
        ("USE db1", plain("USE db1"), "db1"),
        ("use `Db-2`", plain("use `Db-2`"), "Db-2"),
        ("COM_CHANGE_USER dby", change_user("dby"), "dby"),
        ("COM_CHANGE_USER", change_user(""), ""),
        ("COM_RESET_CONNECTION", reset(), None),
        ("COM_PING", ping(), None),
        ("SELECT 1", plain("SELECT 1"), None),
    ]
    q = "SELECT a FROM t"
    size = 3 if rep.thorough else 2
    for first in (None, "dbh"):
        for k in range(size + 1):
            for seq in itertools.product(picks, repeat=k):
                db = first
                cmds = []
                for n, mkr, d in seq:
                    cmds.append(mkr(env))
                    db = db if d is None else d
                cmds.append(plain(q)(env))
                site = f"handshake {first}, " + ", ".join([n for n, _, _ in seq] + [q])
                history(rep, p, env, first, cmds, site, [(q, db, {})])
    # statements that aren't sent as they are
    for first, cmds, qs, site in (
        ("db1", [env.com_query(b"SELECT a FROM t", [text(b"v1")(env, None, 0), text(b"v2")(env, None, 1)], [b"k1", b"k2"])], [("SELECT a FROM t", "db1", {"k1": "v1", "k2": "v2"})], "COM_QUERY with attributes"),
        ("db1", [env.com_prepare(b"SELECT a FROM t"), env.com_execute(0, []), env.com_execute(0, [])], [("SELECT a FROM t", "db1", {})] * 2, "prepared statement"),
        ("db1", [env.com_prepare(b"SELECT a FROM t"), init_db("dbx")(env), env.com_execute(0, [])], [("SELECT a FROM t", "dbx", {})], "prepared statement, executed in another database"),
        ("db1", [env.com_prepare(b"SELECT 1"), env.com_execute(0, [])], [], "prepared static statement"),
        ("db1", [env.com_prepare(b"SELECT a FROM t"), env.com_execute(0, [text(b"v1")(env, None, 0)], [b"k1"], attributes=True)], [("SELECT a FROM t", "db1", {"k1": "v1"})], "prepared statement with attributes"),
        ("db1", [env.com_query(b"USE db2x", [text(b"v1")(env, None, 0)], [b"k1"]), env.com_query(b"SELECT a FROM t")], [("SELECT a FROM t", "db2x", {})], "attributes of an earlier statement"),
    ):
        history(rep, p, env, first, cmds, site, qs)


def history(rep, p, env, first, cmds, site, want):
    def go(path):
        path.data["handshake"] = env.handshake(first.encode() if first is not None else None)
        return env.run(path, cmds)

    for r in explore(p, env, go, max_paths=64, deadline=time.time() + 60):
        rep.count(r)
        path = r.path
        if r.status not in ("ok", "raise"):
            rep.ob("history", site, None, r.reason, path=path)
            continue
        qs = [i for k, i in path.trace if k == "query"]
        wild = [d for d in path.decisions if d[0] > 1]
        if any(not isinstance(i["sql"], str) for i in qs) or path.data.get("i", -1) < len(cmds):
            if path.data.get("i", -1) < len(cmds) and not wild:
                rep.ob("history", site, None, "the conversation ends early", path=path)
            else:
                rep.ob("history", site, None, path=path)
            continue
        got = [i["sql"] for i in qs]
        if got != [w[0] for w in want]:
            rep.ob("history", site, False, f"the application is given {got}, instead of {[w[0] for w in want]}", qs[-1]["where"] if qs else None, path=path)
            continue
        rep.ob("history", site, True, path=path)
        for i, (t, db, attrs) in zip(qs, want):
            d = i["database"]
            ok = None if isinstance(d, Sym) else (d or "") == (db or "")
            rep.ob("history.database", site, ok, f"the application sees the database {d!r}, instead of {db!r}", i["where"], path=path)
            a = i["attrs"]
            ok = a.d == attrs if isinstance(a, ADict) and not a.open and not any(isinstance(x, AV) for x in (*a.d, *a.d.values())) else False if a is None else None
            rep.ob("history.attributes", site, ok, f"the application is given the attributes {a!r}, instead of {attrs}", i["where"], path=path)


def check(rep):
    rep.rule("routed", "statements of the library's kinds never reach the application; every other statement does, once, in order")
    rep.rule("text", "the application is given the client's SQL text")
    rep.rule("attributes", "the application is given the client's query attributes")
    rep.rule("database", "the default database that the application sees is the last one selected")
    rep.rule("result", "the client gets the result of the last statement")
    rep.rule("answered", "no statement of the corpus fails")
    rep.rule("use", "USE calls use() with the name, once")
    rep.rule("kill", "KILL kills that connection, once")
    rep.rule("database.after", "USE changes the default database")
    rep.rule("history", "the same for commands of a connection, which selects databases in all the ways there are")
    rep.rule("history.database", "the default database that the application sees is the last one selected, by any command")
    rep.rule("history.attributes", "the application is given the query attributes of this command")
    rep.assumptions.append("sqlglot parses texts as recorded in sa/data/corpus.json; its expression classes and scopes are interpreted from the installed source")
    s = Singles(rep)
    if not os.environ.get("SA_SKIP"):
        rep.section(pieces, rep, s)
    rep.section(histories, rep, s.p)
    rep.visited |= s.p.interp.visited
