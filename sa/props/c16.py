"""C16: catalog answers mirror the declared schema"""
from __future__ import annotations

import time

from .. import cattexts as ct
from ..minisql import MiniSql
from .reply import Bad, Rd, Unknown
from .sess import *
from .stmt import *

PLAIN = (str, int, float, bool, type(None))


def adict(m):
    return ADict({k: adict(v) for k, v in m.items()}) if isinstance(m, dict) else m


class Hooks:
    """Mixin: the application's schema, and the executor"""

    def executed(self, path, args, kwargs, node):
        x = args[0] if args else kwargs.get("sql")
        tables = kwargs.get("tables")
        if not self.is_node(x) or not isinstance(tables, ADict):
            raise Undecided("what is executed")
        rows, cols = MiniSql(self, path).select(x, tables)
        return Obj(ExtClass("sqlglot.executor.table.Table"), dict(rows=AList(rows), columns=cols), "result")

    def schema_of(self, path):
        s = path.data["schema"]
        return s(path) if callable(s) else adict(s)

    def to_sql(self, path, o, dialect):
        if self.is_node(o, "Show") and dialect == "mysql":
            a = o.attrs["args"].d
            r = lambda k: self.render(a[k], "`") if a.get(k) is not None else None
            out = "SHOW" + (" FULL" if a.get("full") else "") + (" GLOBAL" if a.get("global") else "") + f" {a['this']}"
            if set(k for k, v in a.items() if v) - {"this", "full", "global", "target", "db", "like"}:
                raise Undecided("text of SHOW")
            if a.get("target") is not None:
                out += " FROM " + r("target")
            if a.get("db") is not None:
                out += " FROM " + r("db")
            if a.get("like") is not None:
                x = self.render(a["like"])
                out += " LIKE " + (x.replace("\\", "\\\\") if self.escapes else x)
            return out
        return super().to_sql(path, o, dialect)

    escapes = True


class Env(Hooks, SessEnv):
    def __init__(self, program):
        super().__init__(program)
        self.corpus.load("catalog.json")


class Declared:
    """What a schema declares"""

    def __init__(self, p, depth, mapping, what=None):
        self.depth = depth
        self.tables = []  # (db, table, [(column, type)])
        self.dbs = []
        self.cats = []  # (catalog, db, table, [(column, type)])
        for c, ds in ct.dbs_of(depth, mapping).items():
            for db, ts in ds.items():
                if depth > 2:
                    self.dbs.append(db)
                    self.cats.append((c, db, None, []))
                self.cats += [(c, db, t, list(cs.items())) for t, cs in ts.items()]
                for t, cs in ts.items():
                    self.tables.append((db, t, list(cs.items())))
        b = p.need("mysql_mimic.constants.INFO_SCHEMA")
        self.builtin = []
        self.bdbs = []
        for db, ts in b.d.items():
            self.bdbs.append(db)
            for t, cs in ts.d.items():
                self.builtin.append((db, t, list(cs.d.items())))

    def all_dbs(self):
        return list(dict.fromkeys(self.dbs + self.bdbs))

    def all_tables(self):
        return self.tables + self.builtin

    def want(self, what, args, fold):
        """Rows, and whether their order counts"""
        lk = lambda i, s: len(args) <= i or ct.like(args[i], s, fold)
        if what == "databases":
            return sorted((d,) for d in self.all_dbs() if lk(0, d)), False
        if what == "tables":
            return sorted((t,) for d, t, _ in self.all_tables() if d == args[0] and lk(1, t)), False
        if what == "all tables":
            return sorted((d, t) for d, t, _ in self.all_tables()), False
        if what.startswith("catalogs of"):
            theirs = [(None, d, t, cs) for d, t, cs in self.builtin]
            every = [x for x in self.cats if x[2] is not None or what == "catalogs of databases"] + theirs
            every = [((c or "") if self.depth == 4 else "", *x) for c, *x in every]
            if what == "catalogs of databases":
                return sorted({x[:2] for x in every}), False
            if what == "catalogs of tables":
                return sorted(x[:3] for x in every), False
            return sorted((*x[:3], n, y) for *x, cs in every for n, y in cs), False
        if what == "all columns":
            return [(d, t, c, y) for d, t, cs in self.all_tables() for c, y in cs], None
        db, t = args[:2]
        out = []
        for d, n, cs in self.all_tables():
            if n == t and (d == db or db is None):
                out += [(c, y) for c, y in cs if lk(2, c)]
        return out, True

    def known(self, args):
        """Is there such a table?"""
        return any(n == args[1] and d in (args[0], *([""] if args[0] is None else [])) for d, n, _ in self.all_tables())

    def judge(self, what, args, rows):
        """None if it's right, or what's wrong"""
        if what == "positions":
            return self.positions(rows)
        if what.startswith("catalogs of"):
            # which catalog the built-in entries are in isn't specified
            own = {(d, t) for _, d, t, _ in self.cats} | {(d, None) for _, d, _, _ in self.cats}
            names = {(d, t) for d, t, _ in self.builtin} | {(d, None) for d, _, _ in self.builtin}
            key = (lambda r: (r[1], None)) if what == "catalogs of databases" else (lambda r: (r[1], r[2]))
            # nor is that of databases that are declared without one
            rows = [("" if key(r) in names - own or self.depth < 4 else r[0], *r[1:]) for r in rows]
            want = self.want(what, args, False)[0]
            both = lambda l: [r for r in l if key(r) not in names & own and (r[1] != "" or what != "catalogs of databases")]
            return None if sorted(both(rows)) == sorted(both(want)) else self.diff(both(rows), both(want))
        a, ordered = self.want(what, args, False)
        b, _ = self.want(what, args, True)
        if a != b:
            # whether LIKE is case-sensitive isn't specified
            rows_ok = [self.same(rows, w, ordered) for w in (a, b)]
            return None if any(rows_ok) else self.diff(rows, a)
        if what == "databases" and self.depth == 2:
            rows = [r for r in rows if r != ("",)]
        return None if self.same(rows, a, ordered) else self.diff(rows, a)

    def same(self, rows, want, ordered):
        if ordered:
            return rows == want
        if ordered is None:
            # in order within each table
            by = lambda rs: {k: [r for r in rs if r[:2] == k] for k in {r[:2] for r in rs}}
            return by(rows) == by(want)
        return sorted(rows) == sorted(want)

    def positions(self, rows):
        """The positions of a table's columns count up, from the same number in every table"""
        by = {}
        for d, t, c, n, cat in rows:
            by.setdefault((cat, d, t), []).append((n, c))
        first = {min(x)[0] for x in by.values()}
        names = {}
        for c, d, t, cs in self.cats:
            names.setdefault((d, t), []).append([n for n, _ in cs])
        builtin = {(d, t) for d, t, _ in self.builtin}
        for (cat, d, t), cols in by.items():
            cols = sorted(cols)
            at = [n for n, _ in cols]
            if (d, t) in builtin and (d, t) in names:
                continue
            if len(first) > 1 and at[0] != min(first) or at != list(range(at[0], at[0] + len(at))):
                return f"the positions of the columns of {d}.{t} are {at[:4]}"
            if (d, t) in names and [c for _, c in cols] not in names[(d, t)]:
                return f"the positions of the columns of {d}.{t} aren't in the order they are declared in: {[c for _, c in cols][:4]}"
        return None

    def diff(self, rows, want):
        more = [r for r in rows if r not in want]
        less = [w for w in want if w not in rows]
        twice = [r for r in rows if rows.count(r) > want.count(r) and r in want]
        f = lambda l: ", ".join(".".join(str(x) for x in r) for r in l[:3]) + (" .." if len(l) > 3 else "")
        out = []
        if less:
            out.append(f"{f(less)} is missing")
        if more:
            out.append(f"{f(more)} shouldn't be there")
        if twice:
            out.append(f"{f(twice)} is there more than once")
        return "; ".join(out) or f"the order is {f(rows)}"


class Check:
    def __init__(self, rep):
        self.rep = rep
        self.p = Program(sqlglot=True)
        self.env = Env(self.p)
        self.jobs = []

    def rows(self, r, n):
        """First n values of the rows of a result, or None"""
        if isinstance(r, Obj) and isinstance(r.attrs.get("rows"), (AList, tuple)):
            r = (r.attrs["rows"], r.attrs.get("columns"))
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (AList, tuple))):
            return None
        out = []
        for x in r[0].items if isinstance(r[0], AList) else r[0]:
            x = tuple(x.items) if isinstance(x, AList) else x
            if not isinstance(x, tuple) or not all(isinstance(y, PLAIN) for y in x):
                return None
            out.append(x[:n])
        return out

    def send(self, path, s, text):
        """(result, exception)"""
        try:
            path.data["sess"] = s
            return self.env.handle(path, s, text), None
        except Raise as e:
            if str(e.where or "").startswith("sqlglot/"):
                raise Undecided(f"sqlglot raises {e.value!r}") from None
            return None, e

    WIDTH = {"databases": 1, "tables": 1, "columns": 2, "all tables": 2, "all columns": 4, "positions": 5, "catalogs of databases": 2, "catalogs of tables": 3, "catalogs of columns": 5}
    RULE = {"databases": "databases", "tables": "tables", "columns": "columns", "all tables": "tables", "all columns": "columns",
            "positions": "columns", "catalogs of databases": "databases", "catalogs of tables": "tables", "catalogs of columns": "columns"}

    def statement(self, path, s, d, case, text, what, args):
        rule = "like" if len(args) > dict(databases=0, tables=1, columns=2).get(what, 9) else self.RULE[what]
        site = f"{case}: {text}"
        try:
            r, e = self.send(path, s, text)
        except Undecided as u:
            self.rep.ob(rule, site, None, str(u), path=path)
            return
        if e is not None:
            name = e.value.attrs.get("msg") if isinstance(e.value, Obj) else ""
            if what == "columns" and not d.known(args) or what == "tables" and args[0] not in d.all_dbs():
                # MySQL fails as well
                self.rep.ob(rule, site, True)
                return
            self.rep.ob(rule, site, False, f"fails: {e.value!r} {name}", e.where, path=path)
            return
        rows = self.rows(r, self.WIDTH[what])
        if rows is None:
            self.rep.ob(rule, site, None, "its rows", path=path)
            return
        bad = d.judge(what, args, rows)
        self.rep.ob(rule, site, bad is None, bad or "", where="mysql_mimic/schema.py", path=path)

    def run(self, name, fn):
        rep = self.rep
        for r in explore(self.p, self.env, fn, max_paths=8, deadline=time.time() + 300):
            rep.count(r)
            if r.status == "raise":
                lib = str(r.exc.where or "").startswith("sqlglot/")
                rep.ob("session", name, None if lib else False, f"fails: {r.exc.value!r}", r.exc.where, path=r.path)
            elif r.status != "ok":
                rep.ob("session", name, None, r.reason, path=r.path)
        rep.visited |= self.p.interp.visited

    def schema(self, name, lo, hi, db):
        """Statements that name the database"""
        depth, m = ct.SCHEMAS[name]
        d = Declared(self.p, depth, m)
        todo = ct.wanted(name)[lo:hi]

        def go(path):
            path.data["schema"] = m
            s = self.env.connect(path, db)
            for text, what, args in todo:
                self.statement(path, s, d, name, text, what, args)
            self.rep.ob("session", f"{name}, {lo}", True)
        self.run(name, go)

    def current(self, name):
        """Statements about the current database"""
        depth, m = ct.SCHEMAS[name]
        d = Declared(self.p, depth, m)
        todo = [x for x in ct.current(name) if x[2] != "field list"]

        def go(path):
            path.data["schema"] = m
            s = self.env.connect(path, None)
            for db, text, what, args in todo:
                s.attrs["database"] = db
                self.statement(path, s, d, f"{name}, in {db}", text, what, args)
        self.run(name, go)

    def overall(self):
        """Statements about everything, in each of the schemas"""
        def go(path):
            path.data["schema"] = {}
            s = self.env.connect(path, "db1")
            for name, (depth, m) in {**ct.SCHEMAS, **ct.SAME}.items():
                path.data["schema"] = m
                d = Declared(self.p, depth, m)
                for text, what, args in ct.overall(name):
                    self.statement(path, s, d, name, text, what, args)
        self.run("everything", go)

    def several(self):
        """Sessions with different schemas, and one whose schema changes"""
        names = list(ct.SCHEMAS)
        env = self.env

        def pick(n):
            w = ct.wanted(n)
            return w[:7] + [x for x in w[7:] if x[1] in ("tables", "columns")][::17]

        def go(path):
            path.data["schema"] = {}
            one = env.connect(path, "db1")
            two = env.connect(path, "db1")
            empty = Declared(self.p, 2, {})
            for k, n in enumerate(names + names[:2]):
                for s in (one, two) if k % 2 else (two, one):
                    depth, m = ct.SCHEMAS[n if s is one else names[(k + 3) % len(names)]]
                    nn = n if s is one else names[(k + 3) % len(names)]
                    path.data["schema"] = m
                    d = Declared(self.p, depth, m)
                    for text, what, args in pick(nn)[:: 1 if s is one else 2]:
                        self.statement(path, s, d, f"{nn}, after other schemas", text, what, args)
                path.data["schema"] = {}
                self.statement(path, two, empty, "no schema", "SHOW DATABASES", "databases", ())
                self.statement(path, two, empty, "no schema", "SHOW TABLES FROM mysql", "tables", ("mysql",))
        self.run("several schemas", go)

    def variables(self):
        """SHOW VARIABLES LIKE"""
        rep = self.rep

        def go(path):
            path.data["schema"] = {}
            s = self.env.connect(path, "db1")
            r, e = self.send(path, s, "SHOW VARIABLES")
            rows = self.rows(r, 2) if e is None else None
            if rows is None:
                rep.ob("like", "SHOW VARIABLES", None, "its rows", path=path)
                return
            rep.ob("like", "SHOW VARIABLES", len({x[0] for x in rows}) == len(rows) > 5, "names are missing, or there more than once", path=path)
            for p in ct.VARIABLE_PATTERNS:
                for text in (f"SHOW VARIABLES LIKE {ct.quote(p)}", f"SHOW SESSION VARIABLES LIKE {ct.quote(p)}"):
                    try:
                        r, e = self.send(path, s, text)
                    except Undecided as u:
                        rep.ob("like", text, None, str(u), path=path)
                        continue
                    if e is not None:
                        rep.ob("like", text, False, f"fails: {e.value!r}", e.where, path=path)
                        continue
                    got = self.rows(r, 2)
                    if got is None:
                        rep.ob("like", text, None, "its rows", path=path)
                        continue
                    a = sorted(x for x in rows if ct.like(p, x[0]))
                    b = sorted(x for x in rows if ct.like(p, x[0], True))
                    ok = sorted(got) in (a, b)
                    rep.ob("like", text, ok, "rows are " + ", ".join(x[0] for x in got[:4]) + ("" if got else "missing") + "; instead of " + ", ".join(x[0] for x in a[:4]), path=path)
        self.run("SHOW VARIABLES", go)

    def columns(self):
        """A catalog that's made of columns, with everything that can be said about them"""
        rep, p, it = self.rep, self.p, self.env.it
        col = p.need("mysql_mimic.schema.Column")
        mk_tables = p.need("mysql_mimic.schema.info_schema_tables")
        info = p.need("mysql_mimic.schema.InfoSchema")
        spec = {
            ("db1", "users"): [("id", "INT", False, None, "the key"), ("email", "TEXT", True, "x@y", None), ("age", "INT", True, None, None)],
            ("db2", "users"): [("name", "TEXT", False, "", None), ("id", "BIGINT", False, None, None)],
        }
        m = {}
        for (db, t), cs in spec.items():
            m.setdefault(db, {})[t] = {c[0]: c[1] for c in cs}
        d = Declared(p, 3, m)

        def schema(path):
            cols = AList([
                it.call(col, [], dict(name=c, type=y, table=t, is_nullable=n, default=df, comment=cm, schema=db), None)
                for (db, t), cs in spec.items() for c, y, n, df, cm in cs
            ])
            return it.call(info, [it.call(mk_tables, [cols], {}, None)], {}, None)

        def go(path):
            path.data["schema"] = schema
            s = self.env.connect(path, "db1")
            case = "a catalog made of columns"
            for text, what, args in ct.wanted("databases")[:7] + [x for x in ct.wanted("databases")[7:] if len(x[2]) < 3 and (x[1] == "columns" and x[2][1] == "users" or x[1] == "tables" and len(x[2]) == 1)]:
                self.statement(path, s, d, case, text, what, args)
            for db in ("db1", "db2"):
                for text in (f"SHOW COLUMNS FROM users FROM {db}", f"SHOW FULL COLUMNS FROM `users` FROM `{db}`"):
                    r, e = self.send(path, s, text)
                    rows = self.rows(r, 9) if e is None else None
                    if rows is None or any(len(x) < 6 for x in rows):
                        rep.ob("columns", f"{case}: {text}", None, "its rows", path=path)
                        continue
                    bad = None
                    for x, (c, y, n, df, cm) in zip(rows, spec[(db, "users")]):
                        if (x[2] == "YES") != n or x[2] not in ("YES", "NO"):
                            bad = f"nullability of {c} is {x[2]!r}"
                        if x[4] != df:
                            bad = f"default of {c} is {x[4]!r}, instead of {df!r}"
                        if len(x) > 8 and (x[8] or None) != cm:
                            bad = f"comment of {c} is {x[8]!r}, instead of {cm!r}"
                    rep.ob("columns", f"{case}: {text}, attributes", bad is None, bad or "", where="mysql_mimic/schema.py", path=path)
        self.run("columns", go)

    def ambiguous(self):
        """No database is selected, or the schema has none"""
        rep = self.rep

        def go(path):
            s = self.env.connect(path, None)
            for name, db, text, ok in (
                ("databases", None, "SHOW COLUMNS FROM users", [list(D.items()) for D in (ct.D3["db1"]["users"], ct.D3["db2"]["users"])]),
                ("databases", None, "DESCRIBE users", [list(D.items()) for D in (ct.D3["db1"]["users"], ct.D3["db2"]["users"])]),
                ("tables, the first without columns", None, "SHOW COLUMNS FROM user", [list(ct.D2_BARE["user"].items())]),
            ):
                path.data["schema"] = ct.SCHEMAS[name][1]
                s.attrs["database"] = db
                r, e = self.send(path, s, text)
                rows = self.rows(r, 2) if e is None else []
                site = f"{name}, no database is selected: {text}"
                if rows is None:
                    rep.ob("columns", site, None, path=path)
                    continue
                rep.ob("columns", site, e is not None and len(ok) > 1 or rows in ok, "columns of several tables that have the same name", where="mysql_mimic/schema.py",
                       detail=f"{len(rows)}: " + " ".join(sorted(".".join(map(str, x)) for x in rows))[:150], path=path)
            path.data["schema"] = ct.ONE
            seen = []
            for db in (None, "", "db1"):
                s.attrs["database"] = db
                r, e = self.send(path, s, "SHOW TABLES")
                seen.append("an error" if e is not None else self.rows(r, 1))
            ok = None if None in seen else any(x == [("users",)] for x in seen)
            rep.ob("tables", "a schema without databases: SHOW TABLES", ok, "its table isn't listed, whatever database is selected", where="mysql_mimic/schema.py", detail=str(seen), path=path)
            r, e = self.send(path, s, "SHOW DATABASES")
            rows = self.rows(r, 1) if e is None else None
            rep.ob("databases", "a schema without databases: SHOW DATABASES", None if rows is None else ("",) not in rows, "a database without a name is listed", where="mysql_mimic/schema.py",
                   detail=str(sorted(rows or ())), path=path)
        self.run("ambiguous", go)


class Parse41:
    """A column definition, as a client reads it"""

    def __init__(self, pkt, field_list):
        r = Rd(pkt)
        self.catalog, self.schema, self.table, self.org_table, self.name, self.org_name = (r.lenenc_str() for _ in range(6))
        n = r.lenenc_int()
        if n != 12:
            raise Bad(f"its fixed part has {show(n)} bytes")
        self.charset, self.length, self.type, self.flags, self.decimals = r.uint(2), r.uint(4), r.uint(1), r.uint(2), r.uint(1)
        r.fixed(2)
        self.default = None
        if field_list:
            if r.done():
                raise Bad("there's no default")
            if r.peek() == 0xFB:
                r.fixed(1)
            else:
                self.default = r.lenenc_str()
        if not r.done():
            raise Bad(f"{show(r.rest())} follows")


def field_list(rep, p, name):
    base = full_stmt(Stmt)
    specs = dict(INT=(1, 2, 3, 8, 9), BIGINT=(8,), DOUBLE=(4, 5), DATE=(10, 14), DATETIME=(12, 18))

    class FieldEnv(Hooks, base):
        base_caps = base.base_caps & ~(1 << 20)

        def __init__(self, program):
            base.__init__(self, program)
            self.corpus.load("catalog.json")

        def packet(self, path, cmd, i):
            path.data["calm"] = True
            path.data.setdefault("replies", []).append([])
            return super().packet(path, cmd, i)

        def wrote(self, path, data, drain, node):
            super().wrote(path, data, drain, node)
            if path.data["phase"] == "commands" and path.data.get("replies"):
                path.data["replies"][-1].append(data)

        def outcomes(self, path, what):
            return super().outcomes(path, what)

    env = FieldEnv(p)
    depth, m = ct.SCHEMAS[name]
    d = Declared(p, depth, m)
    for db, t, what, args in ct.current(name):
        if what != "field list":
            continue
        pat = args[2] if len(args) > 2 else ""
        cmds = [lambda e, path: b"\x04" + t.encode() + b"\0" + pat.encode(), lambda e, path: b"\x0e"]

        def go(path):
            path.data["schema"] = m
            path.data["handshake"] = env.handshake(db.encode() if db else None)
            return env.run(path, cmds)

        for r in explore(p, env, go, max_paths=8, deadline=time.time() + 60):
            rep.count(r)
            path = r.path
            site = f"{name}: COM_FIELD_LIST {t} {pat}"
            reps = path.data.get("replies") or [[]]
            if r.status != "ok" or not reps[0]:
                rep.ob("field_list", site, None, r.reason or repr(r.exc), path=path)
                continue
            rows, ok, msg = [], True, ""
            pkts = reps[0]
            if first_byte(pkts[-1]) == 0xFF:
                ok = None if not d.known((db, t)) else False
                msg = "the answer is an error"
                rep.ob("field_list", site, True if ok is None else ok, msg, path=path)
                continue
            for x in pkts[:-1]:
                try:
                    c = Parse41(x, True)
                    if not isinstance(c.name, bytes) or not isinstance(c.table, bytes):
                        raise Unknown("a name")
                    if c.table != t.encode():
                        raise Bad(f"the table is {c.table!r}")
                    if c.catalog != b"def":
                        raise Bad(f"the catalog is {show(c.catalog)}")
                    rows.append((c.name.decode(), c.type))
                except Unknown as e:
                    ok, msg = ok and None, str(e)
                except Bad as e:
                    ok, msg = False, f"the column definition {show(x)[:60]} can't be decoded: {e}"
                    break
            if ok and first_byte(pkts[-1]) not in (0, 0xFE):
                ok, msg = (None if first_byte(pkts[-1]) is None else False), "it doesn't end"
            if ok:
                a, _ = d.want("columns", (db, t, pat) if pat else (db, t), False)
                b, _ = d.want("columns", (db, t, pat) if pat else (db, t), True)
                got = [x[0] for x in rows]
                ok = got in ([x[0] for x in a], [x[0] for x in b])
                msg = f"columns are {', '.join(got)}; instead of {', '.join(x[0] for x in a)}"
                if ok and pat == "" and len(args) == 2:
                    bad = sorted({y for (c, y), (_, k) in zip(a, rows) if y in specs and k not in specs[y]})
                    rep.ob("field_list.type", "COM_FIELD_LIST", None if any(not isinstance(k, int) for _, k in rows) else not bad,
                           f"columns of type {', '.join(bad)} are announced as {sorted({k for _, k in rows})}", where="mysql_mimic/connection.py", detail=str(sorted({k for _, k in rows})), path=path)
            rep.ob("field_list", site, ok, msg, where="mysql_mimic/connection.py", path=path)
    rep.visited |= p.interp.visited


def check(rep):
    rep.rule("databases", "every database is listed once, and nothing else")
    rep.rule("tables", "every table is listed once, and nothing else")
    rep.rule("columns", "every column of a table is listed once, with its type, in order, and nothing else")
    rep.rule("like", "LIKE selects the names that match, under SQL's semantics")
    rep.rule("field_list", "COM_FIELD_LIST answers with the column definitions of the columns that match")
    rep.rule("field_list.type", "COM_FIELD_LIST announces the declared types")
    rep.rule("session", "catalog statements are answered")
    rep.assumptions.append("sqlglot parses texts as recorded in sa/data/*.json; its executor selects rows as sa/minisql.py does, with the functions of its ENV as the program left them")
    c = Check(rep)
    jobs = []
    for name in ct.SCHEMAS:
        n = len(ct.wanted(name))
        for k, lo in enumerate(range(0, n, 60)):
            jobs.append((c.schema, name, lo, lo + 60, (None, "db1", "db2", "information_schema", "")[k % 5]))
        jobs.append((c.current, name))
        jobs.append((field_list, rep, c.p, name))
    jobs += [(c.overall,), (c.several,), (c.variables,), (c.columns,), (c.ambiguous,)]
    rep.parallel(jobs)
