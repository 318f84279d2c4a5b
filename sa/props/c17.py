"""C17: query attributes reach the application exactly as sent"""
from __future__ import annotations

from .stmt import *


def kinds():
    """Every value that a client can attach"""
    for t in (TINY, SHORT, LONG, LONGLONG, INT24, YEAR):
        for u in (False, True):
            yield integer(t, u)
            if t == INT24:
                bs = [0, 1, (1 << 23) - 1] + ([(1 << 24) - 1] if u else [-1, -(1 << 23)])
            else:
                bs = boundaries(t, u)
            for v in bs:
                yield integer(t, u, v)
    for t, vs in ((FLOAT, (0.0, -0.0, 1.5, -3.4028234663852886e38, 1e-45)), (DOUBLE, (0.0, -0.0, 0.1, -2.5, 1.7976931348623157e308, 5e-324))):
        yield floating(t)
        for v in vs:
            yield floating(t, v)
    for t in TEXTS:
        yield text(n=5, type_=t)
        yield text(b"", type_=t)
    for n in (1, 250, 251, 252, 255, 256, 65535, 65536):
        yield text(n=n)
    for b in (b"NULL", b"0", b"a\0b", b"'", b"\\", b" x ", "é😀".encode()):
        yield text(b)
    for t in (VAR_STRING, LONG, DOUBLE):
        yield null(t)
    yield null_type()


def names_of(n):
    return [b"attr%d" % i for i in range(n)]


class Attrs:
    """Obligations on what the application receives"""

    def __init__(self, rep, program):
        self.rep, self.p = rep, program
        self.it = program.interp

    def expect(self, env, path, site, i, sql, attrs, what="COM_QUERY"):
        """The i-th command must have run `sql` (a check, or None) with these attributes [(name, value)]"""
        rep = self.rep
        qs = [q for q in path.data["queries"] if q[0] == i]
        ran = len(qs) == 1
        rep.ob("attrs.delivered", site, ran, f"the statement isn't run ({len(qs)} calls of handle_query)", where=self.where(path, what), path=path)
        if not ran:
            return None
        _, gsql, gattrs = qs[0]
        if sql is not None:
            rep.ob("attrs.sql", site, sql(gsql), f"the application receives the SQL {show(gsql)[:80]}", where=self.where(path, what), path=path)
        if attrs is None:
            return gsql
        if not isinstance(gattrs, ADict) or gattrs.open is not None:
            rep.ob("attrs.mapping", site, None if isinstance(gattrs, AV) else False, f"the application doesn't receive a mapping: {show(gattrs)[:60]}", where=self.where(path, what), path=path)
            return gsql
        left = list(gattrs.d.items())
        for k, (name, v) in enumerate(attrs):
            hit = [x for x in left if env.same(x[0], ("text", name))]
            maybe = [x for x in left if env.same(x[0], ("text", name)) is None]
            s = f"{site}: attribute {k}" if len(attrs) > 1 else site
            if not hit:
                rep.ob("attrs.name", s, None if maybe else False, f"the application doesn't receive an attribute named {show(name)[:60]}, but {show(tuple(x[0] for x in left))[:80]}", where=self.where(path, what), path=path)
                continue
            left.remove(hit[0])
            rep.ob("attrs.name", s, True)
            rep.ob("attrs.value", s, env.same(hit[0][1], v.expect), f"instead of {v.what}, the application receives {show(hit[0][1])[:80]}", where=self.where(path, what), path=path)
        rep.ob("attrs.mapping", site, not left, f"the application receives attributes that weren't sent: {show(tuple(x[0] for x in left))[:80]}", where=self.where(path, what), path=path)
        return gsql

    def where(self, path, what):
        return {"COM_QUERY": "mysql_mimic/connection.py (Connection.handle_query), mysql_mimic/packets.py", "EXECUTE": "mysql_mimic/connection.py (Connection.handle_stmt_execute), mysql_mimic/packets.py"}.get(what, what)

    def run(self, name, cmds, each, caps=QUERY_ATTRIBUTES):
        """cmds(env, path) -> (packets, context)"""
        env = Stmt(self.p)
        env.caps_on = caps

        def go(path):
            path.data["free"] = {}
            cs, ctx = cmds(env, path)
            path.data["sent"] = ctx
            env.run(path, cs)

        def done(r):
            if r.status not in ("ok", "raise"):
                self.rep.ob("analysis", name, None, f"{r.status}: {r.reason}")
                return
            each(env, r.path, r.path.data["sent"])

        self.rep.explore(self.p, env, go, name, max_paths=12, budget_s=60, each=done)


def sql_is(env, want):
    return lambda got: env.same(got, ("text", want))


def single(rep, p, a):
    """One attribute of every kind"""
    ks = list(kinds())
    for j in range(0, len(ks), 12):
        group = ks[j:j + 12]

        def cmds(env, path, group=group):
            cs, ctx = [], []
            for k, mkv in enumerate(group):
                v = mkv(env, path, k)
                s = env.text(path, f"sql {k}", 30)
                cs.append(env.com_query(s, [v], [b"name"]))
                ctx.append((v, s))
            return cs, ctx

        def each(env, path, ctx):
            for k, (v, s) in enumerate(ctx):
                a.expect(env, path, f"COM_QUERY with {v.what}", k, sql_is(env, s), [(b"name", v)])

        a.run(f"COM_QUERY with one attribute, of {len(group)} kinds ({j + 1}..)", cmds, each)


def mixed(env, path, n, nulls, base=0):
    mk_ = [text(n=3), integer(LONGLONG, True), integer(TINY, False), floating(DOUBLE), text(n=300), integer(SHORT, False), integer(LONG, False), text(b"")]
    return [((null_type() if i % 2 else null()) if i in nulls else mk_[(i + base) % len(mk_)])(env, path, f"{base}.{i}") for i in range(n)]


def many(rep, p, a):
    """Any number of attributes, and any of them NULL"""
    sizes = (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 64) + ((250, 251, 300, 1000) if rep.thorough else (251,))
    for n in sizes:
        patterns = [(), tuple(range(n))] if n else [()]
        if 1 < n <= 17:
            patterns += [(i,) for i in range(n)]
        elif n > 17:
            patterns += [(0,), (7,), (8,), (n - 1,), tuple(range(0, n, 2))]
        for j in range(0, len(patterns), 8):
            group = patterns[j:j + 8]

            def cmds(env, path, group=group):
                cs, ctx = [], []
                for k, nulls in enumerate(group):
                    vs = mixed(env, path, n, nulls, k * n)
                    s = env.text(path, f"sql {k}", 30)
                    cs.append(env.com_query(s, vs, names_of(n)))
                    ctx.append((nulls, vs, s))
                return cs, ctx

            def each(env, path, ctx):
                for k, (nulls, vs, s) in enumerate(ctx):
                    txt = "none" if not nulls else "all" if len(nulls) == n else ", ".join(map(str, nulls[:3])) + ("" if len(nulls) < 4 else ", ..")
                    a.expect(env, path, f"COM_QUERY with {n} attributes, NULL: {txt}", k, sql_is(env, s), list(zip(names_of(n), vs)))

            a.run(f"COM_QUERY with {n} attributes ({j + 1}..)", cmds, each)


def naming(rep, p, a):
    """Arbitrary names"""

    def cmds(env, path):
        ns = [b"", b"a", "ключ".encode(), b"x" * 250, b"x" * 251, b"a b", b"A", b"%s", b"'", b"\0", b"_client_name"]
        ns += [env.text(path, f"name of {n} bytes", n) for n in (1, 5, 250, 251, 65536)]
        cs, ctx = [], []
        for k, nm in enumerate(ns):
            v = integer(LONG, False)(env, path, k)
            s = env.text(path, f"sql {k}", 30)
            cs.append(env.com_query(s, [v], [nm]))
            ctx.append((nm, [(nm, v)], s))
        # all of them at once; names that differ in case
        vs = [integer(LONG, False)(env, path, f"all {k}") for k in range(len(ns))]
        cs.append(env.com_query(b"SELECT 1", vs, ns))
        ctx.append(("all names", list(zip(ns, vs)), b"SELECT 1"))
        return cs, ctx

    def prep(env, path):
        cs, ctx = [env.com_prepare(b"SELECT ?"), env.com_prepare(b"SELECT 1")], []
        w = integer(LONG, False)(env, path, "param")
        for k, nm in enumerate((b"", b"a", "ключ".encode(), b"x" * 251, env.text(path, "a name", 5))):
            v = integer(LONG, False)(env, path, k)
            cs.append(env.com_execute(0, [w, v], [b"", nm], attributes=True))
            cs.append(env.com_execute(1, [v], [nm], attributes=True))
            ctx.append((nm, v))
        return cs, ctx

    def each_prep(env, path, ctx):
        for k, (nm, v) in enumerate(ctx):
            a.expect(env, path, f"execution with a parameter and an attribute named {show(nm)[:40]}", 2 + 2 * k, None, [(nm, v)], "EXECUTE")
            a.expect(env, path, f"execution with an attribute named {show(nm)[:40]}", 3 + 2 * k, sql_is(env, b"SELECT 1"), [(nm, v)], "EXECUTE")

    a.run("COM_STMT_EXECUTE: names of attributes", prep, each_prep)

    def each(env, path, ctx):
        for k, (nm, attrs, s) in enumerate(ctx):
            t = nm if isinstance(nm, str) else f"an attribute named {show(nm)[:40]}"
            a.expect(env, path, f"COM_QUERY with {t}", k, sql_is(env, s), attrs)

    a.run("COM_QUERY: names of attributes", cmds, each)


SQLS = [b"\0", b"\x01", b"\x02", b"\0\x01SELECT 1", b"\x01\x01\0\x01\x0f\0\x01aSELECT 1", b"\x02\x01", b"\x7f", b"SELECT 1", b" SELECT 1 ; ", b"SELECT 1\0", b"\n", b"SELECT 'a?b', \"\"", "SELECT 'é😀'".encode()]


def texts(rep, p, a):
    """The SQL is what follows the parameter block - all of it, and nothing else"""
    for on in (True, False):
        def cmds(env, path, on=on):
            ss = list(SQLS) + [cat(b, env.text(path, f"rest {i}", 40)) for i, b in enumerate((b"", b"\0", b"\x01", b"\x02", b"\0\x01", b"\x01\x01", b"\xff"))]
            ss.append(cat(b"\x01", Sym("atom", "the rest", ty="bytes")))
            cs, ctx = [], []
            for s in ss:
                cs.append(env.com_query(s, attributes=on))
                ctx.append((s, []))
            if on:
                for k, s in enumerate(ss):
                    v = integer(LONG, False)(env, path, k)
                    cs.append(env.com_query(s, [v], [b"a"]))
                    ctx.append((s, [(b"a", v)]))
            return cs, ctx

        def each(env, path, ctx, on=on):
            for k, (s, attrs) in enumerate(ctx):
                t = f"{len(attrs)} attributes" if on else "capability not negotiated"
                a.expect(env, path, f"COM_QUERY, {t}, SQL {show(s)[:50]}", k, sql_is(env, s), attrs)

        a.run(f"COM_QUERY: SQL, query attributes {'' if on else 'not '}negotiated", cmds, each, caps=QUERY_ATTRIBUTES if on else 0)


def apart(rep, p, a):
    """A statement has its own attributes only"""

    def cmds(env, path):
        v = [integer(LONG, False)(env, path, k) for k in range(4)]
        cs = [
            env.com_query(b"SELECT 1", v[:1], [b"a"]),
            env.com_query(b"SELECT 2"),
            env.com_query(b"SELECT 3", v[1:2], [b"b"]),
            env.com_prepare(b"SELECT ?"),
            env.com_execute(0, v[2:4], [b"", b"c"], attributes=True),
            env.com_execute(0, v[2:3], [b""], attributes=True),
            env.com_execute(0, v[2:3], [b""], attributes=True, flag=False),
            env.com_query(b"SELECT 4"),
        ]
        return cs, [(0, b"SELECT 1", [(b"a", v[0])]), (1, b"SELECT 2", []), (2, b"SELECT 3", [(b"b", v[1])]), (4, None, [(b"c", v[3])]), (5, None, []), (6, None, []), (7, b"SELECT 4", [])]

    def each(env, path, ctx):
        for i, s, attrs in ctx:
            a.expect(env, path, f"statement {i + 1} of a conversation", i, sql_is(env, s) if s else None, attrs)

    a.run("statements with and without attributes", cmds, each)


def prepared(rep, p, a):
    """Attributes of prepared statements, along with positional parameters"""
    ms = (0, 1, 2, 7, 8, 9) if not rep.thorough else (0, 1, 2, 3, 7, 8, 9, 15, 16, 17)
    ns = (0, 1, 2, 7, 8, 9)
    for m in ms:
        template = b"SELECT " + b", ".join([b"?"] * m) if m else b"SELECT 'a?b'"

        def cmds(env, path, m=m):
            cs, ctx = [env.com_prepare(template)], []
            for n in ns:
                for nulls in ((), (0,), (m,), (m + n - 1,)) if m + n else ((),):
                    if any(i < 0 or i >= m + n for i in nulls):
                        continue
                    vs = mixed(env, path, m, nulls, 0)
                    at = [(null() if m + i in nulls else x)(env, path, f"{len(cs)}.{i}") for i, x in enumerate([text(n=4), integer(SHORT, True), text(b""), floating(FLOAT), integer(LONGLONG, False)] * 2) if i < n]
                    nm = names_of(n)
                    # alone, then with attributes
                    cs.append(env.com_execute(0, vs, [b""] * m, attributes=True))
                    cs.append(env.com_execute(0, vs + at, [b""] * m + nm, attributes=True))
                    ctx.append((len(cs) - 2, len(cs) - 1, n, nulls, list(zip(nm, at))))
            return cs, ctx

        def each(env, path, ctx, m=m):
            for i, j, n, nulls, attrs in ctx:
                s = f"execution with {m} parameters"
                t = f"NULL: {', '.join(map(str, nulls)) or 'none'}"
                sql = a.expect(env, path, f"{s}, no attributes, {t}", i, None, [], "EXECUTE")
                if sql is None:
                    continue

                def same(got, sql=sql):
                    return True if got is sql or isinstance(got, str) and got == sql else False if not isinstance(got, AV) and not isinstance(sql, AV) or isinstance(got, Sym) and isinstance(sql, Sym) else None

                a.expect(env, path, f"{s}, {n} attributes, {t}", j, same, attrs, "EXECUTE")

        a.run(f"COM_STMT_EXECUTE with {m} parameters", cmds, each)


def every_kind(rep, p, a):
    """Attributes of prepared statements, of every kind"""
    ks = list(kinds())

    def cmds(env, path):
        cs = [env.com_prepare(b"SELECT ?"), env.com_prepare(b"SELECT 1")]
        ctx = []
        for k, mkv in enumerate(ks):
            v = mkv(env, path, k)
            w = integer(LONG, False)(env, path, f"param {k}")
            cs.append(env.com_execute(0, [w, v], [b"", b"name"], attributes=True))
            cs.append(env.com_execute(1, [v], [b"name"], attributes=True))
            ctx.append(v)
        return cs, ctx

    def each(env, path, ctx):
        for k, v in enumerate(ctx):
            a.expect(env, path, f"execution with a parameter and {v.what}", 2 + 2 * k, None, [(b"name", v)], "EXECUTE")
            a.expect(env, path, f"execution with {v.what}", 3 + 2 * k, sql_is(env, b"SELECT 1"), [(b"name", v)], "EXECUTE")

    a.run("COM_STMT_EXECUTE with one attribute, of every kind", cmds, each)


def long_data(rep, p, a):
    """Long data of parameters isn't data of attributes"""

    def cmds(env, path):
        v = [text(n=4)(env, path, "x"), integer(LONG, False)(env, path, "y"), text(n=6)(env, path, "z")]
        w = Value(VAR_STRING, False, None, None, "long data")
        cs = [
            env.com_prepare(b"SELECT ?, ?"),
            env.com_long(0, 1, env.text(path, "long", 20)),
            env.com_execute(0, [v[1], w, v[0], v[2]], [b"", b"", b"a", b"b"], attributes=True),
            env.com_execute(0, [v[1], v[0], v[0], v[2]], [b"", b"", b"a", b"b"], attributes=True),
        ]
        return cs, [(b"a", v[0]), (b"b", v[2])]

    def each(env, path, ctx):
        a.expect(env, path, "execution with long data and attributes", 2, None, ctx, "EXECUTE")
        a.expect(env, path, "execution after one with long data", 3, None, ctx, "EXECUTE")

    a.run("COM_STMT_EXECUTE with long data and attributes", cmds, each)


def not_negotiated(rep, p, a):
    """Prepared statements of clients that don't know of attributes"""

    def cmds(env, path):
        vs = mixed(env, path, 9, (2,))
        cs = [env.com_prepare(b"SELECT " + b", ".join([b"?"] * 9)), env.com_execute(0, vs), env.com_prepare(b"SELECT 1"), env.com_execute(1, [])]
        return cs, None

    def each(env, path, ctx):
        a.expect(env, path, "execution with parameters, capability not negotiated", 1, None, [], "EXECUTE")
        a.expect(env, path, "execution without parameters, capability not negotiated", 3, sql_is(env, b"SELECT 1"), [], "EXECUTE")

    a.run("COM_STMT_EXECUTE, query attributes not negotiated", cmds, each, caps=0)


def check(rep):
    p = Program()
    rep.rule("attrs.delivered", "A statement with attributes reaches the application, once")
    rep.rule("attrs.name", "Each attribute arrives under the name the client gave it")
    rep.rule("attrs.value", "Each attribute arrives with the value the client gave it (integers: width and signedness; floats; texts: decoded with the client's character set; NULL)")
    rep.rule("attrs.mapping", "No other attributes arrive")
    rep.rule("attrs.sql", "The SQL is the text after the parameter block, unchanged; attributes don't alter it or the parameters")
    rep.assumptions += ["Packets have the layout of MySQL's protocol documentation; parts of them (values, names, SQL) are unknown bytes of a known number. Boundary values are considered in addition."]
    a = Attrs(rep, p)
    for f in (single, many, naming, texts, apart, prepared, every_kind, long_data, not_negotiated):
        rep.section(f, rep, p, a)
