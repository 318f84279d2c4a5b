"""C06: parameters of prepared statements are bound as data, never as SQL"""
from __future__ import annotations

import itertools
import re

from .evalterm import Unknown, ev, holds
from .stmt import *

# -- how MySQL reads a statement

SPACE = " \t\n\r\f\v"


def lex(sql):
    """(kind, text) of the tokens of a statement.  Kinds: ? string ident comment space other open (unterminated)"""
    i, n = 0, len(sql)
    while i < n:
        c = sql[i]
        if c in "'\"":
            j = i + 1
            while j < n:
                if sql[j] == "\\":
                    j += 2
                elif sql[j] == c:
                    if sql[j + 1:j + 2] == c:
                        j += 2
                    else:
                        break
                else:
                    j += 1
            if j >= n:
                yield "open", sql[i:]
                return
            yield "string", sql[i:j + 1]
            i = j + 1
        elif c == "`":
            j = i + 1
            while j < n:
                if sql[j] == "`":
                    if sql[j + 1:j + 2] == "`":
                        j += 2
                        continue
                    break
                j += 1
            if j >= n:
                yield "open", sql[i:]
                return
            yield "ident", sql[i:j + 1]
            i = j + 1
        elif sql.startswith("/*", i):
            j = sql.find("*/", i + 2)
            if j < 0:
                yield "open", sql[i:]
                return
            yield "comment", sql[i:j + 2]
            i = j + 2
        elif c == "#" or sql.startswith("--", i) and (i + 2 >= n or sql[i + 2] in SPACE):
            j = sql.find("\n", i)
            j = n if j < 0 else j
            yield "comment", sql[i:j]
            i = j
        elif c == "?":
            yield "?", c
            i += 1
        elif c in SPACE:
            j = i
            while j < n and sql[j] in SPACE:
                j += 1
            yield "space", sql[i:j]
            i = j
        else:
            yield "other", c
            i += 1


def template_parts(sql):
    """What's between the placeholders"""
    out = [""]
    for k, t in lex(sql):
        if k == "?":
            out.append("")
        else:
            out[-1] += t
    return out


ESC = {"0": "\0", "'": "'", '"': '"', "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "\\": "\\", "%": "\\%", "_": "\\_"}


def string_value(sql, i):
    """(the string that a literal denotes, where it ends)"""
    q, out, i = sql[i], [], i + 1
    while i < len(sql):
        c = sql[i]
        if c == "\\":
            if i + 1 >= len(sql):
                return None
            out.append(ESC.get(sql[i + 1], sql[i + 1]))
            i += 2
        elif c == q:
            if sql[i + 1:i + 2] == q:
                out.append(q)
                i += 2
            else:
                return "".join(out), i + 1
        else:
            out.append(c)
            i += 1
    return None


NUMBER = re.compile(r"[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?")
EPS = 0.0


def literal_at(sql, i, want):
    """Where the literal at i ends, or why it doesn't denote `want`"""
    if isinstance(want, str):
        if sql[i:i + 1] not in ("'", '"'):
            return f"no string literal, but {sql[i:i + 30]!r}"
        r = string_value(sql, i)
        if r is None:
            return "the literal doesn't end"
        if r[0] != want:
            return f"the literal denotes {r[0][:60]!r}"
        return r[1]
    if want is None:
        return i + 4 if sql[i:i + 4].upper() == "NULL" and not (sql[i + 4:i + 5].isalnum() or sql[i + 4:i + 5] == "_") else f"not NULL, but {sql[i:i + 30]!r}"
    m = NUMBER.match(sql, i)
    if m is None:
        for w, v in (("TRUE", 1), ("FALSE", 0)):
            if sql[i:i + len(w)].upper() == w and want == v:
                return i + len(w)
        return f"no number, but {sql[i:i + 30]!r}"
    txt = m.group()
    if isinstance(want, float):
        ok = float(txt) == want
    else:
        ok = re.fullmatch(r"[+-]?\d+", txt) is not None and int(txt) == want
    if sql[m.end():m.end() + 1].isalnum() or sql[m.end():m.end() + 1] in ("_", ".", "$"):
        return f"the number is followed by {sql[m.end():m.end() + 10]!r}"
    return m.end() if ok else f"the literal is {txt}"


def compare(sql, pieces, values):
    """Is it the template, with literals for these values?  None if so, or else what's wrong"""
    i = 0
    for k, piece in enumerate(pieces):
        if not sql.startswith(piece, i):
            s = piece.lstrip(SPACE)
            return f"{'at the start' if not k else f'after literal {k}'}, {sql[i:i + 40]!r} instead of {piece[:40]!r}"
        i += len(piece)
        if k < len(values):
            while sql[i:i + 1] and sql[i] in SPACE:
                i += 1
            par = 0
            while sql[i:i + 1] == "(":
                par, i = par + 1, i + 1
            r = literal_at(sql, i, values[k])
            if isinstance(r, str):
                return f"parameter {k}: {r}"
            if not par and sql[i] in "+-" and sql[i - 1:i] == sql[i]:
                return f"parameter {k}: {sql[i - 1:i + 5]!r} starts a comment"
            i = r
            if par:
                if sql[i:i + par] != ")" * par:
                    return f"parameter {k}: unbalanced parentheses"
                i += par
            while len(pieces[k + 1:]) and not sql.startswith(pieces[k + 1], i) and sql[i:i + 1] and sql[i] in SPACE:
                i += 1
    return None if i == len(sql) else f"there's more: {sql[i:i + 40]!r}"


# -- the obligations


class Bind:
    def __init__(self, rep, program):
        self.rep, self.p = rep, program
        self.where = "mysql_mimic/packets.py (parse_com_stmt_execute), mysql_mimic/connection.py"

    def run(self, name, cmds, each, caps=0, max_paths=12, charset="utf8mb4"):
        env = Stmt(self.p)
        env.caps_on = caps
        env.client_charset = charset

        def go(path):
            path.data["free"] = {}
            cs, ctx = cmds(env, path)
            path.data["sent"] = ctx
            env.run(path, cs)

        def done(r):
            if r.status not in ("ok", "raise"):
                self.rep.ob("analysis", name, None, f"{r.status}: {r.reason}")
                return
            each(env, r.path, r.path.data["sent"])

        self.rep.explore(self.p, env, go, name, max_paths=max_paths, budget_s=90, each=done)

    def sql_of(self, path, i, site):
        qs = [q for q in path.data["queries"] if q[0] == i]
        self.rep.ob("bind.delivered", site, len(qs) == 1, f"the statement isn't run ({len(qs)} calls of handle_query)", where=self.where, path=path)
        return qs[0][1] if len(qs) == 1 else None

    def count(self, path, k, template, site):
        ps = path.data["prepared"]
        want = len(template_parts(template)) - 1
        if k >= len(ps) or ps[k] is None:
            self.rep.ob("bind.count", site, None, "no response to COM_STMT_PREPARE")
            return False
        self.rep.ob("bind.count", site, ps[k][1] == want, f"{ps[k][1]} parameters are announced for a statement with {want} placeholders: {template[:60]!r}", where="mysql_mimic/connection.py (Connection.handle_stmt_prepare)", path=path)
        return ps[k][1] == want

    def constant(self, path, i, template, values, site, rule="bind.literal"):
        """An execution with known values"""
        sql = self.sql_of(path, i, site)
        if sql is None:
            return
        if isinstance(sql, Sym):
            self.rep.ob(rule, site, None, f"the SQL isn't known: {show(sql)[:80]}")
            return
        why = compare(sql, template_parts(template), values) if isinstance(sql, str) else "not a string"
        self.rep.ob(rule, site, why is None, f"{why} - {template[:40]!r} with {str(values)[:80]} becomes {sql[:100]!r}", where=self.where, path=path)


ALPHABET = ["'", '"', "\\", "`", "?", "\0", "\n", "\r", "\t", "\x1a", "\b", "%", "_", "-", "/", "*", "#", ";", "a", "n", "0", "Z", "g", "<", "{", "}", "$", " ", "\x85", "é", "あ", "😀", ":", "&"]
WORDS = ["\\1", "\\g<0>", "\\g<1>", "\\0", "%s", "{0}", "{}", "$1", "' OR '1'='1", "'; DROP TABLE t; -- ", "'?'", "\\'", "\\\\'", "''", "\\", "%d", "\\n", "\\%", "NULL", "1", "/*", "*/", "-- ", ":1", "a" * 300 + "'" + "b" * 300]


def words(rep, p, b):
    """Literals of texts: for all texts, from the term that the program computes"""
    template = "SELECT ?, '?', ?"
    alphabet = ALPHABET if rep.thorough else ALPHABET
    ws = list(alphabet) + ["".join(x) for x in itertools.product(alphabet, repeat=2)] + WORDS
    ws += ["".join(x) for x in itertools.product("'\\?\"a%", repeat=3)]
    if rep.thorough:
        ws += ["".join(x) for x in itertools.product(ALPHABET[:12] + ["a", "n"], repeat=3)] + ["".join(x) for x in itertools.product("'\\?a", repeat=5)]
    applied = {}

    def cmds(env, path):
        v = [text(n=30)(env, path, k) for k in range(3)]
        l1, l2 = env.data(path, "chunk 1", 10), env.data(path, "chunk 2", 12)
        cs = [
            env.com_prepare(template.encode()),
            env.com_execute(0, [v[0], v[1]]),
            env.com_execute(0, [v[2], text(b"x")(env, path, "x")]),
            env.com_long(0, 1, l1),
            env.com_long(0, 1, l2),
            env.com_execute(0, [v[0], Value(VAR_STRING, False, b"", None, "long data")]),
            env.com_execute(0, [v[0], v[1]]),
        ]
        return cs, [(1, [v[0].expect[1], v[1].expect[1]]), (2, [v[2].expect[1], "x"]), (5, [v[0].expect[1], cat(l1, l2)]), (6, [v[0].expect[1], v[1].expect[1]])]

    def each(env, path, ctx):
        b.count(path, 0, template, f"template {template!r}")
        for i, xs in ctx:
            site = f"texts, execution {i}"
            sql = b.sql_of(path, i, site)
            if sql is None:
                continue
            decs = {t for t in terms(sql) if t.op == "m" and t.args[0] == "decode"}
            known = {x: Sym("m", "decode", x, "utf-8", "strict", ty="str") for x in xs if isinstance(x, Sym)}
            # the right values, each of them
            for k, x in enumerate(xs):
                if isinstance(x, Sym):
                    have = known[x] in decs
                    rep.ob("bind.value", f"{site}, parameter {k}", True if have else None, f"{show(known[x])[:60]} isn't in the SQL {show(sql)[:120]}", where=b.where, path=path)
            if not all(d in decs for d in known.values()):
                continue
            n = bad = unk = 0
            msg = ""
            for k, x in enumerate(xs):
                if not isinstance(x, Sym):
                    continue
                for w in ws:
                    e = {known[y]: "v" for y in known}
                    e[known[x]] = w
                    h = holds(path, e)
                    if h is False:
                        continue
                    try:
                        got = ev(sql, e)
                    except (Unknown, Exception) as exn:  # pylint: disable=broad-except
                        unk += 1
                        msg = msg or f"{type(exn).__name__}: {exn}"
                        continue
                    n += 1
                    why = compare(got, template_parts(template), [e[known[y]] if isinstance(y, Sym) else y for y in xs])
                    if why is not None and h:
                        bad += 1
                        if bad <= 3:
                            rep.ob("bind.literal", f"{site}: text {w!r} as parameter {k}", False, f"{why} - {got[:100]!r}", where=b.where, path=path)
                    elif why is not None:
                        unk += 1
            applied[site] = applied.get(site, 0) + n
            if not bad:
                rep.ob("bind.literal", f"{site}: {len(ws)} words over the alphabet of special characters", None if unk else True, msg)

    b.run("texts: unknown", cmds, each, max_paths=64)


def words_concrete(rep, p, b):
    """The same, character by character (for programs whose term isn't understood)"""
    singles = [c for c in ALPHABET] + WORDS + ["".join(x) for x in itertools.product("'\\?a", repeat=2)]
    template = "SELECT " + ", ".join(["?"] * 10) + " FROM `?` WHERE x = '?'"
    groups = [singles[i:i + 10] for i in range(0, len(singles), 10)]
    groups[-1] += [""] * (10 - len(groups[-1]))

    def cmds(env, path):
        cs = [env.com_prepare(template.encode())]
        for g in groups:
            cs.append(env.com_execute(0, [text(w.encode())(env, path, w) for w in g]))
        return cs, groups

    def each(env, path, groups):
        b.count(path, 0, template, "ten texts")
        for i, g in enumerate(groups):
            b.constant(path, i + 1, template, g, f"texts {str(g)[:100]}")

    b.run("texts: characters", cmds, each)


def numbers(rep, p, b):
    """Integers, floats and NULL"""
    ks = []
    for t in (TINY, SHORT, LONG, LONGLONG, INT24, YEAR):
        for u in (False, True):
            ks += [(v, integer(t, u, v)) for v in boundaries(t, u)]
    ks += [(v, floating(DOUBLE, v)) for v in (0.0, -0.0, 0.1, 1.0, -2.5, 1e16, 1e22, 1e300, 5e-324, 1.7976931348623157e308, 0.1 + 0.2, 123456789.123456789, -1e-7)]
    ks += [(struct.unpack("<f", struct.pack("<f", v))[0], floating(FLOAT, v)) for v in (0.0, 0.1, -3.4028234663852886e38, 1e-45, 16777217.0)]
    ks += [(None, null(t)) for t in (VAR_STRING, LONG, DOUBLE, LONGLONG)] + [(None, null_type())]
    template = "SELECT " + ", ".join(["?"] * 8) + ", a -?, b - ?, c+?, d*?"
    m = 12
    groups = [ks[i:i + m] for i in range(0, len(ks), m)] + [[ks[(i * 7 + j * 5) % len(ks)] for j in range(m)] for i in range(8)]
    groups = [g + [ks[1]] * (m - len(g)) for g in groups]

    def cmds(env, path):
        return [env.com_prepare(template.encode())] + [env.com_execute(0, [mkv(env, path, (i, j)) for j, (_, mkv) in enumerate(g)]) for i, g in enumerate(groups)], groups

    def each(env, path, groups):
        b.count(path, 0, template, "numbers")
        for i, g in enumerate(groups):
            vs = [v for v, _ in g]
            b.constant(path, i + 1, template, vs, f"numbers {str(vs)[:100]}")

    b.run("numbers", cmds, each)

    def unknown(env, path):
        ts = [integer(t, u) for t in (TINY, SHORT, LONG, LONGLONG) for u in (False, True)] + [floating(FLOAT), floating(DOUBLE)]
        cs, ctx = [env.com_prepare(b"SELECT x, ?")], []
        for k, t in enumerate(ts):
            v = t(env, path, k)
            cs.append(env.com_execute(0, [v]))
            ctx.append(v)
        return cs, ctx

    def each_unknown(env, path, ctx):
        for k, v in enumerate(ctx):
            sql = b.sql_of(path, k + 1, f"number: {v.what}")
            if sql is None:
                continue
            if not isinstance(sql, Sym) or not mentions(sql, v.expect):
                others = {t for t in terms(sql) if t.op in ("unle", "unf", "unbe", "unfbe")} if isinstance(sql, Sym) else set()
                rep.ob("bind.value", v.what, False if others else None, f"{show(v.expect)} isn't in {show(sql)[:100]}", where=b.where, path=path)
                continue
            rep.ob("bind.value", v.what, True)
            w = v.expect.args[0]
            if v.expect.op == "unle":
                s = v.expect.args[1]
                xs = [x for n in (8, 16, 32, 64) for x in ((1 << n) - 1, 1 << n - 1, (1 << n - 1) - 1, -(1 << n - 1))] + [0, 1, -1, 7, 10, 100, 12345]
                lo, hi = (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if s else (0, (1 << 8 * w) - 1)
                xs = [x for x in xs if lo <= x <= hi]
            else:
                xs = [0.0, 0.1, -2.5, 1e300 if w == 8 else 1e30, 1e16, 5e-324 if w == 8 else 2.0**-149, -1e-7]
            for x in xs:
                e = {v.expect: x}
                if holds(path, e) is False:
                    continue
                try:
                    got = ev(sql, e)
                except Exception as exn:  # pylint: disable=broad-except
                    rep.ob("bind.literal", v.what, None, str(exn))
                    continue
                why = compare(got, template_parts("SELECT x, ?"), [x])
                rep.ob("bind.literal", v.what, why is None, f"{why}: {got!r}", where=b.where, path=path)

    b.run("numbers: unknown", unknown, each_unknown, max_paths=1100 if rep.thorough else 40)


SEGMENTS = [
    "?", "'?'", '"?"', "`?`", "'a''?'", "'a\\'?'", '"a""?"', '"\\"?"', "`a``?`", "'\\\\'", "'\"'", "\"'\"", "`'`", "'`'", "''", '""', "'\\\\\\'?'", "/* ? */", "/* ' */", "-- ?\n1", "# ?\n1", "# '\n1",
    "'--'", "'/*'", "'#'", "a", "-?", "(?)", "'é?'", "'?\n?'", "'\\\\'?", "`\\`", "'' ?", "a/b", "-- \n?", "1 - -?", "'%s'", "\\",
]


def templates(rep, p, b):
    """What's a placeholder, and what isn't"""
    segs = SEGMENTS
    ts = [f"SELECT {x}" for x in segs] + [f"SELECT {x}, {y}" for x in segs for y in segs]
    ts += ["?", "", "?, ?", "SELECT 1", "SELECT ? ", " SELECT ?;", "INSERT INTO t VALUES (?, '?', \"?\", `?`, ?) -- ?", "SELECT '?", "SELECT ?\n", "SELECT " + ",".join(["?"] * 300)]
    if rep.thorough:
        few = ["?", "'?'", '"\\"?"', "`?`", "'a''?'", "'\\\\'", "/* ' */", "# '\n1", "\"'\""]
        ts += [f"SELECT {x} {y} {z}" for x in few for y in few for z in few]
    ts = [t for t in ts if not any(k == "open" for k, _ in lex(t))]
    vals = [7, "a?b'", None, 5]
    for j in range(0, len(ts), 60):
        group = ts[j:j + 60]

        def cmds(env, path, group=group):
            cs, ctx = [], []
            for k, t in enumerate(group):
                n = len(template_parts(t)) - 1
                xs = [vals[i % 4] for i in range(n)]
                vs = [text(x.encode())(env, path, 0) if isinstance(x, str) else null()(env, path, 0) if x is None else integer(LONG, False, x)(env, path, 0) for x in xs]
                cs += [env.com_prepare(t.encode()), self_execute(env, k, vs, n)]
                ctx.append((k, 2 * k + 1, t, xs))
            return cs, ctx

        def each(env, path, ctx):
            for k, i, t, xs in ctx:
                if b.count(path, k, t, f"template {t[:60]!r}"):
                    b.constant(path, i, t, xs, f"template {t[:60]!r}", "bind.template")

        b.run(f"templates {j + 1}..{j + len(group)}", cmds, each)


def self_execute(env, k, vs, n):
    ex = env.com_execute(k, vs)

    def make(env, path):
        if path.data["prepared"][k] is None or path.data["prepared"][k][1] != n:
            return b"\x0e"  # (a mismatch is reported; don't send nonsense)
        return ex(env, path)

    return make


def chunks(rep, p, b):
    """Long data"""
    template = "SELECT ?, ?, ?"
    ld = Value(BLOBS[3], False, b"", None, "long data")

    def cmds(env, path):
        i7 = integer(LONG, False, 7)(env, path, 0)
        tx = text(b"t'x")(env, path, 0)
        nul = null()(env, path, 0)
        e = "é".encode()
        cs = [env.com_prepare(template.encode()), env.com_prepare(b"SELECT 'other', ?")]
        ctx = []

        def ex(k, vs, expect, what):
            cs.append(env.com_execute(k, vs))
            ctx.append((len(cs) - 1, k, expect, what))

        cs += [env.com_long(0, 1, b"ab"), env.com_long(0, 1, b"c'd\\"), env.com_long(0, 1, b""), env.com_long(0, 1, b"e?")]
        ex(0, [i7, ld, tx], [7, "abc'd\\e?", "t'x"], "chunks of one parameter")
        ex(0, [i7, tx, nul], [7, "t'x", None], "the next execution")
        cs += [env.com_long(0, 2, b"2a"), env.com_long(0, 0, b"0a"), env.com_long(0, 2, b"2b"), env.com_long(0, 0, b"0b"), env.com_long(0, 1, b"1a")]
        ex(0, [ld, ld, ld], ["0a0b", "1a", "2a2b"], "interleaved chunks of several parameters")
        cs += [env.com_long(0, 0, e[:1]), env.com_long(0, 0, e[1:] + b"?")]
        ex(0, [ld, i7, i7], ["é?", 7, 7], "a character in two chunks")
        cs += [env.com_long(0, 0, b"")]
        ex(0, [ld, i7, tx], ["", 7, "t'x"], "an empty chunk")
        cs += [env.com_long(0, 1, b"one")]
        cs += [env.com_long(1, 0, b"two")]
        ex(1, [ld], ["two"], "chunks of another statement")
        ex(0, [tx, ld, i7], ["t'x", "one", 7], "chunks sent before another statement ran")
        ex(1, [tx], ["t'x"], "the other statement, executed again")
        cs += [env.com_long(0, 0, b"gone")]
        cs += [env.com_simple(0x1A, 0)]
        ex(0, [i7, i7, tx], [7, 7, "t'x"], "after COM_STMT_RESET")
        cs += [env.com_long(0, 0, b"x" * 300), env.com_long(0, 0, b"'" * 3)]
        ex(0, [ld, tx, i7], ["x" * 300 + "'''", "t'x", 7], "long chunks")
        cs += [env.com_long(0, 2, b"123")]
        ex(0, [i7, tx, Value(LONG, False, b"", None, "long data of a number")], [7, "t'x", "123"], "long data for a parameter of another type")
        # a statement prepared from the same text isn't the same statement
        cs += [env.com_prepare(template.encode()), env.com_long(2, 0, b"third"), ]
        ex(0, [i7, i7, i7], [7, 7, 7], "long data of another statement with the same text")
        ex(2, [ld, i7, i7], ["third", 7, 7], "the statement it was sent for")
        return cs, ctx

    def each(env, path, ctx):
        for i, k, expect, what in ctx:
            if what.startswith("long data for a parameter of another type"):
                continue
            b.constant(path, i, "SELECT 'other', ?" if k == 1 else template, expect, f"long data: {what}", "bind.long")

    b.run("long data", cmds, each)


def again(rep, p, b):
    """Executions don't depend on earlier ones"""
    template = "UPDATE t SET a = ?, b = '?' WHERE c = ? -- ?"

    def cmds(env, path):
        runs = [["?", "?"], ["a", "?'?"], [1, None], ["\\1", "\\g<0>"], [None, "x"], ["'", 3], ["?", "?"]]
        cs = [env.com_prepare(template.encode()), env.com_prepare(b"SELECT 1")]
        for r in runs:
            cs.append(env.com_execute(0, [text(x.encode())(env, path, 0) if isinstance(x, str) else null()(env, path, 0) if x is None else integer(LONG, False, x)(env, path, 0) for x in r]))
            cs.append(env.com_execute(1, []))
        return cs, runs

    def each(env, path, runs):
        for i, r in enumerate(runs):
            b.constant(path, 2 * i + 2, template, r, f"execution {i + 1} of a statement", "bind.repeat")
            b.constant(path, 2 * i + 3, "SELECT 1", [], "a statement without parameters", "bind.repeat")

    b.run("repeated executions", cmds, each)


def many(rep, p, b):
    """Any number of parameters, any of them NULL"""
    for n in (1, 2, 7, 8, 9, 15, 16, 17, 33) + ((251, 300) if rep.thorough else ()):
        template = "SELECT " + ", ".join(["?"] * n)
        for caps in (0, QUERY_ATTRIBUTES):
            def cmds(env, path, n=n, caps=caps):
                cs, ctx = [env.com_prepare(template.encode())], []
                for nulls in [(), tuple(range(n))] + [(i,) for i in range(min(n, 18))] + [tuple(range(0, n, 2))]:
                    xs = [None if i in nulls else [f"v{i}?", i, f"'{i}"][i % 3] for i in range(n)]
                    vs = [text(x.encode())(env, path, 0) if isinstance(x, str) else (null_type() if i % 2 else null())(env, path, 0) if x is None else integer(LONG, False, x)(env, path, 0) for i, x in enumerate(xs)]
                    cs.append(env.com_execute(0, vs, [b""] * n, attributes=bool(caps)))
                    ctx.append((len(cs) - 1, nulls, xs))
                return cs, ctx

            def each(env, path, ctx, n=n):
                b.count(path, 0, template, f"{n} placeholders")
                for i, nulls, xs in ctx:
                    t = "none" if not nulls else "all" if len(nulls) == n else ", ".join(map(str, nulls[:3]))
                    b.constant(path, i, template, xs, f"{n} parameters, NULL: {t}", "bind.order")

            b.run(f"{n} parameters{', query attributes negotiated' if caps else ''}", cmds, each, caps=caps)


def check(rep):
    p = Program()
    rep.rule("bind.count", "The number of parameters that COM_STMT_PREPARE announces is the number of placeholders: question marks outside of quotes and comments")
    rep.rule("bind.delivered", "The statement runs, once")
    rep.rule("bind.value", "The literal is made of the value the client sent for that placeholder (decoded text; long data: all chunks, in order)")
    rep.rule("bind.literal", "The literal denotes exactly that value, and what's around it is unchanged")
    rep.rule("bind.template", "Placeholders, and nothing else, are replaced")
    rep.rule("bind.order", "The i-th placeholder is replaced by the i-th value, NULL exactly where the client says so")
    rep.rule("bind.long", "Long data: chunks of a parameter are concatenated in order, belong to one execution of one statement")
    rep.rule("bind.repeat", "An execution doesn't depend on earlier ones")
    rep.assumptions += [
        "MySQL's rules for strings (backslash escapes, doubled quotes), quoted identifiers and comments",
        "For texts, the analyser extracts the SQL as a term of the unknown text, and the term is evaluated at all words of up to two of %d characters (every special character, and representatives of the others), further ones at longer words" % len(ALPHABET),
    ]
    b = Bind(rep, p)
    for f in (words, words_concrete, numbers, templates, chunks, again, many):
        rep.section(f, rep, p, b)
