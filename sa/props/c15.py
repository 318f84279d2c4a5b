"""C15: text crosses the wire in the negotiated character sets without corruption"""
from __future__ import annotations

import codecs
import json
import os
import time

from .. import csettexts as cs
from .c05 import binary_cells, client_columns, known, rows_of, text_cells
from .reply import Bad, Rd, Unknown, attempt, column_definition, err_packet, ok_packet
from .sess import *
from .stmt import *

HERE = os.path.dirname(os.path.abspath(__file__))
_rep = {}


def repertoire(name):
    """Every character of the set, once"""
    if name not in _rep:
        c = cs.CODECS[name]
        wide = name in ("utf8mb4", "utf16", "utf32", "gb18030")
        out = []
        for lo, hi in ((0, 0xD800), (0xE000, 0x10000)):
            for i in range(lo, hi):
                ch = chr(i)
                try:
                    if ch.encode(c).decode(c) == ch:
                        out.append(ch)
                except UnicodeError:
                    pass
        if name == "latin1":
            out = [ch for ch in out if not 0x80 <= ord(ch) < 0xA0]
        if wide:
            out += ["\U00010000", "\U0001F600", "\U0001F1E9\U0001F1EA", "\U0010FFFF", "\U00020BB7"]
        _rep[name] = "".join(out)
    return _rep[name]


def enc(s, name):
    return s.encode(cs.CODECS[name])


def words(name):
    """Some texts of the set, that aren't easily damaged without being noticed"""
    r = repertoire(name)
    letters = [c for c in r if ord(c) > 0x7F and c.isalpha()]
    if not letters:
        return ["plain", "x y", "A'\"\\`z"]
    n = len(letters)
    pick = [letters[i * (n - 1) // 11] for i in range(12)]
    out = ["".join(pick), pick[0] + " " + pick[5], "a" + pick[-1] + pick[3] + "z", pick[7]]
    # lead or trail bytes that look like something else
    odd = [c for c in letters if any(b in enc(c, name) for b in b"\\'\"`;?%_ \n") and len(enc(c, name)) > 1][:12]
    if odd:
        out.append("".join(odd) + "x")
    marks = [c for c in r if c in "\ufeff\u0301\u00a0\u3000\u200b\u212b\u1e9e\u0130\u00df\u00b5\u017f\ufb01"]
    if marks:
        out.append("e" + "".join(marks) + "E ")
    if "\ufeff" in r:
        out.append("\ufeff" + pick[2])
    return out


def no_nul(s, name):
    """Characters that can be part of a string that ends with a zero byte"""
    return "".join(c for c in s if 0 not in enc(c, name))


class Cmd:
    """What the client sends, and what has to arrive: `what`, `expect` (text, or None)"""

    def __init__(self, what, make, kind, expect=None, reply=None, note=""):
        self.what, self.make, self.kind, self.expect, self.reply, self.note = what, make, kind, expect, reply, note

    def __call__(self, env, path):
        return self.make(env, path)


class Conv(full_stmt(Stmt)):
    """A connection, whose application records what it gets and answers with known texts"""

    base_caps = Stmt.base_caps & ~(1 << 20) & ~(1 << 24)
    host_values = True
    max_steps = 10**9
    max_loop = 10**6
    kmax = 10**6
    summarise_text = False
    summarise_encoders = False
    encode_fails = False
    rows_fail = False

    def __init__(self, program):
        super().__init__(program)
        self.corpus.load("charsets.json")
        self.seen = {}

    def start(self, path):
        super().start(path)
        path.data.update(arrived=[], replies=[], logins=[], databases=[])

    def command(self, path, cmd):
        super().command(path, cmd)
        s = path.data.get("sess")
        path.data["databases"].append(s.attrs.get("database") if s is not None else None)
        path.data["arrived"].append([])
        path.data["replies"].append(path.data["written"])

    def packet(self, path, cmd, i):
        pkt = super().packet(path, cmd, i)
        path.data["mid_command"] = path.data["calm"] = first_byte(pkt) == 0x11
        path.data["now"] = cmd
        return pkt

    def wrote(self, path, data, drain, node):
        super().wrote(path, data, drain, node)
        if path.data.get("mid_command") and first_byte(data) in (0, 0xFF):
            path.data["mid_command"] = False

    def decide(self, path, sym):
        if path.data.get("mid_command") and (sym.op in ("isnone", "cmp", "oneof") or sym.op == "atom" and "plugin" in str(sym.args[0])):
            return True
        return super().decide(path, sym)

    def outcomes(self, path, what):
        if path.data["phase"] == "handshake" or path.data.get("mid_command"):
            return ("user",) if what == "get_user" else ("success",)
        return super().outcomes(path, what)

    def idp_call(self, path, name, f, args, kwargs, node):
        if name == "get_user":
            path.data["logins"].append(args[1] if len(args) > 1 else kwargs.get("username"))
            if path.data["arrived"]:
                path.data["arrived"][-1].append(("user", path.data["logins"][-1]))
        return super().idp_call(path, name, f, args, kwargs, node)

    def app_call(self, path, name, f, args, kwargs, node):
        if name == "use" and path.data["phase"] == "commands":
            path.data["arrived"][-1].append(("use", args[1] if len(args) > 1 else next(iter(kwargs.values()), None)))
        if name == "handle_query" and path.data["phase"] == "commands":
            loc = self.it.bind(f, args, kwargs, node)
            sql, attrs = (loc.get(x.arg) for x in f.node.args.args[1:3])
            if isinstance(attrs, ADict):
                attrs = dict(attrs.d) if not attrs.open else None
            path.data["arrived"][-1].append(("query", sql, attrs))
            path.emit("app", name=name, args=args[1:], kwargs=kwargs)
            if not (isinstance(sql, str) and sql in self.corpus.texts and self.corpus.texts[sql]["parse"] and path.data["now"].kind == "switch"):
                self.it.suspend(("app", name), node)
                return self.answer(path, path.data["now"].reply)
            return NotImplemented
        return super().app_call(path, name, f, args, kwargs, node)

    def answer(self, path, r):
        if r is None:
            return None
        if r[0] == "error":
            v = Obj(self.mysql_error, {}, "app_error", True)
            v.attrs.update(msg=r[1], code=self.p.need("mysql_mimic.errors.ErrorCode").enum_members["UNKNOWN_ERROR"], args=())
            raise Raise(v)
        if r[0] == "exception":
            raise exc(ValueError, r[1])
        it = self.it
        rc = self.p.need("mysql_mimic.results.ResultColumn")
        types = self.p.need("mysql_mimic.types.ColumnType").enum_members
        charsets = self.p.need(CHARSET).enum_members
        cols = []
        for name, charset in r[1]:
            if charset is None:
                cols.append(name)
            else:
                cols.append(it.call(rc, [], dict(name=name, type=types["VARCHAR"], character_set=charsets[charset]), None))
        return (AList([tuple(x) for x in r[2]]), AList(cols))


class Text:
    """A string parameter"""

    def __init__(self, data, type_=VAR_STRING):
        self.type, self.unsigned, self.null = type_, False, False
        self.wire = cat(lenenc(len(data)), data) if isinstance(data, bytes) else cat(lenenc(SYM), data)


SYM = 9


class Check:
    def __init__(self, rep):
        self.rep = rep
        self.p = Program(sqlglot=True)
        self.env = Conv(self.p)
        with open(os.path.join(HERE, "..", "data", "collations.json"), encoding="utf-8") as f:
            self.collations = {int(k): v for k, v in json.load(f).items()}
        self.charsets = self.p.need(CHARSET).enum_members
        self.names = [n for n in cs.CODECS if n in self.charsets]
        self.default_collation = {n: next((i for i, (c, s) in sorted(self.collations.items()) if c == cs.COLLATIONS[n]), None) for n in cs.CODECS}

    # -- commands

    def query(self, text, name, **kw):
        return Cmd("COM_QUERY", self.env.com_query(enc(text, name), attributes=False), "query", text, **kw)

    def switch(self, way, to, now):
        t = cs.statement(way, to)
        return Cmd(repr(t), self.env.com_query(enc(t, now), attributes=False), "switch", t)

    def init_db(self, text, name):
        return Cmd("COM_INIT_DB", lambda e, p: b"\x02" + enc(text, name), "use", text)

    def field_list(self, table, wild, name, reply=None):
        return Cmd("COM_FIELD_LIST", lambda e, p: b"\x04" + enc(table, name) + b"\0" + enc(wild, name), "fields", (table, wild), reply=reply or ("rows", [("Field", None)], []))

    def change_user(self, user, db, name, coll=None):
        """`coll`: the collation that the packet declares"""

        def make(e, p):
            out = b"\x11" + enc(user, name) + b"\0\x04abcd" + enc(db, name) + b"\0"
            if coll is not None:
                out += coll.to_bytes(2, "little") + b"mysql_native_password\0"
            return out

        return Cmd("COM_CHANGE_USER" + (f" to collation {coll}" if coll is not None else ""), make, "user", (user, db))

    def uses(self, name, k, results=None):
        """Every command that carries text"""
        env = self.env
        ws = words(name)
        r = repertoire(name)
        w = ws[k % len(ws)]
        out = [self.query("SELECT '" + r + "'" if k == 0 else f"SELECT {w}", name)]
        for x in ws:
            out.append(self.query(x, name))
        out.append(self.init_db(r if k == 0 else w, name))
        for x in ws[:2] + ws[-2:]:
            out.append(self.init_db(x, name))
        wn = [x for x in (no_nul(x, name) for x in ws) if x]
        if wn:
            out.append(self.field_list(wn[k % len(wn)].replace("`", ""), ws[-1].replace("'", "").replace("\\", ""), name))
        return out

    def prepared(self, name, n, texts):
        """A statement with parameters: prepared, executed"""
        env = self.env
        sql = "SELECT " + words(name)[0] + ", " + ", ".join("?" for _ in texts)
        bs = [enc(t, name) for t in texts]

        def vals(path):
            return [Text(b) for b in bs]

        def execute(e, path):
            return env.com_execute(n, vals(path))(e, path)

        return [
            Cmd("COM_STMT_PREPARE", env.com_prepare(enc(sql, name)), "prepare", sql),
            Cmd("COM_STMT_EXECUTE", execute, "execute", (sql, list(texts))),
        ]

    # -- running

    def converse(self, site, cmds, charset_id=45, user="root", db="db1", name="utf8mb4", caps_on=0, deadline=120):
        """The only path of a conversation"""
        env = self.env

        def go(path):
            path.data["caps_on"] = caps_on
            c = ConnEnv.base_caps & ~(1 << 20) & ~(1 << 24) | (1 << 21) | caps_on | 8
            path.data["handshake"] = env.handshake(enc(db, name), enc(user, name), charset_id, c)
            return env.run(path, list(cmds))

        rs = []
        for r in explore(self.p, env, go, max_paths=4, deadline=time.time() + deadline):
            self.rep.count(r)
            rs.append(r)
        r = rs[0] if len(rs) == 1 else None
        if r is not None and r.status == "raise":
            self.rep.ob("arrives", site, False, f"the connection of a client whose character set is {name} fails: {r.exc!r}", path=r.path)
            return None
        if r is None or r.status != "ok":
            self.rep.ob("arrives", site, None, "undecided" if r is None else r.reason or repr(r.exc))
            return None
        return r.path

    def where(self, path, i):
        return None

    def compare(self, got, want, name):
        """True, False or None"""
        if isinstance(want, str) and isinstance(got, str):
            return got == want
        if isinstance(want, Sym) and not isinstance(got, str):
            return self.decoded(got, want, name)
        if got is None or isinstance(got, (str, bytes, int)):
            return False
        return None

    def decoded(self, got, data, name):
        """Is it what `data` means in this character set?"""
        if not isinstance(got, Sym):
            return None
        if got is data:
            return False
        if got.op == "m" and got.args[0] == "decode" and got.args[1] is data:
            c, errors = got.args[2], got.args[3] if len(got.args) > 3 else "strict"
            if not isinstance(c, str):
                return None
            try:
                ok = codecs.lookup(c).name == codecs.lookup(cs.CODECS[name]).name
            except LookupError:
                return False
            if ok and errors == "strict":
                return True
            if ok and errors in ("surrogateescape", "replace", "ignore"):
                return True
            return False if not ok and not self.same_codec(c, name) else None
        return None

    def same_codec(self, c, name):
        r = repertoire(name)
        try:
            return all(ch.encode(cs.CODECS[name]).decode(c) == ch for ch in r)
        except (UnicodeError, LookupError):
            return False

    def brief(self, x):
        s = show(x) if not isinstance(x, str) else repr(x)
        return s if len(s) < 90 else s[:60] + "..."

    def first_difference(self, got, want):
        if not isinstance(got, str) or not isinstance(want, str):
            return self.brief(got)
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return f"{got[max(0, i - 4):i + 8]!r} instead of {want[max(0, i - 4):i + 8]!r}"
        return f"{len(got)} characters instead of {len(want)}: {self.brief(got)}"

    def judge(self, path, site, cmds, name_of):
        """`name_of[i]`: the client's character set when command i is sent"""
        rep = self.rep
        arrived, replies = path.data["arrived"], path.data["replies"]
        dbs = path.data["databases"]
        for i, c in enumerate(cmds):
            if i >= len(arrived) - 1 and i >= len(arrived):
                rep.ob("arrives", f"{site}: {c.what} ({i})", False, f"the connection has ended before {c.what}", path=path)
                return
            name = name_of[i]
            s = f"{site}: {c.what}" + (f" ({i})" if i else "")
            a = arrived[i]
            err = next((x for x in replies[i] if first_byte(x) == 0xFF), None)
            emsg = ""
            if err is not None:
                ok, e = attempt(err_packet, err)
                emsg = f"; the client gets the error {show(e['message'])[:120] if ok else e}"
            if c.kind == "switch":
                rep.ob("accepted", s, err is None if a and a[-1][1] == c.expect or err is not None else None, f"{c.what} fails in {name}{emsg}", path=path)
            elif c.kind == "query":
                q = [x for x in a if x[0] == "query"]
                ok = self.compare(q[0][1], c.expect, name) if q else False if err is not None or not a else None
                rep.ob("arrives", s, ok, f"SQL text in {name}: the application gets " + (self.first_difference(q[0][1], c.expect) if q else "nothing") + emsg, path=path)
            elif c.kind == "use":
                u = [x for x in a if x[0] == "use"]
                got = u[0][1] if u else None
                ok = self.compare(got, c.expect, name) if u else False if err is not None else None
                if ok and i + 1 < len(dbs):
                    ok = self.compare(dbs[i + 1], c.expect, name)
                    got = dbs[i + 1]
                rep.ob("arrives", s, ok, f"a database's name in {name}: {self.first_difference(got, c.expect)}{emsg}", path=path)
            elif c.kind == "fields":
                q = [x for x in a if x[0] == "query"]
                ok, msg = None, ""
                if not q:
                    ok, msg = False if err is not None else None, "nothing arrives" + emsg
                elif isinstance(q[0][1], str):
                    ok = all(x in q[0][1] for x in c.expect)
                    msg = self.brief(q[0][1])
                rep.ob("arrives", s, ok, f"COM_FIELD_LIST of {self.brief(c.expect[0])}, {self.brief(c.expect[1])} in {name}: {msg}", path=path)
            elif c.kind == "prepare":
                ok = None
                if err is not None or not replies[i]:
                    ok = False
                elif first_byte(replies[i][0]) == 0:
                    ok = True
                rep.ob("arrives", s, ok, f"a statement in {name} isn't prepared{emsg}", path=path)
            elif c.kind == "execute":
                q = [x for x in a if x[0] == "query"]
                ok, msg = None, ""
                sql, texts = c.expect
                if not q:
                    ok, msg = False if err is not None else None, "nothing arrives" + emsg
                elif isinstance(q[0][1], str):
                    head, _, tail = sql.partition("?")
                    got = q[0][1]
                    rest = got
                    ok = True
                    for x in [head] + [t for t in texts]:
                        at = rest.find(x)
                        if at < 0:
                            ok, msg = False, f"{self.brief(x)} doesn't arrive: " + self.brief(got[len(head) - 2:])
                            break
                        rest = rest[at + len(x):]
                elif isinstance(q[0][1], Sym) and any(isinstance(t, Sym) for t in texts):
                    ds = [t for t in terms(q[0][1]) if t.op == "m" and t.args[0] == "decode" and any(t.args[1] is x for x in texts)]
                    rs = [self.decoded(t, t.args[1], name) for t in ds]
                    ok = False if False in rs else True if len(rs) >= len(texts) and all(rs) else None
                    msg = self.brief(q[0][1])
                rep.ob("arrives", s, ok, f"string parameters in {name}: {msg}", path=path)
            elif c.kind == "attrs":
                q = [x for x in a if x[0] == "query"]
                ok, msg = None, ""
                if not q:
                    ok, msg = False if err is not None else None, "nothing arrives" + emsg
                elif isinstance(q[0][2], dict):
                    sql, want = c.expect
                    ok = self.compare(q[0][1], sql, name)
                    msg = "SQL text: " + self.first_difference(q[0][1], sql)
                    if ok is True:
                        got = q[0][2]
                        syms = [k for k in list(want) + list(want.values()) if isinstance(k, Sym)]
                        if not syms:
                            ok = {k: v for k, v in got.items()} == want
                            msg = f"{self.brief(ADict(got))} instead of {self.brief(ADict(want))}"
                        elif len(got) == len(want):
                            rs = []
                            for (gk, gv), (wk, wv) in zip(got.items(), want.items()):
                                rs += [self.compare(gk, wk, name), self.compare(gv, wv, name)]
                            ok = False if False in rs else None if None in rs else True
                            msg = self.brief(ADict(got))
                rep.ob("arrives", s, ok, f"query attributes in {name}: {msg}", path=path)
            elif c.kind == "user":
                u = [x for x in a if x[0] == "user"]
                ok = self.compare(u[0][1], c.expect[0], name) if u else False if err is not None else None
                what = "the user's name"
                got, want = u[0][1] if u else None, c.expect[0]
                if ok and i + 1 < len(dbs):
                    ok = self.compare(dbs[i + 1], c.expect[1], name)
                    what, got, want = "the database's name", dbs[i + 1], c.expect[1]
                rep.ob("arrives", s, ok, f"COM_CHANGE_USER in {name}, {what}: {self.first_difference(got, want)}{emsg}", path=path)
            elif c.kind == "results":
                self.judge_results(path, s, c, name, replies[i])
            elif c.kind == "error":
                self.judge_error(path, s, c, replies[i])
            elif c.kind == "field_results":
                self.judge_fields(path, s, c, replies[i])

    # -- what the client gets

    def judge_results(self, path, s, c, name, pkts):
        """c.expect: (results character set, column names with their declared sets, rows, binary)"""
        rs, cols, rows, binary = c.expect

        def read():
            defs, rest = client_columns(pkts, True)
            if defs is None:
                raise Unknown("no columns")
            if len(defs) != len(cols):
                raise Bad(f"{len(defs)} columns")
            for d, (want, declared) in zip(defs, cols):
                got = known(d["name"])
                if got != enc(want, rs):
                    raise Bad(f"the column's name {self.brief(want)} is sent as {self.decode(got, rs)}, in the results character set {rs}")
                ch = self.collations.get(d["charset"], (None, None))[1] if isinstance(d["charset"], int) else None
                if declared is not None and ch is not None and ch != declared:
                    raise Bad(f"a column in {declared} is announced in {ch}")
            body, done = rows_of(rest, True, lambda x: (binary_cells if binary else text_cells)(x, defs))
            if len(body) != len(rows):
                raise Bad(f"{len(body)} rows instead of {len(rows)}")
            for g, w in zip(body, rows):
                for x, y, d, (_, declared) in zip(g, w, defs, cols):
                    ch = self.collations.get(d["charset"], (None, None))[1]
                    if ch not in cs.CODECS:
                        raise Unknown(f"character set {d['charset']}")
                    b = known(x[1]) if x is not None else None
                    if b != enc(y, ch):
                        raise Bad(f"the text {self.brief(y)} of a column in {ch} is sent as {self.decode(b, ch)}")
            return True

        ok, msg = attempt(read)
        self.rep.ob("results", s, ok, f"{msg}", path=path)

    def decode(self, b, name):
        try:
            return self.brief(b.decode(cs.CODECS[name]))
        except (UnicodeError, AttributeError):
            return self.brief(repr(b))

    def judge_error(self, path, s, c, pkts):
        rs, want = c.expect

        def read():
            if len(pkts) != 1 or first_byte(pkts[0]) != 0xFF:
                raise Unknown("not an error")
            got = known(err_packet(pkts[0])["message"])
            if enc(want, rs) not in got:
                raise Bad(f"the message {self.brief(want)} is sent as {self.decode(got, rs)} to a client whose results character set is {rs}")
            return True

        ok, msg = attempt(read)
        self.rep.ob("results", s, ok, f"{msg}", path=path)

    def judge_fields(self, path, s, c, pkts):
        rs, names = c.expect

        def read():
            if not pkts or first_byte(pkts[0]) == 0xFF:
                raise Bad("COM_FIELD_LIST fails" + (f": {show(pkts[0])[:100]}" if pkts else ""))
            if len(pkts) != len(names) + 1:
                raise Unknown("columns")
            for x, w in zip(pkts, names):
                got = known(column_definition(x, field_list=True)["name"])
                if got != enc(w, rs):
                    raise Bad(f"the column's name {self.brief(w)} is sent as {self.decode(got, rs)}, in the results character set {rs}")
            return True

        ok, msg = attempt(read)
        self.rep.ob("results", s, ok, f"{msg}", path=path)

    # -- sections

    def inputs(self, names):
        """Every command, in every character set, selected by the handshake"""
        env = self.env
        for name in names:
            i = self.default_collation[name]
            if i is None or i > 255:
                i = next(k for k, v in self.collations.items() if v[1] == name)
            site = f"handshake in {name}"
            ws = words(name)
            r = repertoire(name)
            quiet = r.translate({ord(c): None for c in "'\\\"?\0\n\r\x1a%"})
            u, d = no_nul(r, name), no_nul(ws[0], name)
            cmds = self.uses(name, 0) + self.prepared(name, 0, [quiet, ws[0]])
            nn = [x for x in (no_nul(x, name) for x in ws) if x]
            if nn:
                cmds.append(self.change_user(nn[0], nn[-1], name))
                cmds.append(self.query(ws[0], name))
            if u:
                path = self.converse(site, cmds, i, u, d or u[-3:], name)
            else:
                path = self.converse(site, cmds, i, "", "", name)
            if path is None:
                continue
            if u:
                self.login(path, site, u, d or u[-3:], name)
            self.judge(path, site, cmds, [name] * len(cmds))
            # values of any text
            A = lambda k: Sym("atom", f"bytes {k}", ty="bytes")

            def sym(path, x):
                path.eqs[Sym("len", x, ty="int")] = SYM
                path.data["free"][x] = {b"\0"}
                return x

            a, b, c, e, f = (A(k) for k in "abcef")
            cmds = [
                Cmd("COM_QUERY of any text", lambda en, p: cat(b"\x03", sym(p, a)), "query", a),
                Cmd("COM_INIT_DB of any text", lambda en, p: cat(b"\x02", sym(p, b)), "use", b),
            ]
            path = self.converse(site + ", any text", cmds, i, "", "", name)
            if path is not None:
                self.judge(path, site, cmds, [name] * len(cmds))
            cmds = [
                Cmd("COM_STMT_PREPARE", env.com_prepare(enc("SELECT ?", name)), "prepare"),
                Cmd("COM_STMT_EXECUTE of any text", lambda en, p: env.com_execute(0, [Text(sym(p, c))])(en, p), "execute", ("SELECT ?", [c])),
            ]
            path = self.converse(site + ", any parameter", cmds, i, "", "", name)
            if path is not None:
                self.judge(path, site, cmds, [name] * len(cmds))
            # query attributes
            ws2 = [quiet] + ws
            q1 = Cmd("COM_QUERY with attributes", env.com_query(enc(ws[0], name), [Text(enc(x, name)) for x in ws2], [enc(x, name) for x in reversed(ws2)]), "attrs",
                     (ws[0], dict(zip(reversed(ws2), ws2))))
            q2 = Cmd("COM_QUERY with any attribute", lambda en, p: en.com_query(sym(p, a), [Text(sym(p, e))], [sym(p, f)])(en, p), "attrs", (a, {f: e}))
            p1 = [Cmd("COM_STMT_PREPARE", env.com_prepare(enc("SELECT 1", name)), "prepare"),
                  Cmd("COM_STMT_EXECUTE with attributes", lambda en, p: env.com_execute(0, [Text(enc(x, name)) for x in ws], [enc(x, name) for x in ws], attributes=True)(en, p),
                      "attrs", ("SELECT 1", dict(zip(ws, ws))))]
            cmds = [q1] + p1 + [q2]
            path = self.converse(site + ", attributes", cmds, i, "", "", name, caps_on=1 << 27)
            if path is not None:
                self.judge(path, site + ", attributes", cmds, [name] * len(cmds))
            # long data, in pieces that split characters
            data = enc(quiet, name)
            k = len(data) // 2 | 1
            cmds = [
                Cmd("COM_STMT_PREPARE", env.com_prepare(enc("SELECT ?", name)), "prepare"),
                Cmd("COM_STMT_SEND_LONG_DATA", env.com_long(0, 0, data[:k]), "long"), Cmd("COM_STMT_SEND_LONG_DATA", env.com_long(0, 0, data[k:]), "long"),
                Cmd("COM_STMT_EXECUTE with long data", self.long_execute, "execute", ("SELECT ?", [quiet])),
            ]
            path = self.converse(site + ", long data", cmds, i, "", "", name)
            if path is not None:
                self.judge(path, site + ", long data", cmds, [name] * len(cmds))
        self.rep.visited |= self.p.interp.visited

    @staticmethod
    def long_execute(en, path):
        return cat(b"\x17", en.statement(path, 0), b"\0\x01\0\0\0", b"\0\x01", bytes([VAR_STRING, 0]))

    def login(self, path, site, user, db, name):
        ls = path.data["logins"]
        s = path.data["databases"]
        ok = self.compare(ls[0], user, name) if ls else None
        self.rep.ob("arrives", f"{site}: user name", ok, f"the user's name in {name}: {self.first_difference(ls[0] if ls else None, user)}", path=path)
        ok = self.compare(s[0], db, name) if s else None
        self.rep.ob("arrives", f"{site}: database", ok, f"the database's name in {name}: {self.first_difference(s[0] if s else None, db)}", path=path)

    def ids(self, ids):
        """Every collation of a character set with a codec, in the handshake and in COM_CHANGE_USER"""
        known_ids = {int(m.value) if not isinstance(m.value, Sym) else None: n for n, m in self.p.need("mysql_mimic.charset.Collation").enum_members.items()}
        for i in ids:
            coll, name = self.collations[i]
            if name not in cs.CODECS or i not in known_ids:
                continue
            ws = words(name)
            u = no_nul(ws[0], name)
            w = ws[0] if i % 2 else ws[-1]
            cmds = [self.query(w, name)]
            path = self.converse(f"collation {i} ({coll})", cmds, i, u, u, name)
            if path is not None:
                if u:
                    self.login(path, f"collation {i} ({coll})", u, u, name)
                self.judge(path, f"collation {i} ({coll})", cmds, [name])
            change = self.change_user("root", "db1", "utf8mb4", i)
            cmds = [change, self.query(w, name), self.init_db(w, name)]
            site = f"COM_CHANGE_USER to collation {i} ({coll})"
            path = self.converse(site, cmds)
            if path is not None:
                self.judge(path, site, cmds, ["utf8mb4", name, name])
        self.rep.visited |= self.p.interp.visited

    def histories(self, start, names, seed):
        """Chains of changes"""
        import random

        rng = random.Random(seed)
        client = results = start
        i = self.default_collation[start]
        if i is None or i > 255:
            i = next(k for k, v in self.collations.items() if v[1] == start)
        results = cs.DEFAULT
        cmds, names_of = [], []

        def add(c):
            cmds.append(c)
            names_of.append(client)

        nprep = 0
        sql0 = "SELECT " + words(client)[0] + " ?"
        add(Cmd("COM_STMT_PREPARE", self.env.com_prepare(enc(sql0, client)), "prepare"))
        for step, to in enumerate(names):
            way = rng.choice(list(cs.WAYS) + ["COM_CHANGE_USER"] * 2)
            if way == "COM_CHANGE_USER":
                ks = [k for k, v in self.collations.items() if v[1] == to and k < 256]
                if client in ("utf16", "utf32"):
                    continue  # there are no names in ASCII
                nn = no_nul(words(client)[0], client)
                both = all(self.fits(nn, x) for x in (client, to)) and enc(nn, client) == enc(nn, to)
                u = nn if both else "root"
                add(self.change_user(u, "db1", client, rng.choice(ks)))
                client = to
                # prepared statements are gone; their character set isn't in question
                nprep = None
            else:
                add(self.switch(way, to, client))
                if "client" in cs.WAYS[way]:
                    client = to
                if "results" in cs.WAYS[way]:
                    results = to
            ws = words(client)
            w = ws[step % len(ws)]
            add(self.query(w, client))
            add(self.init_db(ws[(step + 1) % len(ws)], client))
            add(self.result(client, results, ("utf8mb4", to, None)))
            add(self.error(client, results, step % 2))
            if step % 3 == 0:
                nn = no_nul(ws[0], client)
                if nn:
                    add(self.field_list(nn.replace("`", ""), ws[0].replace("'", "").replace("\\", ""), client))
            if nprep is not None:
                t = words(client)[0]
                add(Cmd("COM_STMT_EXECUTE", self.env.com_execute(0, [Text(enc(t, client))]), "execute", (sql0, [t])))
        site = f"history {seed}, from {start}"
        path = self.converse(site, cmds, i)
        if path is not None:
            self.judge(path, site, cmds, names_of)
        self.rep.visited |= self.p.interp.visited

    @staticmethod
    def fits(s, name):
        try:
            s.encode(cs.CODECS[name])
            return True
        except UnicodeError:
            return False

    def result(self, client, results, charsets, full=False):
        """A query with a column for each of the character sets"""
        names = words(results)
        cols, row = [], []
        for k, c in enumerate(charsets):
            n = repertoire(results) if full and k == 0 else names[k % len(names)]
            cols.append((n, c))
            src = c or "utf8mb4"
            row.append(repertoire(src) if full else words(src)[k % len(words(src))])
        return Cmd(f"a result in {', '.join(c or 'an inferred set' for c in charsets)}", self.env.com_query(enc("SELECT 1", client), attributes=False), "results",
                   (results, cols, [tuple(row), tuple(row)], False), ("rows", cols, [tuple(row), tuple(row)]))

    def error(self, client, results, mysql=True, text=None):
        text = text or words(results)[0] + "!"
        return Cmd("an error" if mysql else "an exception", self.env.com_query(enc("SELECT 1", client), attributes=False), "error", (results, text), ("error" if mysql else "exception", text))

    def outputs(self, names):
        """Results in every pair of character sets, in both protocols; errors; lists of fields"""
        env = self.env
        for name in names:
            site = f"results in {name}"
            for way in ("SET NAMES", "SET CHARACTER SET", "SET character_set_results"):
                cmds = [self.switch(way, name, "utf8mb4")]
                client = name if "client" in cs.WAYS[way] else "utf8mb4"
                quick = way != "SET NAMES"
                cmds.append(self.result(client, name, [name, "utf8mb4", None], True))
                if not quick:
                    for k in range(0, len(self.names), 7):
                        cmds.append(self.result(client, name, self.names[k:k + 7] + [None], False))
                cmds += [self.error(client, name), self.error(client, name, False)]
                if not quick:
                    cmds.append(self.error(client, name, True, repertoire(name)))
                ws = words(name)
                rows = [(x, "int", "YES", None, None, "") for x in ws]
                fl = self.field_list(no_nul(ws[0], client).replace("`", "") or "t", "", client, ("rows", [(n, None) for n in ("Field", "Type", "Null", "Key", "Default", "Extra")], rows)) \
                    if client not in ("utf16", "utf32") else None
                if fl is not None:
                    fl.kind, fl.expect = "field_results", (name, ws)
                    cmds.append(fl)
                if not quick:
                    cmds.append(Cmd("COM_STMT_PREPARE", env.com_prepare(enc("SELECT 1", client)), "prepare"))
                    r = self.result(client, name, [name, "utf16", None], True)
                    r.make, r.what = env.com_execute(0, []), r.what + ", binary"
                    r.expect = r.expect[:3] + (True,)
                    cmds.append(r)
                # a message of the library
                cmds.append(Cmd("an unknown statement", lambda e, p: cat(b"\x17", (99).to_bytes(4, "little"), b"\0\x01\0\0\0"), "error", (name, "")))
                names_of = ["utf8mb4"] + [client] * (len(cmds) - 1)
                path = self.converse(f"{site} ({way})", cmds)
                if path is not None:
                    self.judge(path, f"{site} ({way})", cmds, names_of)
        self.rep.visited |= self.p.interp.visited

    def codec_tables(self):
        """CharacterSet.encode() and decode(), for every character of every set"""
        rep, it, env = self.rep, self.p.interp, self.env
        for name, want in {**cs.CODECS, **cs.OTHER_CODECS}.items():
            if name not in self.charsets:
                rep.ob("codec", name, None, "not in the catalogue")
                continue
            r = repertoire(name) if name in cs.CODECS else None

            def go(path, name=name):
                c = self.charsets[name]
                x = it.call(it.getattr(c, "decode"), [(r if r is not None else "a").encode(want)], {}, None)
                y = it.call(it.getattr(c, "encode"), [r if r is not None else "a"], {}, None)
                z = None
                if name == "latin1":
                    z = it.call(it.getattr(c, "decode"), [b"\x80\x99"], {}, None)
                return x, y, z

            for q in explore(self.p, env, go, max_paths=4, deadline=time.time() + 60):
                rep.count(q)
                if name in cs.OTHER_CODECS:
                    ok = None if q.status != "ok" else True
                    rep.ob("codec", name, ok, "has no codec, and isn't judged", path=q.path)
                    continue
                if q.status == "raise":
                    rep.ob("codec", name, False, f"{name} can't be decoded and encoded: {q.exc!r}", path=q.path)
                    continue
                if q.status != "ok":
                    rep.ob("codec", name, None, q.reason, path=q.path)
                    continue
                x, y, z = q.value
                ok = x == r and y == r.encode(want) if isinstance(x, str) and isinstance(y, bytes) else None
                rep.ob("codec", name, ok, f"{name}: {self.first_difference(x, r) if x != r else 'encoded differently'}", path=q.path)
                if name == "latin1" and isinstance(z, str):
                    rep.ob("codec", "latin1, 0x80 to 0x9f", z == "\u20ac\u2019", "MySQL's latin1 is cp1252, where the bytes 80 99 are the euro sign and a quote; "
                           f"they arrive as {z!r}", path=q.path)
        # ids
        colls = self.p.need("mysql_mimic.charset.Collation")
        n = 0
        for cname, m in colls.enum_members.items():
            v = m.value
            if not isinstance(v, int) or v not in self.collations:
                continue
            want = self.collations[v]

            def go(path, m=m):
                return it.getattr(m, "charset")

            for q in explore(self.p, env, go, max_paths=2):
                rep.count(q)
                n += 1
                got = q.value.name if q.status == "ok" and isinstance(q.value, EnumV) else None
                ok = None if got is None and q.status != "raise" else got == want[1]
                rep.ob("id", f"collation {v} ({want[0]})", ok, f"collation {v} of MySQL is {want[0]}, of {want[1]}; here it's of {got}", path=q.path)
        self.rep.visited |= self.p.interp.visited


def check(rep):
    rep.rule("codec", "every character of a character set is decoded and encoded as in MySQL")
    rep.rule("id", "a collation id means the character set that it has in MySQL")
    rep.rule("accepted", "a change of the character set is accepted")
    rep.rule("arrives", "text that the client sends in its character set arrives unchanged at the application")
    rep.rule("results", "cells are in the character set of their column, column names and error messages in that of results")
    rep.assumptions.append("sqlglot parses SET statements as recorded in sa/data/charsets.json; Python's codecs have the characters of MySQL's character sets (sa/csettexts.py)")
    c = Check(rep)
    names = c.names
    ids = sorted(i for i in c.collations if i < 256)
    jobs = [(c.codec_tables,)]
    jobs += [(c.inputs, names[k::7]) for k in range(7)]
    jobs += [(c.outputs, names[k::7]) for k in range(7)]
    jobs += [(c.ids, ids[k::8]) for k in range(8)]
    import random

    n = 60 if rep.thorough else 16
    for k in range(n):
        rng = random.Random(100 + k)
        jobs.append((c.histories, rng.choice(names), [rng.choice(names) for _ in range(8)], k))
    rep.parallel(jobs)
