"""C14: system variables form a typed, scoped store that clients can't corrupt"""
from __future__ import annotations

import datetime
import time

from .. import vartexts as vt
from ..models import CancelledError
from .sess import *
from .stmt import *
from .c13 import from_library
from .evalterm import Unknown

DEFAULT, ERROR, ANY = vt.DEFAULT, vt.ERROR, vt.ANY
PLAIN = (str, int, float, bool, type(None))


# ----------------------------------------------------------------------------- times


def when(t, now, local):
    """Value of a term about time, at an instant, where the clock of the server is `local`"""
    w = lambda x: when(x, now, local)
    if isinstance(t, Ext):
        if t.path == "datetime.timezone.utc":
            return datetime.timezone.utc
        raise Unknown(t.path)
    if not isinstance(t, Sym):
        if isinstance(t, AV):
            raise Unknown(repr(t))
        return t
    a = t.args
    if t.op in ("*", "+", "-") and len(a) == 2:
        x, y = w(a[0]), w(a[1])
        return x * y if t.op == "*" else x + y if t.op == "+" else x - y
    if t.op == "neg":
        return -w(a[0])
    if t.op == "str":
        return str(w(a[0]))
    if t.op in ("m", "call"):
        if t.op == "call" and isinstance(a[0], Sym) and a[0].op == "attr":
            f, o, args = a[0].args[1], a[0].args[0], a[1:]
        elif t.op == "m":
            f, o, args = a[0], a[1], a[2:]
        elif isinstance(a[0], str):
            f, o, args = a[0], None, a[1:]
        else:
            raise Unknown(repr(a[0]))
        pos, kw = [], {}
        for x in args:
            if isinstance(x, tuple) and x[:1] == ("=",):
                kw[x[1]] = w(x[2])
            elif isinstance(x, tuple) and x[:1] == ("#",):
                continue
            else:
                pos.append(w(x))
        if o is None:
            if f == "datetime.datetime.now":
                tz = pos[0] if pos else kw.get("tz")
                return now.astimezone(tz) if tz is not None else now.astimezone(local).replace(tzinfo=None)
            if f in ("datetime.datetime.utcnow", "datetime.datetime.today"):
                return now.astimezone(datetime.timezone.utc if f.endswith("utcnow") else local).replace(tzinfo=None)
            if f == "time.time":
                return now.timestamp()
            if f in ("datetime.datetime.fromtimestamp", "datetime.datetime.utcfromtimestamp"):
                tz = pos[1] if len(pos) > 1 else kw.get("tz")
                x = datetime.datetime.fromtimestamp(pos[0], tz or (local if f.endswith(".fromtimestamp") else datetime.timezone.utc))
                return x if tz is not None else x.replace(tzinfo=None)
            g = {"datetime.timezone": datetime.timezone, "datetime.timedelta": datetime.timedelta}.get(f)
            if g is None:
                raise Unknown(f)
            return g(*pos, **kw)
        x = w(o)
        if f == "astimezone" and isinstance(x, datetime.datetime):
            x = x if x.tzinfo is not None else x.replace(tzinfo=local)
            return x.astimezone(*(pos or [kw.get("tz") or local]))
        if f in ("strftime", "isoformat", "date", "time", "replace", "utcoffset", "total_seconds", "timestamp") and isinstance(x, (datetime.datetime, datetime.date, datetime.time, datetime.timedelta)):
            return getattr(x, f)(*pos, **kw)
    if t.op == "attr":
        x = w(a[0])
        if isinstance(x, (datetime.datetime, datetime.timedelta)) and a[1] in ("tzinfo", "days", "seconds", "hour", "minute", "year", "month", "day", "second"):
            return getattr(x, a[1])
    raise Unknown(show(t)[:80])


INSTANTS = [datetime.datetime(2024, 2, 29, 23, 30, 15, tzinfo=datetime.timezone.utc), datetime.datetime(2023, 1, 1, 3, 5, 9, tzinfo=datetime.timezone.utc), datetime.datetime(2025, 7, 31, 12, 0, 0, tzinfo=datetime.timezone.utc)]
LOCALS = [datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=45)), datetime.timezone(-datetime.timedelta(hours=9))]


def offset(name):
    if name.lower() == "utc":
        return datetime.timezone.utc
    if len(name) == 6 and name[0] in "+-" and name[3] == ":" and (name[1:3] + name[4:]).isdigit():
        d = datetime.timedelta(hours=int(name[1:3]), minutes=int(name[4:]))
        if d < datetime.timedelta(hours=15):
            return datetime.timezone(d if name[0] == "+" else -d)
    return None


# ----------------------------------------------------------------------------- the model


class Model:
    """What the variables should be.  ANY: not known"""

    def __init__(self, initial):
        self.initial = dict(initial)
        self.now = dict(initial)

    def value(self, want):
        """Value of what's assigned"""
        return self.now.get(want[2:], ANY) if isinstance(want, str) and want.startswith("@@") else want

    def assign(self, changes):
        for n, w in changes.items():
            self.now[n] = self.initial.get(n, ANY) if w is DEFAULT else self.value(w)

    def copy(self):
        m = Model(self.initial)
        m.now = dict(self.now)
        return m


def of_type(kind, v):
    if v is None:
        return True
    if kind == vt.INT:
        return isinstance(v, int) and not isinstance(v, bool)
    if kind == vt.BOOL:
        return isinstance(v, bool) or v in (0, 1)
    return isinstance(v, str)


def equal(kind, got, want):
    if want is None or got is None:
        return got is want
    if kind in (vt.CHARSET, vt.COLLATION) and isinstance(got, str) and isinstance(want, str):
        return got.lower() == want.lower()
    if kind in (vt.BOOL, vt.INT):
        return isinstance(got, (int, bool)) and got == want and of_type(kind, got)
    return type(got) is type(want) and got == want


def shown(kind, text, v):
    """Is it the row of SHOW VARIABLES of this value?"""
    if v is None:
        return text in (None, "", "NULL", "None")
    if not isinstance(text, str):
        return text == v and type(text) is type(v) or kind in (vt.BOOL,) and text == v
    if kind == vt.BOOL:
        return text.lower() in (("true", "on", "1") if v else ("false", "off", "0"))
    if kind in (vt.CHARSET, vt.COLLATION):
        return text.lower() == str(v).lower()
    return text == str(v)


class Vars(SessEnv):
    app_query_outcomes = ("ok",)
    names = ()

    def __init__(self, program):
        super().__init__(program)
        self.corpus.load("variables.json")

    def during_query(self, path):
        s = path.data["sess"]
        path.data["during"] = {n: self.get(s, n) for n in path.data.get("watch", ())}
        o = path.data.get("fate")
        if o == "error":
            raise exc(self.p.need("mysql_mimic.errors.MysqlError"), "application")
        if o == "bug":
            raise exc(ZeroDivisionError, "application")
        if o == "cancel":
            raise exc(CancelledError)

    def get(self, s, n):
        it = self.it
        return it.call(it.getattr(it.getattr(s, "variables"), "get"), [n], {}, None)

    def executed(self, path, args, kwargs, node):
        r = super().executed(path, args, kwargs, node)
        x = args[0] if args else kwargs.get("sql")
        path.data["last_executed"] = x
        path.data["during"] = {n: self.get(path.data["sess"], n) for n in path.data.get("watch", ())}
        return r

    def schema_of(self, path):
        s = path.data["sess"]
        path.data["during"] = {n: self.get(s, n) for n in path.data.get("watch", ())}
        return super().schema_of(path)


class Talker:
    """One session, in one path of the analysis"""

    def __init__(self, check, path, s, site):
        self.c, self.env, self.rep, self.path, self.s, self.site = check, check.env, check.rep, path, s, site

    def ob(self, rule, ok, msg="", where=None, what=None):
        self.rep.ob(rule, what or self.site, ok, msg, where, path=self.path)

    def send(self, text):
        """None, or the exception"""
        try:
            self.path.data["sess"] = self.s
            self.path.data["last_executed"] = None
            self.path.data["during"] = None
            self.result = self.env.handle(self.path, self.s, text)
            return None
        except Raise as e:
            if str(e.where or "").startswith("sqlglot/"):
                raise Undecided(f"sqlglot raises {e.value!r}") from None
            self.result = None
            return e

    def rows(self, text, rule, why):
        e = self.send(text)
        if e is not None:
            self.ob(rule, False, f"{text[:40]!r} fails {why}: {e.value!r}", e.where)
            return None
        t = self.path.data.get("last_executed")
        if t is None:
            return None
        out = []
        for x in t.attrs["args"].d["expressions"].items:
            out.append(self.value(x))
        return out

    def value(self, x):
        env = self.env
        a = x.attrs["args"].d if env.is_node(x) else {}
        if env.is_node(x, "Alias"):
            return self.value(a["this"])
        if env.is_node(x, "Boolean"):
            return bool(a["this"])
        if env.is_node(x, "Null"):
            return None
        if env.is_node(x, "Neg"):
            v = self.value(a["this"])
            return -v if isinstance(v, (int, float)) else x
        if env.is_node(x, "Literal"):
            v = a["this"]
            if isinstance(v, Sym):
                return v
            if a.get("is_string"):
                return str(v)
            v = str(v)
            try:
                return int(v)
            except ValueError:
                try:
                    return float(v)
                except ValueError:
                    return x
        return x

    def read(self, text=vt.READ_ALL, why="", rule="read"):
        """{name: value}"""
        vs = self.rows(text, rule, why)
        if vs is None:
            return None
        if len(vs) != len(vt.KNOWN):
            return None
        return {n: v if isinstance(v, PLAIN) else ANY for n, v in zip(vt.KNOWN, vs)}

    def show(self, why="", rule="show"):
        e = self.send("SHOW VARIABLES")
        if e is not None:
            self.ob(rule, False, f"SHOW VARIABLES fails {why}: {e.value!r}", e.where)
            return None
        r = self.result
        if isinstance(r, tuple) and r and isinstance(r[0], AList):
            out = {}
            for x in r[0].items:
                if not (isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, PLAIN) for y in x)):
                    return None
                out.setdefault(x[0], []).append(x[1])
            return out
        return None

    def compare(self, model, rule, why, only=None, quick=False):
        """Are the variables what they should be?  Learns those that aren't known"""
        for text in (vt.READ_ALL,) if quick else (vt.READ_ALL, vt.READ_ALL_2):
            got = self.read(text, why)
            if got is None:
                self.ob(rule, None)
                return
            bad = []
            for n, v in got.items():
                w = model.now.get(n, ANY)
                kind = vt.KNOWN[n][0]
                if v is ANY:
                    continue
                if w is ANY:
                    if not of_type(kind, v):
                        bad.append(f"@@{n} is {v!r}, which isn't of its type")
                    model.now[n] = v
                elif not equal(kind, v, w):
                    bad.append(f"@@{n} is {v!r}, instead of {w!r}")
                    model.now[n] = v
            self.ob(rule, not bad, f"{why}: {', '.join(bad[:3])}")
        if quick:
            return
        rows = self.show(why)
        if rows is None:
            self.ob("show", None)
            return
        bad = []
        for n in vt.KNOWN:
            l = rows.get(n)
            if l is None or len(l) != 1:
                bad.append(f"{n} has {len(l or ())} rows")
            elif model.now.get(n) is not ANY and not shown(vt.KNOWN[n][0], l[0], model.now[n]):
                bad.append(f"{n} is {l[0]!r}, instead of {model.now[n]!r}")
        self.ob("show", not bad, f"SHOW VARIABLES {why}: {', '.join(bad[:3])}")

    def times(self, model, why, text=vt.TIMES, tz=None):
        """NOW(), CURDATE() and CURTIME() in the time zone of the session"""
        vs = self.rows(text, "time_zone", why)
        self.judge_times(vs, tz or model.now.get("time_zone"), why)

    def judge_times(self, vs, name, why):
        z = offset(name) if isinstance(name, str) else None
        if z is None or vs is None or len(vs) != 3:
            self.ob("time_zone", None if vs is not None else None)
            return
        ok, msg = True, ""
        for v, f, what in zip(vs, ("%Y-%m-%d %H:%M:%S", "%Y-%m-%d", "%H:%M:%S"), ("NOW()", "CURDATE()", "CURTIME()")):
            for now in INSTANTS:
                for local in LOCALS:
                    want = now.astimezone(z).strftime(f)
                    try:
                        got = when(v, now, local) if isinstance(v, Sym) else None
                        if not isinstance(got, str):
                            raise Unknown(repr(v))
                    except Unknown:
                        ok = ok and None
                        continue
                    except (TypeError, ValueError, OverflowError):
                        ok = ok and None
                        continue
                    if not got.startswith(want):
                        ok, msg = False, f"{why}: with time_zone {name!r}, {what} is {got!r} at {now:%Y-%m-%d %H:%M:%S} UTC, instead of {want!r}"
        self.ob("time_zone", ok, msg)


class Check:
    def __init__(self, rep):
        self.rep = rep
        self.p = Program(sqlglot=True)
        self.env = Vars(self.p)
        self.jobs = []

    def go(self, site, fn, database="db1"):
        self.jobs.append((self.job, site, fn, database))

    def job(self, site, fn, database):
        rep, env = self.rep, self.env

        def run(path):
            s = env.connect(path, database)
            t = Talker(self, path, s, site)
            fn(t)

        for r in explore(self.p, env, run, max_paths=16, deadline=time.time() + 120):
            rep.count(r)
            if r.status == "raise":
                if from_library(r):
                    rep.ob("read", site, None, repr(r.exc), path=r.path)
                else:
                    rep.ob("read", site, False, f"fails: {r.exc.value!r}", r.exc.where, path=r.path)
            elif r.status != "ok":
                rep.ob("read", site, None, r.reason, path=r.path)

    def assignments(self):
        """Every variable, every value"""
        for name, cases in vt.assignments().items():
            def fn(t, name=name, cases=cases):
                init = t.read()
                if init is None:
                    t.ob("read", None)
                    return
                m = Model(init)
                t.compare(m, "read", "in a new session")
                for text, want in cases:
                    self.step(t, m, text, name, want)
                # again, backwards
                for text, want in cases[::-1]:
                    self.step(t, m, text, name, want, quick=True)
            self.go(f"@@{name}", fn)

    def step(self, t, m, text, name, want, quick=False):
        e = t.send(text)
        kind, dyn = vt.KNOWN[name]
        if not dyn:
            t.ob("read_only", e is not None, f"{text!r} is accepted", what=f"{text!r}")
            t.compare(m, "read_only", f"after {text!r}", quick=True)
            return
        if want is ERROR:
            # a value that can't be converted
            t.ob("coerced", e is not None, f"{text!r} is accepted", what=f"{text!r}")
        elif want is ANY:
            if e is None:
                m.now[name] = ANY
        else:
            t.ob("accepted", e is None, f"{text!r} fails: {e and e.value!r}", e and e.where, what=f"{text!r}")
            if e is None:
                m.assign({name: want})
        t.compare(m, "read", f"after {text!r}", quick=quick)
        if e is None and not quick:
            self.usable(t, m, text)

    def usable(self, t, m, text):
        for q in ("SELECT 1", "SHOW DATABASES", vt.APP, "USE db1", "SHOW WARNINGS"):
            e = t.send(q)
            t.ob("unbroken", e is None, f"after {text!r}, {q!r} fails: {e and e.value!r}", e and e.where)
        for q in (vt.TIMES, vt.TIMES_2, "SELECT LOCALTIME() AS n, CURRENT_DATE() AS d, CURTIME() AS t"):
            t.times(m, f"after {text!r}", q)

    def spellings(self):
        by = {}
        for n, text, want in vt.spellings():
            by.setdefault(n, []).append((text, want))
        for name, cases in by.items():
            def fn(t, name=name, cases=cases):
                init = t.read()
                if init is None:
                    t.ob("read", None)
                    return
                m = Model(init)
                for text, want in cases:
                    self.step(t, m, text, name, want, quick=True)
            self.go(f"spellings of @@{name}", fn)

    def changes(self, t, m, text, changes):
        # all of them see the values before
        before = {n: m.value(w) if isinstance(w, str) and w.startswith("@@") else w for n, w in changes.items()}
        e = t.send(text)
        t.ob("accepted", e is None, f"{text!r} fails: {e and e.value!r}", e and e.where, what=f"{text!r}")
        if e is None:
            m.assign(before)
        else:
            for n in changes:
                m.now[n] = ANY
        t.compare(m, "read", f"after {text!r}")

    def histories(self):
        ms = vt.multi()

        def one(t, seq):
            init = t.read()
            if init is None:
                t.ob("read", None)
                return
            m = Model(init)
            for text, ch in seq:
                self.changes(t, m, text, ch)
                self.usable(t, m, text)
            for text, may in vt.refused():
                self.refused(t, m, text, may, True)
            for text, may in vt.maybe():
                self.refused(t, m, text, may, False)
            self.usable(t, m, "all of this")
        self.go("multiple assignments", lambda t: one(t, ms))
        self.go("multiple assignments, backwards", lambda t: one(t, ms[::-1]))
        self.go("refused assignments", lambda t: one(t, []))
        self.go("refused assignments in a catalog database", lambda t: one(t, []), database="information_schema")

    def refused(self, t, m, text, may, must):
        e = t.send(text)
        if must:
            t.ob("refused", e is not None, f"{text!r} is accepted", what=f"{text!r}")
        for n in may:
            m.now[n] = ANY
        t.compare(m, "refused", f"after {text!r}", quick=True)

    def hints(self):
        hs = vt.hints()
        for fate in (None, "error", "bug", "cancel"):
            def fn(t, fate=fate):
                init = t.read()
                if init is None:
                    t.ob("read", None)
                    return
                m = Model(init)
                for k in range(2):
                    if k:
                        # in a session whose variables aren't the default ones
                        for text, ch in vt.multi()[:2]:
                            self.changes(t, m, text, ch)
                    for text, during, app in hs:
                        if fate and not app:
                            continue
                        self.hint(t, m, text, during, app, fate)
                self.usable(t, m, "all of this") if not fate else None
            self.go(f"hints of statements{dict(error=' that fail', bug=' that fail with an unexpected error', cancel=' that are cancelled').get(fate, '')}", fn)

    def hint(self, t, m, text, during, app, fate):
        t.path.data.update(watch=tuple(vt.KNOWN), fate=fate)
        e = t.send(text)
        t.path.data.update(watch=(), fate=None)
        seen = t.path.data.get("during")
        if not fate:
            t.ob("hint", e is None, f"{text!r} fails: {e and e.value!r}", e and e.where, what=f"{text!r}")
        h = m.copy()
        h.assign(during)
        if seen is not None and (e is None or fate):
            bad = []
            for n, v in seen.items():
                w = h.now.get(n, ANY)
                if w is not ANY and isinstance(v, PLAIN) and not equal(vt.KNOWN[n][0], v, w):
                    bad.append(f"@@{n} is {v!r}, instead of {w!r}")
            t.ob("hint.during", not bad, f"during {text!r}: {', '.join(bad[:3])}", what=f"{text!r}")
        elif e is None:
            t.ob("hint.during", None, what=f"{text!r}")
        if e is None and "NOW()" in text and "time_zone" in during:
            x = t.path.data.get("last_executed")
            vs = [t.value(y) for y in x.attrs["args"].d["expressions"].items] if x is not None else None
            t.judge_times(vs, during["time_zone"], f"in {text!r}")
        t.compare(m, "hint.after", f"after {text!r}{', which failed' if e is not None else ''}", quick=True)

    def scopes(self, shared):
        """Sessions don't see each other's assignments"""
        rep, env, p = self.rep, self.env, self.p
        gv = p.need("mysql_mimic.variables.GlobalVariables")
        sv = p.need("mysql_mimic.variables.SessionVariables")

        def run(path):
            it = env.it

            def new():
                args = []
                if shared:
                    g = path.data.get("globals")
                    if g is None:
                        g = path.data["globals"] = it.call(gv, [], {}, None)
                    args = [it.call(sv, [g], {}, None)]
                path.data["sess"] = s = it.call(env.full_cls, args, {}, None)
                conn = mk(path, p.need(CONN), "connection", control=None, connection_id=7, session=s)
                it.await_(it.call(it.getattr(s, "init"), [conn], {}, None))
                s.attrs["database"] = "db1"
                s.attrs["username"] = "root"
                return Talker(self, path, s, f"two sessions{', which share their global variables' if shared else ''}")

            a, b = new(), new()
            init = a.read()
            if init is None:
                a.ob("read", None)
                return
            ma, mb = Model(init), Model(init)
            for text, ch in vt.multi():
                self.changes(a, ma, text, ch)
                b.compare(mb, "scope", f"after {text!r} in another session", quick=True)
            c = new()
            c.compare(Model(init), "scope", "in a new session, after assignments in another one", quick=True)
            self.changes(b, mb, *vt.multi()[0])
            a.compare(ma, "scope", "after assignments in another session", quick=True)
            for text, during, app in vt.hints()[-12:]:
                path.data["other"] = a
                self.hint(b, mb, text, during, app, None)
                a.compare(ma, "scope", f"after {text!r} in another session", quick=True)

        for r in explore(p, env, run, max_paths=8, deadline=time.time() + 120):
            rep.count(r)
            if r.status != "ok":
                rep.ob("scope", f"two sessions {shared}", None, r.reason or repr(r.exc), path=r.path)
        rep.visited |= p.interp.visited


# ----------------------------------------------------------------------------- through a connection


ASCII_LIKE = {"utf8mb4", "utf8mb3", "utf8", "latin1", "latin2", "latin5", "latin7", "ascii", "cp1250", "cp1251", "cp1256", "cp1257", "cp850", "cp852", "cp866", "gbk", "gb2312", "gb18030", "big5", "euckr", "ujis", "eucjpms", "hebrew", "greek", "koi8r", "koi8u", "tis620", "macroman", "macce", "binary", "cp932", "sjis"}


def connection(rep, p, texts):
    base = full_stmt(Stmt)

    class Env(base):
        base_caps = base.base_caps & ~(1 << 20)
        rows = (("x",),)

        def __init__(self, program):
            super().__init__(program)
            self.corpus.load("variables.json")

        def packet(self, path, cmd, i):
            pkt = super().packet(path, cmd, i)
            path.data["mid_command"] = path.data["calm"] = first_byte(pkt) == 0x11
            path.data.setdefault("replies", []).append([])
            return pkt

        def wrote(self, path, data, drain, node):
            super().wrote(path, data, drain, node)
            if path.data["phase"] == "commands":
                if path.data.get("replies"):
                    path.data["replies"][-1].append(data)
            else:
                path.data.setdefault("login", []).append(data)
            if path.data.get("mid_command") and first_byte(data) in (0, 0xFF):
                path.data["mid_command"] = False

        def outcomes(self, path, what):
            if path.data.get("mid_command"):
                return ("user",) if what == "get_user" else ("success",)
            return super().outcomes(path, what)

        def executed(self, path, args, kwargs, node):
            r = SessHooks.executed(self, path, args, kwargs, node)
            r.attrs.update(rows=AList([("x",)]), columns=("a",))
            return r

        def make_session(self, path):
            s = super().make_session(path)
            for n, v in path.data.get("server_says", {}).items():
                it = self.it
                it.call(it.getattr(it.getattr(s, "variables"), "set"), [n, v], {"force": True}, None)
            return s

    env = Env(p)

    def follow():
        return [
            ("SELECT 1", env.com_query(b"SELECT 1")), ("SHOW VARIABLES", env.com_query(b"SHOW VARIABLES")),
            ("COM_PING", lambda e, path: b"\x0e"), ("COM_INIT_DB", lambda e, path: b"\x02db1"), ("a statement of the application", env.com_query(vt.APP.encode())),
            ("COM_STMT_PREPARE", env.com_prepare(b"SELECT 1")), ("COM_STMT_EXECUTE", env.com_execute(0, [])), ("COM_RESET_CONNECTION", lambda e, path: b"\x1f"),
            ("COM_CHANGE_USER", lambda e, path: b"\x11root2\0\x04abcddb1\0" + bytes([45, 0]) + b"mysql_native_password\0"), ("SELECT 1, at the end", env.com_query(b"SELECT 1")),
        ]

    for text in texts or ():
        def go(path, text=text):
            path.data["handshake"] = env.handshake(b"db1")
            return env.run(path, [env.com_query(text.encode())] + [c for _, c in follow()])

        for r in explore(p, env, go, max_paths=5, deadline=time.time() + 60):
            rep.count(r)
            path = r.path
            reps = path.data.get("replies", [])
            site = f"{text!r}, through a connection"
            if r.status == "raise" and not from_library(r) and reps and reps[0] and first_byte(reps[0][0]) == 0 and len(reps) <= len(follow()):
                rep.ob("unbroken", site, False, f"after {text!r} was accepted, {r.exc.value!r} ends the connection", r.exc.where, path=path)
                continue
            if r.status == "budget" and reps and reps[0]:
                continue
            if r.status != "ok" or not reps or not reps[0]:
                rep.ob("unbroken", site, None, r.reason or repr(r.exc), path=path)
                continue
            if not isinstance(first_byte(reps[0][0]), int):
                rep.ob("unbroken", site, None, path=path)
                continue
            if first_byte(reps[0][0]) != 0:
                rep.ob("unbroken", site, True, path=path)
                continue
            if "utf16" in text or "utf32" in text or "ucs2" in text:
                rep.ob("unbroken", site, None, path=path)
                continue
            ok, msg = True, ""
            for (what, _), got in zip(follow(), reps[1:]):
                if not got:
                    ok, msg = False, f"after {text!r} was accepted, there's no response to {what}"
                elif any(first_byte(x) == 0xFF for x in got):
                    ok, msg = False, f"after {text!r} was accepted, {what} fails"
                if not ok:
                    break
            if ok and len(reps) != len(follow()) + 1:
                ok, msg = False, f"after {text!r} was accepted, the connection ends"
            rep.ob("unbroken", site, ok, msg, path=path)
    # what the handshake announces
    for version in () if texts else (None, "5.7.44-log", "9.9.9"):
        def go(path, version=version):
            path.data["handshake"] = env.handshake(b"db1")
            path.data["server_says"] = {"version": version} if version else {}
            v = env.run(path, [env.com_query(b"SELECT 1")])
            return v

        for r in explore(p, env, go, max_paths=8, deadline=time.time() + 60):
            rep.count(r)
            path = r.path
            site = f"version {version}"
            s = path.data.get("sess")
            hs = path.data.get("login") or []
            if r.status != "ok" or not hs:
                rep.ob("version", site, None, r.reason or repr(r.exc), path=path)
                continue
            want = version or "8.0.29"
            head = hs[0]
            ps = parts(head)
            ok = None
            if ps and isinstance(ps[0], bytes) and ps[0][:1] == b"\n" and b"\0" in ps[0]:
                got = ps[0][1:ps[0].index(b"\0")].decode("latin1")
                if version is None:
                    want = env_version(p)
                ok = got == want if want is not None else None
                rep.ob("version", site, ok, f"the handshake announces {got!r}, @@version is {want!r}", path=path)
            else:
                rep.ob("version", site, None, path=path)
    rep.visited |= p.interp.visited


def env_version(p):
    sv = p.need("mysql_mimic.variables.SYSTEM_VARIABLES")
    v = sv.d.get("version") if isinstance(sv, ADict) else None
    return v[1] if isinstance(v, tuple) and len(v) > 1 and isinstance(v[1], str) else None


def check(rep):
    rep.rule("read", "SELECT @@x gives the value most recently assigned in the session, of the variable's type, or its default")
    rep.rule("show", "SHOW VARIABLES gives the same, every variable once")
    rep.rule("accepted", "an assignment of a value of the right type, in any spelling, is accepted")
    rep.rule("coerced", "a value that can't be converted to the variable's type is refused")
    rep.rule("read_only", "no statement changes a read-only variable")
    rep.rule("refused", "unknown names and read-only variables are errors, which change nothing else")
    rep.rule("hint", "a statement with a SET_VAR hint is handled")
    rep.rule("hint.during", "during the statement, the variables have the values of the hint")
    rep.rule("hint.after", "afterwards, all variables have their previous values, also if the statement failed")
    rep.rule("time_zone", "NOW(), CURDATE() and CURTIME() are in the time zone of the session")
    rep.rule("scope", "assignments are seen by their own session only")
    rep.rule("unbroken", "after an assignment that was accepted, later statements work")
    rep.rule("version", "the handshake announces @@version")
    rep.assumptions.append("sqlglot parses texts as recorded in sa/data/*.json; its expression classes are interpreted from the installed source")
    c = Check(rep)
    c.hints()
    c.assignments()
    c.spellings()
    c.histories()
    texts = [t for name, cases in vt.assignments().items() if vt.KNOWN[name][1] for t, _ in cases] + [t for t, _ in vt.multi()]
    n = 12
    rep.parallel(
        c.jobs + [(c.scopes, False), (c.scopes, True)] + [(connection, rep, c.p, texts[i::n]) for i in range(n)] + [(connection, rep, c.p, None)]
    )
