"""Statements that a session handles: the real Session and its variables, with the application around them"""
from __future__ import annotations

from ..sqlg import Sqlg
from .conn import *

FULL = "mysql_mimic.session.Session"
INFO = "mysql_mimic.schema.BaseInfoSchema"


class SessHooks(Sqlg):
    """Mixin.  Events: app (query() of the application), catalog, executed, killed, used"""

    def init_session(self, program):
        self.init_sqlglot(program)
        base = program.need(FULL)
        self.full_cls = UClass("FullSession", [base], {}, base.module, "app.FullSession")
        info = program.need(INFO)
        self.info_cls = UClass("AppInfoSchema", [info], {}, info.module, "app.AppInfoSchema")

    def make_session(self, path):
        d = path.data
        d["sess"] = s = self.it.call(self.full_cls, [], {}, None)
        return s

    app_query_outcomes = ("ok",)

    def sess_call(self, path, f, args, kwargs, node):
        if isinstance(f, UClass):
            return NotImplemented
        r = self.lib_call(path, f, args, kwargs, node)
        if r is not NotImplemented:
            return r
        s = path.data.get("sess")
        if f.owner is not None and args and args[0] is s and s is not None:
            loc = lambda: self.it.bind(f, args, kwargs, node)
            if f.name == "query" and method_of(self.p, f, FULL, "query"):
                a = loc()
                k = path.data["nquery"] = path.data.get("nquery", 0) + 1
                attrs = a.get("attrs")
                path.emit("query", tree=a.get("expression"), sql=a.get("sql"), attrs=ADict(attrs.d, attrs.open) if isinstance(attrs, ADict) else attrs,
                          database=s.attrs.get("database"), k=k, values=self.values_of(s), cls=getattr(getattr(a.get("expression"), "cls", None), "name", None))
                self.during_query(path)
                o = self.app_query_outcomes
                o = o[path.choose(len(o), f"query() {k}")]
                if o == "error":
                    path.emit("query_failed")
                    raise exc(self.p.need("mysql_mimic.errors.MysqlError"), "application")
                r = path.data["last_app"] = Sym("atom", f"application's result {k}")
                return r
            if f.name == "schema" and method_of(self.p, f, FULL, "schema"):
                path.emit("schema")
                return self.schema_of(path)
            if f.name == "use" and method_of(self.p, f, FULL, "use"):
                a = loc()
                names = [x.arg for x in f.node.args.args]
                path.emit("used", name=a.get(names[1]) if len(names) > 1 else None)
                return NotImplemented
        if f.name == "query" and f.owner is not None and args and args[0] is path.data.get("info"):
            a = self.it.bind(f, args, kwargs, node)
            k = path.fresh()
            path.emit("catalog", tree=a.get("expression"), k=k)
            return Sym("atom", f"catalog's result {k}")
        return NotImplemented

    def values_of(self, s):
        v = s.attrs.get("variables")
        x = v.attrs.get("values") if isinstance(v, Obj) else None
        return dict(x.d) if isinstance(x, ADict) else None

    def during_query(self, path):
        pass

    def schema_of(self, path):
        o = path.data["info"] = Obj(self.info_cls, {}, "catalog")
        return o


class SessEnv(SessHooks, Client):
    """handle_query() of a session that's bound to a connection"""

    def __init__(self, program):
        self.p = program
        self.it = program.interp
        self.init_session(program)

    def start(self, path):
        path.data["killed"] = []

    def connect(self, path, database=None, username="root"):
        it = self.it
        s = self.make_session(path)
        control = mk(path, self.p.need(CONTROL), "control")
        conn = mk(path, self.p.need(CONN), "connection", control=control, connection_id=7, session=s)
        path.data.update(control=control, conn=conn)
        it.await_(it.call(it.getattr(s, "init"), [conn], {}, None))
        s.attrs["database"] = database
        s.attrs["username"] = username
        return s

    def handle(self, path, s, text, attrs=None):
        it = self.it
        return it.await_(it.call(it.getattr(s, "handle_query"), [text, attrs if attrs is not None else ADict()], {}, None))

    def call(self, path, f, args, kwargs, node):
        r = self.sess_call(path, f, args, kwargs, node)
        if r is not NotImplemented:
            return r
        if isinstance(f, Func) and f.name == "kill" and method_of(self.p, f, CONTROL, "kill"):
            a = self.it.bind(f, args, kwargs, node)
            path.emit("killed", id=a.get("connection_id"), kill=a.get("kind"))
            return None
        return NotImplemented

    def call_unknown(self, path, callee, args, kwargs, node):
        return self.lib_unknown(path, callee, args, kwargs, node)

    def decide(self, path, sym):
        return None


def handshake_response(database=None, username=b"root", charset=45, caps=None, attrs=None):
    """Bytes of a handshake response"""
    c = caps if caps is not None else ConnEnv.base_caps & ~(1 << 20) | (1 << 21) | (1 << 27)
    if database is not None:
        c |= 8
    else:
        c &= ~8
    out = [c.to_bytes(4, "little"), (1 << 24).to_bytes(4, "little"), bytes([charset % 256]), b"\0" * 23, username, b"\0", b"\x04abcd"]
    if database is not None:
        out += [database, b"\0"]
    out += [b"mysql_native_password\0"]
    return b"".join(out)


def full_stmt(base):
    """A connection with a real session, made from an environment of a connection"""

    class FullStmt(SessHooks, base):
        handshake = staticmethod(handshake_response)

        def __init__(self, program):
            base.__init__(self, program)
            self.init_session(program)

        def parse_call(self, path, name, f, args, kwargs, node):
            return NotImplemented

        def make(self, path, **kw):
            it = self.it
            session = self.make_session(path)
            stream = mk(path, self.stream_cls, "stream")
            control = mk(path, self.p.need(CONTROL), "control")
            idp = mk(path, self.p.need(IDP), "identity_provider")
            path.data.update(session=session, stream=stream, variables=None, idp=idp, control=control)
            args = dict(stream=stream, session=session, control=control, identity_provider=idp)
            args.update(kw)
            conn = it.call(self.conn_cls, [], args, None)
            path.data["conn"] = conn
            conn.attrs["connection_id"] = 7
            return conn

        def next_read(self, path, n):
            if path.data["phase"] == "handshake":
                return path.data["handshake"]
            return super().next_read(path, n)

        def app_call(self, path, name, f, args, kwargs, node):
            path.emit("app", name=name, args=args[1:], kwargs=kwargs)
            self.app_event(path, name, args[1:], kwargs)
            return NotImplemented

        def sess_call(self, path, f, args, kwargs, node):
            r = super().sess_call(path, f, args, kwargs, node)
            if isinstance(r, Sym) and r.op == "atom" and "'s result" in str(r.args[0]):
                return None
            return r

        def call(self, path, f, args, kwargs, node):
            r = self.sess_call(path, f, args, kwargs, node)
            if r is not NotImplemented:
                return r
            return base.call(self, path, f, args, kwargs, node)

        def call_unknown(self, path, callee, args, kwargs, node):
            r = self.lib_unknown(path, callee, args, kwargs, node)
            if r is not NotImplemented:
                return r
            return base.call_unknown(self, path, callee, args, kwargs, node)

        def executed(self, path, args, kwargs, node):
            r = super().executed(path, args, kwargs, node)
            r.attrs.update(rows=AList([]), columns=())
            return r

    return FullStmt
