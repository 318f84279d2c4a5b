"""The environment of a connection: client, application session, identity provider, control"""
from __future__ import annotations

import ast

from .common import *

CONN = "mysql_mimic.connection.Connection"
STREAM = "mysql_mimic.stream.MysqlStream"
SESSION = "mysql_mimic.session.BaseSession"
IDP = "mysql_mimic.auth.IdentityProvider"
PLUGIN = "mysql_mimic.auth.AuthPlugin"
VARS = "mysql_mimic.variables.Variables"
CONTROL = "mysql_mimic.control.Control"
CHARSET = "mysql_mimic.charset.CharacterSet"
APP = ("handle_query", "init", "close", "reset", "use")


def exc(cls, *args):
    o = Obj(cls, {"args": tuple(args)})
    if isinstance(cls, UClass) and any(getattr(c, "qual", "") == "mysql_mimic.errors.MysqlError" for c in cls.mro()):
        # what its constructor would have set
        o.open, o.label = True, "error"
        o.attrs.update(msg=args[0] if args else Sym("atom", "msg", ty="str"), code=Sym("atom", "code", ty="int"))
    return Raise(o)


def first_byte(pkt):
    """First byte of a packet, if it's known"""
    q = parts(pkt)[0]
    if isinstance(q, bytes) and q:
        return q[0]
    return None


def is_err(pkt):
    b = first_byte(pkt)
    return None if b is None else b == 0xFF


def short(sym):
    """Texts have less than 251 bytes: what does that say about a comparison?"""

    def bounds(x):
        """Values of a length, and of its high bits"""
        if isinstance(x, Sym) and x.op == "len":
            return 0, 250
        if isinstance(x, Sym) and x.op == ">>" and isinstance(x.args[1], int) and x.args[1] >= 0:
            b = bounds(x.args[0])
            return b and (b[0] >> x.args[1], b[1] >> x.args[1])
        if isinstance(x, Sym) and x.op == "//" and isinstance(x.args[1], int) and x.args[1] > 0:
            b = bounds(x.args[0])
            return b and (b[0] // x.args[1], b[1] // x.args[1])
        return None

    b = bounds(sym)
    if b is not None and sym.op != "len" and b[1] == 0:
        return False
    if sym.op != "cmp" or sym.args[0] not in ("<", "=="):
        return None
    o, x, y = sym.args
    for u, v, flip in ((x, y, False), (y, x, True)):
        b = bounds(u)
        if b is None or not isinstance(v, int):
            continue
        if o == "==":
            return False if v > b[1] else True if b == (v, v) else None
        if flip:
            return False if v >= b[1] else None
        return True if v > b[1] else None
    return None


class ConnEnv(Client):
    """Everything outside of connection.py as the protocol sees it.

    Outcomes of the environment are decisions of the path:
    * read: `self.script` says what the client sends
    * the application's callbacks: `self.app_outcomes[name]`
    """

    kmax = 1
    max_loop = 6
    summarise_parse = True
    summarise_text = True
    app_outcomes = {}
    var_set_fails = False
    write_fails = False

    def __init__(self, program):
        self.p = program
        it = program.interp
        self.conn_cls = program.need(CONN)
        self.stream_cls = program.need(STREAM)
        base = program.need(SESSION)
        self.app_cls = UClass("AppSession", [base], {}, base.module, "app.AppSession")
        self.mysql_error = program.need("mysql_mimic.errors.MysqlError")
        self.closed_exc = program.find("mysql_mimic.stream.ConnectionClosed")
        self.caps_cls = program.need("mysql_mimic.types.Capabilities")
        self.it = it

    split_caps = False  # are the capabilities relevant to this check?
    base_caps = 1 << 9 | 1 << 15 | 1 << 19 | 1 << 3 | 1 << 20 | 1 << 21  # PROTOCOL_41, SECURE_CONNECTION, PLUGIN_AUTH, ...

    def decide(self, path, sym):
        """Decisions that make no difference"""
        if sym.op == "hasflag" and not self.split_caps:
            return bool(sym.args[1] & self.base_caps)
        if sym.op == "cmp" and any(x.op == "len" and isinstance(x.args[0], Sym) and x.args[0].op == "atom" and "challenge" in str(x.args[0].args[0]) for x in terms(sym)):
            return False
        if sym.op == "atom" and str(sym.args[0]).endswith(".msg"):
            return True
        if not self.split_lengths:
            r = short(sym)
            if r is not None:
                return r
        if sym.op == "eq" and isinstance(sym.args[1], EnumV) and sym.args[1].cls.name == "ErrorCode" and isinstance(sym.args[0], Sym) and sym.args[0].op == "atom":
            return False
        if sym.op == "cmp" and sym.args[0] == "==" and isinstance(sym.args[2], EnumV) and sym.args[2].cls.name == "ErrorCode":
            return False
        return None

    split_lengths = False  # do the lengths of texts matter?

    # ---- construction

    def make(self, path, **kw):
        """A connection, with its collaborators"""
        it = self.it
        variables = mk(path, self.p.need(VARS), "variables")
        session = mk(path, self.app_cls, "session", variables=variables, username=None, database=None)
        stream = mk(path, self.stream_cls, "stream")
        control = mk(path, self.p.need(CONTROL), "control")
        idp = mk(path, self.p.need(IDP), "identity_provider")
        path.data.update(session=session, stream=stream, variables=variables, idp=idp, control=control)
        args = dict(stream=stream, session=session, control=control, identity_provider=idp)
        args.update(kw)
        path.data["capturing"] = False
        conn = it.call(self.conn_cls, [], args, None)
        path.data["conn"] = conn
        return conn

    def caps(self, path, required=0, name="capabilities"):
        """A capability set, with some flags known to be set"""
        s = Sym("atom", name, ty=self.caps_cls)
        for m in self.caps_cls.enum_members.values():
            if required & m.value:
                path.assume(Sym("hasflag", s, m.value, ty="bool"), True)
        return s

    def opaque(self, path, cls, label):
        """An instance of a class that was made from something unknown"""
        o = Obj(cls, {}, label=label, open_=True)
        if cls.fields is None:
            return o
        anns = {}
        for c in reversed(cls.mro()):
            if isinstance(c, UClass) and c.node is not None:
                for st in c.node.body:
                    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                        anns[st.target.id] = (st.annotation, c.module)
        for n, *_ in cls.fields:
            a, m = anns.get(n, (None, None))
            o.attrs[n] = self.of_annotation(path, a, m, f"{label}.{n}")
        return o

    def of_annotation(self, path, a, module, label):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            a = ast.parse(a.value, mode="eval").body
        txt = ast.unparse(a) if a is not None else ""
        if txt in ("str", "bytes", "int", "bool", "float"):
            return Sym("atom", label, ty=txt)
        if txt.startswith(("Dict", "dict", "Mapping")):
            return ADict({}, Sym("atom", label))
        if txt in ("Optional[str]", "str | None"):
            return Sym("atom", label)
        c = module.ns.get(txt) if module is not None and isinstance(a, ast.Name) else None
        if isinstance(c, UClass):
            if c.enum_members is not None:
                return Sym("atom", label, ty=c)
            return self.opaque(path, c, label)
        return Sym("atom", label)

    # ---- the client

    def next_read(self, path, n):
        """What the client sends next (an abstract byte string), or None if it hangs up"""
        return None

    # ---- interception

    def call(self, path, f, args, kwargs, node):
        if isinstance(f, UClass):
            return NotImplemented
        name = f.name
        if f.owner is not None:
            if method_of(self.p, f, STREAM, name):
                r = self.stream_call(path, name, f, args, kwargs, node)
                if r is not NotImplemented:
                    return r
            elif name in APP and f.owner is not None and args and isinstance(args[0], Obj) and args[0] is path.data.get("session"):
                return self.app_call(path, name, f, args, kwargs, node)
            elif method_of(self.p, f, VARS, name) and args and args[0] is path.data.get("variables"):
                r = self.var_call(path, name, f, args, kwargs, node)
                if r is not NotImplemented:
                    return r
            elif method_of(self.p, f, IDP, name) and args and args[0] is path.data.get("idp"):
                r = self.idp_call(path, name, f, args, kwargs, node)
                if r is not NotImplemented:
                    return r
            elif method_of(self.p, f, PLUGIN, name) and args and isinstance(args[0], Obj) and args[0].label in ("default_plugin", "user_plugin"):
                r = self.plugin_call(path, name, f, args, kwargs, node)
                if r is not NotImplemented:
                    return r
            elif f.owner.qual == CHARSET and self.summarise_text:
                r = self.charset_call(path, name, f, args, kwargs, node)
                if r is not NotImplemented:
                    return r
        if self.summarise_parse and f.owner is None and f.qual.startswith("mysql_mimic.packets.") and (name.startswith("parse_")):
            r = self.parse_call(path, name, f, args, kwargs, node)
            if r is not NotImplemented:
                return r
        return NotImplemented

    def parse_call(self, path, name, f, args, kwargs, node):
        ret = f.node.returns
        if ret is None:
            return NotImplemented
        if isinstance(ret, ast.Constant) and isinstance(ret.value, str):
            ret = ast.parse(ret.value, mode="eval").body
        alts = []
        if isinstance(ret, ast.Subscript) and ast.unparse(ret.value).endswith("Union"):
            alts = list(ret.slice.elts) if isinstance(ret.slice, ast.Tuple) else [ret.slice]
        elif isinstance(ret, ast.BinOp):
            alts = [ret.left, ret.right]
        else:
            alts = [ret]
        n = len(alts)
        i = 0 if path.data.get("calm") else path.choose(n + 1, f"{name} returns")
        loc = self.it.bind(f, args, kwargs, node)
        if i == n:
            path.emit("parse_failed", name=name)
            self.parse_failed(path, name)
            excs = self.parse_errors
            e = excs[path.choose(len(excs), f"{name} raises")]
            raise exc(self.mysql_error if e == "mysql_error" else ValueError, "malformed")
        a = alts[i]
        src = loc.get("data")
        k = path.fresh()
        v = self.of_annotation(path, a, f.module, f"{name}#{k}")
        path.emit("parsed", name=name, data=src, value=v, args=loc)
        return v

    parse_errors = ("mysql_error", "error")

    def parse_failed(self, path, name):
        pass

    def stream_call(self, path, name, f, args, kwargs, node):
        if args[0] is not path.data.get("stream"):
            return NotImplemented
        if name == "read":
            n = path.data["reads"] = path.data.get("reads", 0) + 1
            path.emit("read", n=n)
            self.it.suspend(("read", n), node)
            v = self.next_read(path, n)
            if v is None:
                path.emit("closed")
                if self.closed_exc is None:
                    raise Undecided("no ConnectionClosed")
                raise exc(self.closed_exc)
            return v
        if name == "write":
            loc = self.it.bind(f, args, kwargs, node)
            names = [a.arg for a in f.node.args.args]
            data = loc[names[1]]
            drain = loc.get("drain", True)
            d = self.it.truth(drain)
            path.emit("write", data=data, drain=d)
            self.wrote(path, data, d, node)
            if d:
                self.it.suspend(("write", data), node)
            elif not self.lazy_write:
                self.it.suspend(("write", data), node)
            return None
        if name == "drain":
            path.emit("drain")
            self.it.suspend(("drain",), node)
            return None
        if name == "flush":
            path.emit("flush")
            return None
        if name == "reset_seq":
            path.emit("reset_seq")
            return None
        if name == "start_tls":
            path.emit("tls")
            self.it.suspend(("tls",), node)
            return None
        return NotImplemented

    lazy_write = True

    def wrote(self, path, data, drain, node):
        pass

    def app_call(self, path, name, f, args, kwargs, node):
        path.emit("app", name=name, args=args[1:], kwargs=kwargs)
        self.app_event(path, name, args[1:], kwargs)
        self.it.suspend(("app", name), node)
        outs = self.app_outcomes.get(name, ("ok",))
        o = outs[path.choose(len(outs), f"session.{name}()")]
        return self.app_result(path, name, o)

    def app_event(self, path, name, args, kwargs):
        pass

    def app_result(self, path, name, o):
        if o == "ok":
            path.emit("app_done", name=name)
            return Sym("atom", f"result of {name}#{path.fresh()}") if name == "handle_query" else None
        if o == "none":
            path.emit("app_done", name=name)
            return None
        path.emit("app_failed", name=name, how=o)
        if o == "mysql_error":
            v = Obj(self.mysql_error, {}, "app_error", True)
            v.attrs.update(msg=Sym("atom", "app msg", ty="str"), code=Sym("atom", "app code", ty=self.p.need("mysql_mimic.errors.ErrorCode")), args=())
            raise Raise(v)
        if o == "error":
            raise exc(Exception, Sym("atom", "app error", ty="str"))
        if o == "cancel":
            from ..models import CancelledError

            raise exc(CancelledError)
        raise Undecided(o)

    def var_call(self, path, name, f, args, kwargs, node):
        if name == "get":
            k = args[1] if len(args) > 1 else kwargs.get("name")
            return self.var_get(path, k)
        if name == "set":
            loc = self.it.bind(f, args, kwargs, node)
            path.emit("var_set", args=loc)
            if self.var_set_fails and path.choose(2, f"variables.set({show(args[1]) if len(args) > 1 else ''}) fails"):
                path.emit("var_set_failed", args=loc)
                self.parse_failed(path, "variables.set")
                raise exc(self.mysql_error, "bad value")
            if len(args) > 2 and isinstance(args[1], str):
                path.data.setdefault("vars", {})[args[1].lower()] = args[2]
            return None
        return NotImplemented

    def var_get(self, path, k):
        v = path.data.get("vars", {}).get(k.lower() if isinstance(k, str) else k)
        if v is not None:
            return v
        return Sym("atom", f"@@{k if isinstance(k, str) else show(k)}", ty="str")

    def enum_name(self, path, cls, v, node):
        return Sym("enumname", cls, v, ty=cls)

    def charset_call(self, path, name, f, args, kwargs, node):
        if name == "decode" and len(args) >= 2:
            return Sym("dec", args[0], self.it.freeze(args[1]), ty="str")
        if name == "encode" and len(args) >= 2:
            return Sym("enc", args[0], self.it.freeze(args[1]), ty="bytes")
        if name == "codec":
            return Sym("codec", args[0], ty="str")
        return NotImplemented

    # ---- authentication

    def idp_call(self, path, name, f, args, kwargs, node):
        if name == "get_default_plugin":
            d = path.data.get("default_plugin")
            if d is None:
                d = path.data["default_plugin"] = self.plugin(path, "default_plugin")
            return d
        if name == "get_plugin":
            k = args[1] if len(args) > 1 else kwargs.get("name")
            path.emit("get_plugin", name=k)
            key = ("plugin", k)
            if key not in path.data:
                if not self.plugin_lookup_fails(path) or path.choose(2, f"get_plugin({show(k)})") == 0:
                    path.data[key] = self.plugin(path, "user_plugin")
                    path.data[key].attrs["key"] = k
                else:
                    path.data[key] = None
            return path.data[key]
        if name == "get_user":
            k = args[1] if len(args) > 1 else kwargs.get("username")
            path.emit("get_user", name=k)
            self.it.suspend(("get_user",), node)
            outs = self.outcomes(path, "get_user")
            o = outs[path.choose(len(outs), "get_user()")]
            if o == "none":
                path.emit("auth_failed", how="unknown user")
                return None
            if o == "error":
                path.emit("auth_failed", how="get_user() raises")
                raise exc(Exception, "boom")
            u = self.opaque(path, self.p.need("mysql_mimic.auth.User"), f"user#{path.fresh()}")
            path.data["user"] = u
            path.emit("user", user=u, name=k)
            return u
        return NotImplemented

    def outcomes(self, path, what):
        return self.user_outcomes if what == "get_user" else self.decisions

    def plugin_lookup_fails(self, path):
        return True

    user_outcomes = ("user", "none", "error")
    rounds = 2  # number of decisions of an exchange
    decisions = ("success", "forbidden", "bytes", "error")

    def plugin(self, path, label):
        return mk(path, self.p.need(PLUGIN), label, name=Sym("atom", f"{label}.name", ty="str"), client_plugin_name=Sym("atom", f"{label}.client_plugin_name"))

    def plugin_call(self, path, name, f, args, kwargs, node):
        pl = args[0]
        if name == "start":
            info = args[1] if len(args) > 1 else kwargs.get("auth_info")
            self.it.suspend(("plugin",), node)
            state = Obj(_StateClass, {}, label="auth_state")
            state.attrs["plugin"] = pl
            state.attrs["asend"] = Prim("asend", lambda it, a, k, n: it_coro(lambda: self.asend(path, state, a[0] if a else None, n)))
            path.emit("plugin_start", plugin=pl, info=info, state=state)
            if info is None:
                v = Sym("atom", f"{pl.label} challenge#{path.fresh()}", ty="bytes")
                path.emit("challenge", plugin=pl, data=v)
                return (v, state)
            return (self.decision(path, pl, info, "start"), state)
        return NotImplemented

    def asend(self, path, state, info, node):
        path.emit("asend", state=state, info=info, plugin=state.attrs["plugin"])
        self.it.suspend(("plugin",), node)
        return self.decision(path, state.attrs["plugin"], info, "asend")

    def decision(self, path, pl, info, how):
        n = path.data["decisions"] = path.data.get("decisions", 0) + 1
        ds = self.outcomes(path, "decision")
        if n % self.rounds == 0:
            ds = tuple(d for d in ds if d != "bytes")
        d = ds[path.choose(len(ds), f"{pl.label} decides")]
        path.emit("decision", plugin=pl, info=info, what=d, how=how)
        if d == "success":
            v = self.opaque(path, self.p.need("mysql_mimic.auth.Success"), f"success#{path.fresh()}")
            path.data["success"] = v
            path.emit("auth_ok", plugin=pl, success=v)
            return v
        if d == "forbidden":
            path.emit("auth_failed", how="Forbidden")
            return self.opaque(path, self.p.need("mysql_mimic.auth.Forbidden"), f"forbidden#{path.fresh()}")
        if d == "error":
            path.emit("auth_failed", how="the plugin raises")
            raise exc(Exception, "plugin")
        v = Sym("atom", f"more data#{path.fresh()}", ty="bytes")
        path.emit("challenge", plugin=pl, data=v)
        return v


_StateClass = UClass("AuthState", [], {}, None, "env.AuthState")


def it_coro(run):
    return Coro(run, None)
