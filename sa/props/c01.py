"""C01: no command is served on a connection that has not authenticated"""
from __future__ import annotations

from .conn import *


class Auth(ConnEnv):
    app_outcomes = {"handle_query": ("none",), "init": ("ok",)}
    var_set_fails = False

    def __init__(self, program, rep, phase):
        super().__init__(program)
        self.rep, self.phase = rep, phase
        self.commands = []

    def start(self, path):
        path.data["state"] = "none"  # none, ok, failed

    def next_read(self, path, n):
        d = path.data
        if d.get("in_command_phase"):
            i = d["cmd"] = d.get("cmd", -1) + 1
            if i < len(self.commands):
                b = self.commands[i]
                if b == 0x11 and d["state"] != "failed":
                    d["state"] = "exchange"
                return cat(bytes([b]), Sym("atom", f"payload {i}", ty="bytes"))
            return None
        return Sym("atom", f"client data {n}", ty="bytes")

    def outcomes(self, path, what):
        if self.phase == "change user" and not path.data.get("in_command_phase"):
            return ("user",) if what == "get_user" else ("success",)
        return super().outcomes(path, what)

    def decide(self, path, sym):
        if self.phase == "change user" and not path.data.get("in_command_phase"):
            if sym.op == "isnone":
                return True
            if sym.op in ("cmp", "oneof"):
                return True
            if sym.op == "atom":
                return True
        return super().decide(path, sym)

    def parse_call(self, path, name, f, args, kwargs, node):
        if self.phase == "change user" and not path.data.get("in_command_phase"):
            path.data["calm"] = True
        else:
            path.data["calm"] = False
        return super().parse_call(path, name, f, args, kwargs, node)

    def app_event(self, path, name, args, kwargs):
        d = path.data
        site = path.func()
        if name == "init":
            d["in_command_phase"] = True
        if name == "close":
            return
        if name == "reset" and d["state"] == "ok":
            return
        if name == "init" and d["state"] == "ok":
            self.rep.ob("auth.served", "session.init", True)
            self.check_user(path)
            return
        ok = d["state"] == "ok"
        self.rep.ob("auth.served", f"session.{name}", ok, f"session.{name}() is called although {self.why(d)}", path=path)

    def check_user(self, path):
        s = path.data["session"].attrs.get("username")
        want = path.data.get("success")
        ok = want is not None and s is want.attrs.get("authenticated_as")
        self.rep.ob("auth.user", "session.username", ok, f"the session runs under {show(s)}, not under the identity that was authenticated", path=path)

    @staticmethod
    def why(d):
        return {"none": "nobody authenticated yet", "failed": f"the authentication failed ({d.get('how')})", "exchange": "the exchange isn't over"}.get(d["state"], d["state"])

    def parse_failed(self, path, name):
        if path.data["state"] in ("none", "exchange"):
            path.data["state"] = "failed"
            path.data["how"] = "malformed packet"

    def event(self, path, kind, info):
        d = path.data
        if d["state"] == "failed":
            return
        if kind == "auth_failed":
            d["state"] = "failed"
            d["how"] = info["how"]
        elif kind == "auth_ok":
            d["state"] = "ok"
            self.check_plugin(path, info["plugin"])
        elif kind == "get_user":
            d["state"] = "exchange"
            d["looked_up"] = []
            d["user"] = None
        elif kind == "get_plugin":
            d.setdefault("looked_up", []).append(info["name"])
        elif kind == "app_failed" and info["name"] in ("init", "reset"):
            pass

    def wrote(self, path, data, drain, node):
        d = path.data
        if d["state"] == "failed":
            e = is_err(data)
            if e:
                d["erred"] = True
            self.rep.ob("auth.err_only", "after a failed exchange", e, f"{show(data)[:120]} is sent although the authentication failed ({d.get('how')})", path=path)
        elif d["state"] in ("none", "exchange") and not is_err(data):
            b = first_byte(data)
            # an OK before the exchange ended
            self.rep.ob("auth.err_only", "during the exchange", None if b is None else b != 0, "OK is sent before the exchange ended", path=path)

    def check_plugin(self, path, pl):
        """Did the plugin that the account is bound to decide?"""
        d = path.data
        u = d.get("user")
        if u is None:
            return
        want = u.attrs.get("auth_plugin")
        look = d.get("looked_up", [])
        up = [d.get(("plugin", n)) for n in look]
        if not look:
            return
        U = next((x for x in up if x is not None), None)
        if U is None:
            ok = pl.label == "default_plugin"
        elif pl is U:
            ok = True
        else:
            n = self.p.interp.eq(pl.attrs["name"], U.attrs["name"])
            ok = n is True or isinstance(n, Sym) and path.known(n) is True
        self.rep.ob("auth.plugin", "the account's plugin decides", ok, f"{pl.label} decides over an account that's bound to another plugin", path=path)

    def set_attr(self, path, obj, name, value, node):
        if name == "username" and obj is path.data.get("session") and "conn" in path.data:
            s = path.data.get("success")
            ok = s is not None and value is s.attrs.get("authenticated_as") and path.data["state"] == "ok"
            self.rep.ob("auth.user", f"assignment of session.username in {path.func()}", ok, f"session.username becomes {show(value)} without having been authenticated", path=path)


def check(rep):
    p = Program()
    rep.rule("auth.served", "no callback of the application session (but close) unless the last authentication exchange on the path ended in Success")
    rep.rule("auth.err_only", "after a failed exchange, only ERR packets are written; no OK before the exchange ended")
    rep.rule("auth.user", "session.username is only ever assigned the authenticated_as of the exchange's Success")
    rep.rule("auth.plugin", "the decision is that of the plugin the account is bound to")
    rep.rule("auth.err_sent", "a failed exchange is answered with ERR")
    for site, f in (("handshake", handshake), ("change user", change_user), ("identity provider", provider)):
        f(rep, p)


def final(rep, res):
    d = res.path.data
    if res.status in ("ok", "raise") and d["state"] == "failed":
        rep.ob("auth.err_sent", "failed exchange", bool(d.get("erred")), f"no ERR packet after {d.get('how')}", path=res.path)
    if res.status in ("undecided",):
        rep.ob("auth.served", "session.handle_query", None, res.reason)


COMMANDS = [0x03, 0x02, 0x0E, 0x16, 0x1F, 0x11, 0x04, 0x1A]


def handshake(rep, p):
    env = Auth(p, rep, "handshake")

    def run(path):
        env.commands = [0x03]
        tls = path.choose(2, "TLS configured") == 0
        conn = env.make(path, ssl=mk(path, ExtClass("ssl.SSLContext"), "ssl") if tls else None)
        return p.interp.await_(p.interp.call(p.interp.getattr(conn, "start"), [], {}, None))

    rep.explore(p, env, run, "Connection.start: handshake, then COM_QUERY", max_paths=8000, budget_s=200, each=lambda r: final(rep, r))
    rep.ob("auth.served", "session.handle_query", True if ("auth.served", "session.init") in rep.obligations else None, "no path reaches the command phase")


def change_user(rep, p):
    env = Auth(p, rep, "change user")
    cmds = COMMANDS if rep.thorough else COMMANDS[:6]

    def run(path):
        c = cmds[path.choose(len(cmds), "command after COM_CHANGE_USER")]
        env.commands = [0x11, c]
        conn = env.make(path)
        return p.interp.await_(p.interp.call(p.interp.getattr(conn, "start"), [], {}, None))

    rep.explore(p, env, run, "Connection.start: handshake, COM_CHANGE_USER, then a command", max_paths=12000, budget_s=300, each=lambda r: final(rep, r))


class Prov(Client):
    kmax = 2

    def __init__(self, plugins):
        self.plugins = plugins

    def call(self, path, f, args, kwargs, node):
        if isinstance(f, Func) and f.name == "get_plugins" and args and args[0] is path.data.get("idp"):
            return AList(self.plugins)
        return NotImplemented


def provider(rep, p):
    """The lookup of plugins"""
    it = p.interp
    cls = p.need(IDP)
    P = [Obj(p.need(PLUGIN), {"name": Sym("atom", f"plugin{i}.name", ty="str")}, label=f"plugin{i}", open_=True) for i in (1, 2)]
    name = Sym("atom", "wanted", ty="str")

    def run(path):
        o = path.data["idp"] = Obj(cls, {}, label="idp")
        return it.call(it.getattr(o, "get_plugin"), [name], {}, None)

    S = "IdentityProvider.get_plugin"

    def each(res):
        path = res.path
        if res.status == "raise":
            rep.ob("auth.plugin", S, None, "raises")
            return
        if res.status != "ok":
            rep.ob("auth.plugin", S, None, res.reason)
            return
        v = res.value
        eqs = [it.eq(q.attrs["name"], name) for q in P]
        known = [e if isinstance(e, bool) else path.known(e) for e in eqs]
        same = it.eq(P[0].attrs["name"], P[1].attrs["name"])
        if (same if isinstance(same, bool) else path.known(same)) is True and any(k is True for k in known):
            known = [True for _ in known]
        if v is None:
            ok = False if any(k is True for k in known) else True if all(k is False for k in known) else None
            rep.ob("auth.plugin", S, ok, "a configured plugin isn't found", path=path)
        elif v in P:
            k = known[P.index(v)]
            rep.ob("auth.plugin", S, True if k is True else False, f"{v.label} is returned although its name isn't the wanted one", path=path)
        else:
            rep.ob("auth.plugin", S, None, f"returns {v!r}")

    rep.explore(p, Prov(P), run, S, each=lambda r: each_with(p, r, each))

    def run2(path):
        o = path.data["idp"] = Obj(cls, {}, label="idp")
        return it.call(it.getattr(o, "get_default_plugin"), [], {}, None)

    def each2(res):
        if res.status == "ok" and isinstance(res.value, Obj):
            rep.ob("auth.plugin", "IdentityProvider.get_default_plugin", res.value is P[0], f"the default plugin is {res.value!r}, not the first one", path=res.path)
        else:
            rep.ob("auth.plugin", "IdentityProvider.get_default_plugin", None, res.reason)

    rep.explore(p, Prov(P), run2, "IdentityProvider.get_default_plugin", each=each2)


def each_with(p, res, fn):
    """Look at the final state of a path"""
    p.path = res.path
    try:
        fn(res)
    finally:
        p.path = None
