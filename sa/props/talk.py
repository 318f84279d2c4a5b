"""A client that has logged in and sends commands"""
from __future__ import annotations

from ..engine import Cut
from ..models import CancelledError
from .conn import *

QUERY, PREPARE, EXECUTE, LONG_DATA, CLOSE, RESET_STMT, FETCH = 0x03, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C
INIT_DB, FIELD_LIST, CHANGE_USER, PING, RESET_CONN, QUIT, DEBUG = 0x02, 0x04, 0x11, 0x0E, 0x1F, 0x01, 0x0D
NAMES = {
    0x01: "COM_QUIT", 0x02: "COM_INIT_DB", 0x03: "COM_QUERY", 0x04: "COM_FIELD_LIST", 0x0D: "COM_DEBUG", 0x0E: "COM_PING",
    0x11: "COM_CHANGE_USER", 0x16: "COM_STMT_PREPARE", 0x17: "COM_STMT_EXECUTE", 0x18: "COM_STMT_SEND_LONG_DATA",
    0x19: "COM_STMT_CLOSE", 0x1A: "COM_STMT_RESET", 0x1C: "COM_STMT_FETCH", 0x1F: "COM_RESET_CONNECTION",
}
DEPRECATE_EOF = 1 << 24
CURSOR_EXISTS, LAST_ROW_SENT = 0x40, 0x80


def cmd_name(c):
    return NAMES.get(c, f"command {c:#x}")


class Talk(ConnEnv):
    """`path.data["cmds"]` is what the client sends.  Everything up to the last `live`
    commands goes well; after that, the environment does whatever it can do."""

    faults = ()  # what may happen while the connection is suspended
    max_faults = 1
    live = 1
    app_outcomes = {}
    results = ("rows", "none")  # what handle_query() returns
    ncols = 1
    rows_fail = True
    long_lived = False

    def start(self, path):
        path.data.update(cmds=[], phase="handshake", armed=self.live_handshake, nfaults=0, calm=not self.live_handshake)

    # -- the conversation

    def next_read(self, path, n):
        d = path.data
        if d["phase"] == "handshake":
            return Sym("atom", f"client data {n}", ty="bytes")
        if d.get("mid_command"):
            # the client answers within an exchange
            return Sym("atom", f"client data {n}", ty="bytes")
        i = d["i"] = d.get("i", -1) + 1
        if i >= len(d["cmds"]):
            d["cmd"] = None
            d["hung_up"] = d.get("hung_up", 0) + 1
            d["calm"], d["armed"] = True, self.arm_idle
            self.command(path, None)
            return None
        d["cmd"] = d["cmds"][i]
        d["calm"] = i < len(d["cmds"]) - self.live
        d["armed"] = not d["calm"]
        self.command(path, d["cmd"])
        return self.packet(path, d["cmd"], i)

    arm_idle = False

    def packet(self, path, cmd, i):
        return cat(bytes([cmd]), Sym("atom", f"payload {i}", ty="bytes"))

    def command(self, path, cmd):
        """The client sends a command (None: it hangs up)"""

    def app_event(self, path, name, args, kwargs):
        if name == "init":
            path.data["phase"] = "commands"
            path.data["calm"], path.data["armed"] = not self.live_handshake, self.live_handshake

    # -- choices that make no difference, or that were made already

    def decide(self, path, sym):
        d = path.data
        if d["phase"] == "handshake":
            if sym.op == "hasflag":
                return self.cap(path, sym)
            if sym.op in ("isnone", "cmp", "oneof", "atom"):
                return True
            if sym.op == "nonempty":
                return True
            return super().decide(path, sym)
        if sym.op == "hasflag":
            return self.cap(path, sym)
        if sym.op == "atom" and str(sym.args[0]).startswith("col"):
            return True
        if sym.op == "isinstance" and self.async_rows is not None and sym.args[0] in d.get("all_rows", ()):
            return self.async_rows
        if d["calm"]:
            r = self.calm_decide(path, sym)
            if r is not None:
                return r
        return super().decide(path, sym)

    def plugin_lookup_fails(self, path):
        return not path.data["calm"]

    def calm_decide(self, path, sym):
        if sym.op == "eq" or sym.op == "cmp" and sym.args[0] == "==":
            return True
        if sym.op in ("in", "nonempty", "atom"):
            return True
        return None

    caps_on = 0  # further capabilities of the client

    async_rows = True

    def cap(self, path, sym):
        on = self.base_caps | path.data.get("caps_on", self.caps_on)
        return bool(sym.args[1] & on)

    def outcomes(self, path, what):
        if path.data["calm"]:
            return ("user",) if what == "get_user" else ("success",)
        return super().outcomes(path, what)

    def parse_call(self, path, name, f, args, kwargs, node):
        r = super().parse_call(path, name, f, args, kwargs, node)
        if isinstance(r, Obj) and r.open:
            # a field that's looked up by the parser
            loc = self.it.bind(f, args, kwargs, node)
            for k, v in loc.items():
                if isinstance(v, (Func, Bound)):
                    got = self.it.call(v, [self.stmt_id(path)], {}, node)
                    if isinstance(got, Obj):
                        for n, x in list(r.attrs.items()):
                            if isinstance(x, Obj) and x.cls is got.cls:
                                r.attrs[n] = got
            for n, x in list(r.attrs.items()):
                if n == "stmt_id":
                    r.attrs[n] = self.stmt_id(path)
                self.field(path, r, n)
        return r

    def field(self, path, o, n):
        """A field of something the client sent"""
        if n == "use_cursor" and "use_cursor" in path.data:
            o.attrs[n] = path.data["use_cursor"]
        if n == "num_rows" and "num_rows" in path.data:
            o.attrs[n] = path.data["num_rows"]

    def stmt_id(self, path):
        return Sym("atom", "stmt_id", ty="int")

    def call(self, path, f, args, kwargs, node):
        if isinstance(f, Func) and f.owner is None and f.qual.startswith("mysql_mimic.") and f.name in self.opaque_functions:
            r = self.opaque_call(path, f, args, kwargs, node)
            if r is not NotImplemented:
                return r
        return super().call(path, f, args, kwargs, node)

    opaque_functions = ("split_params",)

    def opaque_call(self, path, f, args, kwargs, node):
        n = path.data.get("nparams", 0)
        return AList([Sym("atom", f"sql part {i}", ty="str") for i in range(n + 1)])

    # -- the application

    def app_result(self, path, name, o):
        if name == "handle_query" and o == "ok":
            outs = self.results
            o = outs[path.choose(len(outs), "result of handle_query()")] if not path.data["calm"] else outs[0]
            path.emit("app_done", name=name, result=o)
            return self.make_result(path, o)
        return super().app_result(path, name, o)

    def make_result(self, path, o):
        if o == "none":
            return None
        k = path.fresh()
        rc = self.p.need("mysql_mimic.results.ResultColumn")
        ncols = path.data.get("ncols", self.ncols)
        cols = [
            Obj(rc, dict(name=Sym("atom", f"col{i}", ty="str"), type=self.p.need("mysql_mimic.types.ColumnType").enum_members["VARCHAR"],
                         character_set=self.p.need(CHARSET).enum_members["utf8mb4"]), f"column{i}", True)
            for i in range(ncols)
        ]
        rows = Sym("atom", f"rows#{k}")
        path.data["rows"] = rows
        path.data.setdefault("all_rows", []).append(rows)
        if o == "tuple":
            return (rows, AList(cols))
        return Obj(self.p.need("mysql_mimic.results.ResultSet"), dict(rows=rows, columns=AList(cols)), "result")

    def app_call(self, path, name, f, args, kwargs, node):
        if path.data["calm"] or name == "close" and not self.close_fails:
            path.emit("app", name=name, args=args[1:], kwargs=kwargs)
            self.app_event(path, name, args[1:], kwargs)
            self.it.suspend(("app", name), node)
            return self.app_result(path, name, "ok")
        return super().app_call(path, name, f, args, kwargs, node)

    close_fails = False
    live_handshake = False
    read_faults = ()

    def stream_call(self, path, name, f, args, kwargs, node):
        d = path.data
        if args and args[0] is d.get("stream"):
            if d.get("dead") and name in ("read", "write", "drain") and (name != "write" or self.drains(f, args, kwargs, node)):
                d["after_death"] = d.get("after_death", 0) + 1
                path.emit("after_death", name=name)
                if d["after_death"] > 12:
                    self.endless(path)
                raise exc(ConnectionResetError, "reset")
            if name == "read" and d["armed"] and self.read_faults and self.fault_left(path):
                fs = (None,) + tuple(self.read_faults)
                o = fs[path.choose(len(fs), "reading a packet: " + "/".join(map(str, fs)))]
                if o is not None:
                    self.count_fault(path, o)
                    path.emit("read_fault", what=o)
                    d["calm"] = True
                    if o == "reset":
                        d["dead"] = True
                        raise exc(ConnectionResetError, "reset")
                    if o == "eof":
                        d["dead"] = True
                        raise exc(self.closed_exc)
                    raise exc(self.mysql_error, "malformed packet")
            if name == "read" and d.get("hung_up"):
                d["hung_up"] += 1
                if d["hung_up"] > 6:
                    self.endless(path)
        r = super().stream_call(path, name, f, args, kwargs, node)
        return r

    def drains(self, f, args, kwargs, node):
        loc = self.it.bind(f, args, kwargs, node)
        return self.it.truth(loc.get("drain", True))

    def endless(self, path):
        """The server doesn't notice that the client is gone"""
        raise Cut("endless")

    def element(self, path, src, i):
        """A row"""
        rows = path.data.get("all_rows", [])
        if src in rows:
            if self.rows_fail and not path.data["calm"] and self.fault_left(path):
                if path.choose(2, f"row {i} of the result can't be produced"):
                    self.count_fault(path, "rows")
                    path.emit("app_failed", name="rows", how="error")
                    raise exc(Exception, "rows")
            return tuple(Sym("item", Sym("elem", src, i), j) for j in range(path.data.get("ncols", self.ncols)))
        return super().element(path, src, i)

    # -- encoders aren't looked at here

    summarise_encoders = True
    encode_fails = True

    def attr(self, path, o, name):
        if self.summarise_encoders and isinstance(o, Obj) and isinstance(o.cls, UClass) and o.cls.qual == "mysql_mimic.results.ResultColumn":
            if name in ("text_encode", "binary_encode", "text_encoder", "binary_encoder"):
                def enc(it, a, k, n):
                    if self.encode_fails and not path.data["calm"] and self.fault_left(path):
                        if path.choose(2, "value can't be encoded"):
                            self.count_fault(path, "encode")
                            path.emit("app_failed", name="encode", how="error")
                            raise exc(ValueError, "value")
                    return Sym("encoded", name, it.freeze(a[-1]), ty="bytes")
                return Prim(name, enc)
        return super().attr(path, o, name)

    def is_none(self, path, v):
        return None

    # -- faults

    def fault_left(self, path):
        return path.data["nfaults"] < self.max_faults

    def count_fault(self, path, what):
        path.data["nfaults"] += 1
        path.emit("fault", what=what)

    def suspend(self, path, what, node):
        d = path.data
        if not self.faults or not d["armed"] or not self.fault_left(path) or d.get("injecting"):
            return
        opts = [None] + [x for x in self.faults if self.applicable(path, x, what)]
        o = opts[path.choose(len(opts), f"while the connection waits for {label(what)}: {'/'.join(map(str, opts))}")]
        if o is None:
            return
        self.count_fault(path, o)
        self.inject(path, o, what, node)

    def applicable(self, path, x, what):
        if x == "reset":
            return what[0] in ("write", "drain")
        if x == "self kill":
            return what == ("app", "handle_query")
        return True

    def inject(self, path, o, what, node):
        d = path.data
        path.emit("inject", what=o, at=what[0], cmd=d.get("cmd"))
        if o == "reset":
            d["dead"] = True
            raise exc(ConnectionResetError, "reset")
        if o == "cancel":
            raise exc(CancelledError)
        kinds = self.p.need("mysql_mimic.constants.KillKind").enum_members
        kind = kinds["QUERY"] if "query" in o else kinds["CONNECTION"]
        it = self.it
        d["injecting"] = True
        me = d.get("task")
        if not o.startswith("self"):
            d["task"] = Task(None, "killer")
        try:
            it.call(it.getattr(d["conn"], "kill"), [kind], {}, node)
        finally:
            d["task"] = me
            d["injecting"] = False
        self.injected(path, o)

    def injected(self, path, o):
        pass

    def run(self, path, cmds, **kw):
        """Log in, send commands, and hang up"""
        path.data["cmds"] = list(cmds)
        conn = self.make(path, **kw)
        it = self.it
        return it.await_(it.call(it.getattr(conn, "start"), [], {}, None))


def label(what):
    return {"pull": "a row", "app": "session." + str(what[1]) + "()" if len(what) > 1 else "", "write": "the socket", "drain": "the socket"}.get(what[0], what[0])
