"""The environment of the server's connection callback"""
from __future__ import annotations

from ..models import CancelledError
from ..values import *
from .conn import *

SERVER = "mysql_mimic.server.MysqlServer"


class ServEnv(ConnEnv):
    """What happens around one accepted socket.  Connection.start(), the Control and the
    session factory are the environment; each may fail in all the ways it can."""

    cancel = False
    faults = 1

    def __init__(self, program):
        super().__init__(program)
        self.too_many = program.need("mysql_mimic.control.TooManyConnections")

    def callback(self, path):
        """The function that the server registers for new connections"""
        it = self.it
        path.data["capturing"] = True
        control = mk(path, self.p.need(CONTROL), "control")
        idp = mk(path, self.p.need(IDP), "identity_provider")
        factory = Sym("atom", "session_factory")
        path.data.update(control=control, idp=idp, factory=factory)
        srv = it.call(self.p.need(SERVER), [], dict(session_factory=factory, control=control, identity_provider=idp), None)
        it.await_(it.call(it.getattr(srv, "start_server"), [], {}, None))
        path.data["capturing"] = False
        cb = path.data.get("callback")
        if cb is None:
            raise Undecided("no callback is passed to asyncio.start_server")
        return cb

    def accept(self, path):
        it = self.it
        cb = self.callback(path)
        path.data["factory_async"] = path.choose(2, "the session factory is a coroutine function") == 0
        r = Obj(ExtClass.cache.setdefault("asyncio.StreamReader", ExtClass("asyncio.StreamReader")), {}, "reader", True)
        w = Obj(ExtClass.cache.setdefault("asyncio.StreamWriter", ExtClass("asyncio.StreamWriter")), {}, "writer", True)
        path.data.update(reader=r, writer=w)
        path.emit("accept")
        v = it.call(cb, [r, w], {}, None)
        return it.await_(v)

    def call_unknown(self, path, callee, args, kwargs, node):
        d = path.data
        if isinstance(callee, Ext) and callee.path in ("asyncio.start_server", "asyncio.streams.start_server"):
            d["callback"] = args[0] if args else kwargs.get("client_connected_cb")
            return Coro(lambda: Obj(ExtClass("asyncio.Server"), {}, "server", True), None)
        if callee is d.get("factory"):
            def make():
                path.emit("factory")
                self.outcome(path, "session_factory()", ("ok", "error"))
                s = mk(path, self.app_cls, "session", variables=mk(path, self.p.need(VARS), "variables"), username=None, database=None)
                d["session"] = s
                d["variables"] = s.attrs["variables"]
                return s
            if d.get("factory_async"):
                return Coro(make, None)
            return make()
        if isinstance(callee, Sym) and callee.op == "attr" and callee.args[0] is d.get("writer"):
            n = callee.args[1]
            path.emit("writer", name=n)
            if n in ("drain", "wait_closed"):
                def run():
                    self.it.suspend(("writer", n), node)
                    self.outcome(path, f"writer.{n}()", ("ok", "reset", "cancel"))
                return Coro(run, None)
            if n in ("is_closing",):
                return Sym("atom", "is_closing", ty="bool")
            return None
        return super().call_unknown(path, callee, args, kwargs, node)

    def decide(self, path, sym):
        if sym.op in ("iscoroutinefunction", "iscoroutine"):
            return bool(path.data.get("factory_async"))
        return super().decide(path, sym)

    def attr(self, path, o, name):
        return NotImplemented

    def outcome(self, path, what, outs):
        d = path.data
        if d.get("faults", 0) >= self.faults:
            outs = outs[:1]
        o = outs[path.choose(len(outs), what)]
        if o != outs[0]:
            d["faults"] = d.get("faults", 0) + 1
        if o == "error":
            path.emit("failed", what=what)
            raise exc(Exception, "boom")
        if o == "reset":
            path.emit("failed", what=what)
            raise exc(ConnectionResetError, "reset")
        if o == "cancel":
            path.emit("cancelled", what=what)
            raise exc(CancelledError)
        return o

    def stream_call(self, path, name, f, args, kwargs, node):
        if f.name == "__init__":
            return NotImplemented
        path.data["stream"] = args[0]
        if name in ("write", "drain"):
            r = super().stream_call(path, name, f, args, kwargs, node)
            self.outcome(path, f"stream.{name}()", ("ok", "reset", "cancel"))
            return r
        return super().stream_call(path, name, f, args, kwargs, node)

    def call(self, path, f, args, kwargs, node):
        if isinstance(f, UClass):
            return NotImplemented
        if isinstance(f, Func) and f.owner is not None:
            if args and args[0] is path.data.get("control") and f.name in ("add", "remove", "kill"):
                return self.control_call(path, f.name, args, kwargs, node)
            if method_of(self.p, f, CONN, "start"):
                c = args[0]
                path.data["conn"] = c
                path.emit("start", conn=c, id=c.attrs.get("connection_id"))
                self.outcome(path, "Connection.start()", ("ok", "error", "cancel"))
                path.emit("ended", conn=c)
                return None
        return super().call(path, f, args, kwargs, node)

    def control_call(self, path, name, args, kwargs, node):
        if name == "add":
            c = args[1] if len(args) > 1 else kwargs.get("connection")
            o = self.outcome(path, "control.add()", ("ok", "full", "error", "cancel"))
            if o == "full":
                path.emit("full", conn=c)
                path.data["full"] = True
                raise exc(self.too_many)
            i = path.data["id"] = Sym("atom", "id", ty="int")
            path.emit("added", conn=c, id=i)
            return i
        if name == "remove":
            i = args[1] if len(args) > 1 else kwargs.get("connection_id")
            path.emit("removed", id=i)
            self.outcome(path, "control.remove()", ("ok", "error", "cancel"))
            return None
        return NotImplemented


def trace_of(path, *kinds):
    return [(k, i) for k, i in path.trace if k in kinds]
