"""C10: every initialised session is closed exactly once; every connection is released"""
from __future__ import annotations

from .serv import ServEnv
from .talk import *


def check(rep):
    p = Program()
    rep.rule("close.once", "session.close() is called exactly once on every exit after session.init() returned, and never without that")
    rep.rule("close.last", "no callback of the session comes after close(), and close() isn't called while another callback is pending")
    rep.rule("end", "the connection ends when the client has gone: no endless loop, no second read after the end of the stream")
    rep.rule("task", "no task that was started for the connection outlives it")
    rep.rule("release.registry", "the connection is removed from the registry on every exit")
    rep.rule("release.socket", "the socket is closed on every exit, after everything that may fail")
    rep.section(server, rep, p)
    rep.section(handshake, rep, p)
    rep.section(commands, rep, p)


class Life(Talk):
    faults = ("reset", "kill query", "kill connection", "cancel")
    read_faults = ("eof", "reset", "malformed")
    app_outcomes = {
        "init": ("ok", "error", "mysql_error"),
        "handle_query": ("ok", "error", "mysql_error"),
        "close": ("ok", "error"),
        "reset": ("ok", "error"),
        "use": ("ok", "error"),
    }
    arm_idle = True
    close_fails = True
    kmax = 1

    def __init__(self, program, rep):
        super().__init__(program)
        self.rep = rep

    def app_event(self, path, name, args, kwargs):
        super().app_event(path, name, args, kwargs)
        d = path.data
        calls = d.setdefault("calls", [])
        if "close" in calls:
            self.rep.ob("close.last", "session." + name, name == "close" or False, f"session.{name}() is called after session.close()", path=path)
        calls.append(name)

    def endless(self, path):
        self.rep.ob("end", "Connection.start", False, "the connection goes on although the client is gone", path=path)
        super().endless(path)

    def fault_left(self, path):
        if path.data.get("calls", [])[-1:] == ["close"]:
            return False
        return super().fault_left(path)

    def close_fault(self, path):
        return False


def done(rep, res):
    path = res.path
    tr = path.trace
    S = "Connection.start"
    if res.status not in ("ok", "raise"):
        if res.status != "cut":
            rep.ob("close.once", S, None, res.reason)
        return
    inits = [i for i, (k, x) in enumerate(tr) if k == "app" and x["name"] == "init"]
    ok = [i for i, (k, x) in enumerate(tr) if k == "app_done" and x["name"] == "init"]
    failed = [i for i, (k, x) in enumerate(tr) if k == "app_failed" and x["name"] == "init"]
    closes = [i for i, (k, x) in enumerate(tr) if k == "app" and x["name"] == "close"]
    n = len(closes)
    if ok:
        rep.ob("close.once", S + ": closed once", n == 1, f"the session was initialised, and is closed {n} times", path=path)
    elif failed or not inits:
        rep.ob("close.once", S + ": not initialised", n == 0, f"the session wasn't initialised{', as init() failed' if failed else ''}, but is closed", path=path)
    if len(inits) > 1:
        rep.ob("close.once", S + ": initialised once", False, "the session is initialised twice", path=path)
    for t in path.tasks:
        if not t.done and t.coro is not None:
            rep.ob("task", S, False, f"a task is started that's never waited for or ended", path=path)
        else:
            rep.ob("task", S, True)
    rep.ob("end", S, True)


def handshake(rep, p):
    env = Life(p, rep)
    env.live_handshake = True
    env.rounds = 1
    env.max_faults = 2 if rep.thorough else 1
    rep.explore(p, env, lambda path: env.run(path, []), "Connection.start: handshake", max_paths=20000, budget_s=200, each=lambda r: done(rep, r))


def commands(rep, p):
    scenarios = [[QUERY], [PREPARE], [PREPARE, EXECUTE], [PREPARE, EXECUTE, FETCH], [FIELD_LIST], [INIT_DB], [PREPARE, LONG_DATA], [PREPARE, RESET_STMT], [CLOSE], [PING], [RESET_CONN], [QUIT], [0x55], [CHANGE_USER]]
    env = Life(p, rep)
    env.rounds = 1
    env.max_faults = 2 if rep.thorough else 1
    for s in scenarios:
        for cursor in ((True, False) if EXECUTE in s else (False,)):

            def run(path):
                path.data["use_cursor"] = cursor
                return env.run(path, s)

            rep.explore(p, env, run, "Connection.start: " + ", ".join(map(cmd_name, s)) + (" (cursor)" if cursor else ""), max_paths=20000, budget_s=40, each=lambda r: done(rep, r))


def server(rep, p):
    env = ServEnv(p)
    env.faults = 2 if rep.thorough else 1
    CB = "the server's connection callback"

    def each(res):
        path = res.path
        tr = path.trace
        if res.status not in ("ok", "raise"):
            rep.ob("release.socket", CB, None, res.reason)
            return
        closes = [i for i, (k, x) in enumerate(tr) if k == "writer" and x["name"] in ("close", "abort") or k == "closed_stream"]
        rep.ob("release.socket", CB, bool(closes), "the socket isn't closed", path=path)
        over = [i for i, (k, x) in enumerate(tr) if k in ("ended",) or k in ("failed", "cancelled") and x["what"] == "Connection.start()"]
        started = [i for i, (k, _) in enumerate(tr) if k == "start"]
        if closes and started and over:
            rep.ob("release.socket", CB + ": after the end", closes[0] > over[0], "the socket is closed while the connection is served", path=path)
        if any(k == "added" for k, _ in tr):
            rm = [i for i, (k, x) in enumerate(tr) if k == "removed" and x["id"] is path.data["id"]]
            rep.ob("release.registry", CB, bool(rm), "the connection isn't removed from the registry", path=path)
        opened = [x["name"] for k, x in tr if k == "app" and x["name"] == "init"]
        shut = [i for i, (k, x) in enumerate(tr) if k == "app" and x["name"] == "close"]
        if not opened and "close.once" in rep.rules:
            for i in shut:
                rep.ob("close.once", CB, False, "the session is closed by the server too" if started and i > started[0] else "the session is closed, but was never initialised", path=path)
            if not shut:
                rep.ob("close.once", CB, True)
        for t in path.tasks:
            if not t.done:
                rep.ob("task", CB, False, "a task is started that's never waited for or ended", path=path)

    rep.explore(p, env, lambda path: env.accept(path), CB, each=each)
