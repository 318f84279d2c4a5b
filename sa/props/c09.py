"""C09: KILL QUERY spares the connection; KILL CONNECTION ends exactly the target"""
from __future__ import annotations

from .c03 import *
from . import c18, killed


def check(rep):
    p = Program()
    rep.rule("kill.lockstep", "wherever KILL QUERY arrives, every command gets one complete response, and nothing is sent unasked")
    rep.rule("kill.aborts", "a statement that's killed while the application works on it, or while its rows are produced, ends with ERR")
    rep.rule("kill.spares", "a KILL QUERY that arrives while no statement is executed changes nothing, and it never hits a later command")
    rep.rule("kill.usable", "after KILL QUERY, the connection serves the next command")
    rep.rule("kill.ends", "after KILL CONNECTION, the target serves no further command")
    rep.rule("kill.closes", "after KILL CONNECTION, the session is closed exactly once (if it was initialised)")
    rep.rule("kill.one_reply", "a statement that kills its own connection gets exactly one response")
    rep.rule("kill.target", "a kill reaches exactly the connection that's registered under the id")
    rep.assumptions.append("sqlglot parses texts as recorded in sa/data/*.json; a kill is delivered where the target awaits something")
    rep.parallel([(kills, rep, p), (early, rep, p), (targets, rep, p)] + killed.jobs(rep))


class Killed(Lockstep):
    faults = ("kill query", "kill connection", "self kill query", "self kill connection")
    max_faults = 1
    app_outcomes = {"handle_query": ("ok", "error"), "reset": ("ok",), "use": ("ok",), "init": ("ok",), "close": ("ok",)}
    results = ("rows", "none")
    arm_idle = True
    lazy_write = False
    rows_fail = False
    encode_fails = False
    ncols = 1
    kmax = 1
    rounds = 1
    decisions = ("success", "forbidden")
    user_outcomes = ("user",)

    def parse_call(self, path, name, f, args, kwargs, node):
        calm = path.data["calm"]
        path.data["calm"] = True
        try:
            return super().parse_call(path, name, f, args, kwargs, node)
        finally:
            path.data["calm"] = calm

    def plugin_lookup_fails(self, path):
        return False

    def applicable(self, path, x, what):
        if x.startswith("self"):
            return what == ("app", "handle_query")
        return True

    def app_call(self, path, name, f, args, kwargs, node):
        d = path.data
        try:
            return super().app_call(path, name, f, args, kwargs, node)
        except Raise as r:
            if name == "handle_query" and isinstance(r.value, Obj) and r.value.cls is CancelledError and path.choose(2, "the application swallows the cancellation"):
                path.emit("swallowed")
                d["swallowed"] = True
                path.emit("app_done", name=name, result="rows")
                return self.make_result(path, "rows")
            raise

    def inject(self, path, o, what, node):
        d = path.data
        r = d.get("reply")
        d.setdefault("kills", []).append(dict(what=o, at=what, cmd=d.get("cmd") if d.get("reading") is not True else None, reply=r if not d.get("reading") else None, n=r.n if r else 0,
                                              where=path.where(), complete=bool(r and r.complete), i=d.get("i"), mark=len(path.trace)))
        super().inject(path, o, what, node)

    def stream_call(self, path, name, f, args, kwargs, node):
        d = path.data
        if name == "read" and args and args[0] is d.get("stream"):
            d["reading"] = True
            if d.get("ended_by_kill"):
                pass
            # the previous command is over, whatever it was
            try:
                return super().stream_call(path, name, f, args, kwargs, node)
            finally:
                d["reading"] = False
        return super().stream_call(path, name, f, args, kwargs, node)

    def command(self, path, cmd):
        d = path.data
        ks = d.get("kills", [])
        conn = [k for k in ks if k["what"].endswith("connection")]
        if conn and cmd is not None:
            self.rep.ob("kill.ends", "Connection.kill", False, f"{cmd_name(cmd)} is read although the connection was killed", path=path)
        r = d.get("reply")
        if r is not None and not r.lost:
            name = cmd_name(r.cmd)
            for k in ks:
                if k["what"] == "kill query" and k["reply"] is r and k["at"][0] in ("app", "pull") and k["at"] != ("app", "reset") and not d.get("swallowed") and r.cmd in (QUERY, EXECUTE, FETCH, FIELD_LIST):
                    self.rep.ob("kill.aborts", f"{name} ({label(k['at'])})", r.err, f"{name} isn't aborted by a KILL QUERY that arrives while it waits for {label(k['at'])}", path=path)
            mine = [k for k in ks if k["reply"] is r and r is not None]
            if ks and not mine and r.cmd == PING:
                self.rep.ob("kill.spares", "the next command", not r.err, f"{name} fails because of an earlier KILL QUERY ({cmd_name(ks[0]['cmd']) if ks[0]['cmd'] else 'idle'}, {label(ks[0]['at'])})", path=path)
                self.rep.ob("kill.usable", "Connection", True)
        super().command(path, cmd)

    def expected(self, path, r, name):
        d = path.data
        if any(k["reply"] is r for k in d.get("kills", [])):
            return
        super().expected(path, r, name)

    def wrote(self, path, data, drain, node):
        d = path.data
        if d.get("kills") and d["phase"] == "commands" and d.get("reading"):
            self.rep.ob("kill.lockstep", "idle", False, f"{show(data)[:60]} is sent while the client waits for nothing", path=path)
        if d["phase"] == "commands" and d.get("idle_kill"):
            self.rep.ob("kill.lockstep", "idle", False, f"{show(data)[:60]} is sent unasked after a kill", path=path)
        super().wrote(path, data, drain, node)

    def injected(self, path, o):
        d = path.data
        if d.get("reading") and o == "kill connection" and d["phase"] == "commands":
            d["idle_kill"] = True

    def inject_at_read(self):
        pass


def final(env, rep, res):
    path, d = res.path, res.path.data
    ks = d.get("kills", [])
    if res.status not in ("ok", "raise"):
        if res.status == "undecided":
            rep.ob("kill.lockstep", "Connection.start", None, res.reason)
        return
    closes = sum(1 for k, x in path.trace if k == "app" and x["name"] == "close")
    inits = sum(1 for k, x in path.trace if k == "app_done" and x["name"] == "init")
    conn = [k for k in ks if k["what"].endswith("connection")]
    if conn:
        rep.ob("kill.ends", "Connection.kill", True)
        if inits:
            rep.ob("kill.closes", "session.close", closes == 1, f"the session is closed {closes} times", path=path)
        r = conn[0]["reply"]
        if conn[0]["what"].startswith("self") and r is not None and not r.lost:
            rep.ob("kill.one_reply", "KILL CONNECTION on itself", r.complete, f"the KILL statement isn't answered: {r.missing()}", path=path)
        elif r is not None and not r.lost and r.state == "done" and r.n > conn[0]["n"] and conn[0]["complete"]:
            rep.ob("kill.lockstep", "KILL CONNECTION", False, "a packet is sent although the response was complete", path=path)
        return
    if ks:
        # only KILL QUERY: the connection has to live until the client hangs up
        r = d.get("reply")
        ok = d.get("hung_up") or r is not None and (r.cmd == QUIT or r.cmd == CHANGE_USER and r.err)
        what = f"{cmd_name(ks[0]['cmd']) if ks[0]['cmd'] else 'idle'}, {label(ks[0]['at'])}"
        rep.ob("kill.usable", "Connection", bool(ok), f"KILL QUERY ({what}) ends the connection{': ' + repr(res.exc.value) if res.exc else ''}", where=res.exc.where if res.exc else None, path=path)


class Relabel:
    """Findings of the lockstep rules belong to kill.lockstep here"""

    def __init__(self, rep):
        self.rep = rep

    def ob(self, rule, site, ok, *a, **k):
        if rule.startswith("reply."):
            if rule == "reply.seq":
                return None
            rule = "kill.lockstep"
        return self.rep.ob(rule, site, ok, *a, **k)

    @property
    def obligations(self):
        return {(("reply.form" if r == "kill.lockstep" else r), s): v for (r, s), v in self.rep.obligations.items()}


KILL_SCENARIOS = [[QUERY], [PREPARE], [PREPARE, EXECUTE], [PREPARE, EXECUTE, FETCH], [FIELD_LIST], [INIT_DB], [PREPARE, LONG_DATA], [PREPARE, RESET_STMT], [PREPARE, CLOSE], [PING], [RESET_CONN], [0x55], [CHANGE_USER]]


def kills(rep, p):
    rl = Relabel(rep)
    for nf in (1, 2):
        env = Killed(p, rl)
        env.max_faults = nf
        if nf == 2:
            env.faults = ("kill query", "kill connection")
        for s in KILL_SCENARIOS:
            if nf == 2 and not rep.thorough and s not in ([QUERY], [PREPARE, EXECUTE], [CHANGE_USER], [INIT_DB]):
                continue
            for cursor in ((True, False) if EXECUTE in s else (False,)):
                if FETCH in s and not cursor:
                    continue
                env.live = 2

                def run(path):
                    d = path.data
                    d.update(caps_on=0, use_cursor=cursor, num_rows=2, ncols=6 if FIELD_LIST in s else 1)
                    return env.run(path, s + [PING])

                rep.explore(p, env, run, f"{nf} kill(s) during " + ", ".join(map(cmd_name, s)) + (" with a cursor" if cursor else ""), max_paths=8000, budget_s=60, each=lambda r: final(env, rl, r))


def early(rep, p):
    """Kills before the first command"""
    rl = Relabel(rep)
    env = Killed(p, rl)
    env.faults = ("kill query", "kill connection")
    env.live_handshake = True
    env.live = 1

    def run(path):
        path.data.update(caps_on=0, use_cursor=False)
        return env.run(path, [PING])

    def each(res):
        path, d = res.path, res.path.data
        ks = d.get("kills", [])
        if res.status not in ("ok", "raise") or not ks:
            return
        inits = sum(1 for k, x in path.trace if k == "app_done" and x["name"] == "init")
        closes = sum(1 for k, x in path.trace if k == "app" and x["name"] == "close")
        if ks[0]["what"] == "kill connection":
            rep.ob("kill.closes", "session.close", closes == inits or not inits and closes == 0, f"the session is closed {closes} times", path=path)
        elif inits:
            final(env, rl, res)

    rep.explore(p, env, run, "a kill during the handshake", max_paths=3000, each=each)


def targets(rep, p):
    """LocalControl.kill"""

    class R:
        def rule(self, *a):
            pass

        def ob(self, rule, site, *a, **k):
            if "kill" in site:
                return rep.ob("kill.target", site, *a, **k)
            return None

        def explore(self, *a, **k):
            return rep.explore(*a, **k)

    c18.registry(R(), p)
