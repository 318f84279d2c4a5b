"""C03: every command gets exactly one complete, well-formed response"""
from __future__ import annotations

from .reply import *
from .talk import *

UNSUPPORTED_FLAGS = 1 << 7 | 1 << 30


class Lockstep(Talk):
    kmax = 2
    app_outcomes = {
        "handle_query": ("ok", "error", "mysql_error", "empty_error"),
        "reset": ("ok", "error"),
        "use": ("ok", "error", "mysql_error"),
        "init": ("ok",),
        "close": ("ok",),
    }
    rounds = 2
    results = ("rows", "none", "no columns")
    ncols = 2

    def __init__(self, program, rep):
        super().__init__(program)
        self.rep = rep

    def make_result(self, path, o):
        if o == "no columns":
            return Obj(self.p.need("mysql_mimic.results.ResultSet"), dict(rows=AList([]), columns=AList([])), "empty result")
        return super().make_result(path, o)

    def app_result(self, path, name, o):
        if o == "empty_error":
            path.emit("app_failed", name=name, how=o)
            raise Raise(self.it.call(self.mysql_error, [""], {}, None))
        return super().app_result(path, name, o)

    # ---- monitoring

    def command(self, path, cmd):
        d = path.data
        self.finish(path)
        d["reply"] = None
        if cmd is None:
            return
        name = cmd_name(cmd)
        d["reply"] = Reply(cmd, bool(d.get("caps_on", 0) & DEPRECATE_EOF), lambda ok, msg: self.rep.ob("reply.form", name, ok, msg, path=path))
        if not d.get("fresh_seq", True):
            self.rep.ob("reply.seq", name, False, f"the sequence number isn't reset before {name} is read", path=path)
        else:
            self.rep.ob("reply.seq", name, True)
        d["fresh_seq"] = False

    def finish(self, path):
        d = path.data
        r = d.get("reply")
        if r is None or d.get("malformed"):
            return
        name = cmd_name(r.cmd)
        if r.lost:
            if not self.rep.obligations.get(("reply.form", name), [0, 0, 0])[1]:
                self.rep.ob("reply.form", name, None, r.lost, path=path)
            return
        self.rep.ob("reply.form", name, True)
        self.rep.ob("reply.complete", name, r.complete, f"{name}: {r.missing()} when the server waits for the next command", path=path)
        self.rep.ob("reply.sent", name, not d.get("buffered"), f"{name}: the response is still in the buffer when the server waits for the next command", path=path)
        self.expected(path, r, name)

    def expected(self, path, r, name):
        """Does the response fit the outcome?"""
        d = path.data
        ev = [x for k, x in path.trace[d.get("mark", 0):]]
        tr = path.trace[d.get("mark", 0):]
        failed = [x for k, x in tr if k == "app_failed" or k == "auth_failed"]
        if r.cmd in NO_REPLY or r.cmd == QUIT:
            return
        if failed:
            self.rep.ob("reply.error", name, r.err, f"{name}: the client isn't told that {failed[0].get('name') or failed[0].get('how')} failed", path=path)
            return
        if r.cmd not in NAMES:
            self.rep.ob("reply.error", name, r.err, "an unsupported command isn't answered with ERR", path=path)
            return
        if r.cmd in (QUERY, EXECUTE) and not r.err:
            done = [x for k, x in tr if k == "app_done" and x["name"] == "handle_query"]
            if done:
                want = done[-1].get("result") == "rows"
                self.rep.ob("reply.kind", name, (r.ncols == d.get("ncols", self.ncols) if want else True) if bool(r.cols) == want else False,
                            f"{name}: {'a result set with ' + str(r.cols) + ' columns' if r.cols else 'OK'} in response to a result {'with' if want else 'without'} columns", path=path)
                if want:
                    n = [x for k, x in tr if k == "row"]
                    if d.get("exhausted") and not (r.cmd == EXECUTE and d.get("use_cursor")):
                        self.rep.ob("reply.rows", name, r.rows == len(n), f"{name}: {r.rows} rows are sent, but the result has {len(n)}", path=path)
        if not r.err and r.final and r.final.get("status") is not None and r.cmd in (QUERY, PING):
            pass

    def next_read(self, path, n):
        d = path.data
        if d["phase"] != "handshake" and not d.get("mid"):
            pass
        if d.get("auth_read"):
            return Sym("atom", f"client data {n}", ty="bytes")
        v = super().next_read(path, n)
        d["mark"] = len(path.trace)
        d["exhausted"] = False
        d["malformed"] = False
        return v

    def stream_call(self, path, name, f, args, kwargs, node):
        d = path.data
        if args and args[0] is d.get("stream"):
            if name == "read":
                # within COM_CHANGE_USER, the client answers the challenges of the plugin
                r = d.get("reply")
                d["auth_read"] = r is not None and r.cmd == CHANGE_USER and r.state == "start" and r.n > 0
            elif name == "reset_seq":
                d["fresh_seq"] = True
        return super().stream_call(path, name, f, args, kwargs, node)

    def iteration(self, path, src, i, node):
        if src in path.data.get("all_rows", ()):
            path.emit("row")

    def exhausted(self, path, src, i, node):
        if src in path.data.get("all_rows", ()):
            path.data["exhausted"] = True

    def wrote(self, path, data, drain, node):
        d = path.data
        d["buffered"] = not drain
        d["fresh_seq"] = False
        r = d.get("reply")
        if d["phase"] == "commands" and d.get("cmd") is not None and r is not None:
            if not d.get("malformed"):
                r.got(data)
        elif d["phase"] == "commands" and "cmds" in d and d.get("i") is None:
            self.rep.ob("reply.form", "before the first command", False, f"{show(data)[:80]} is sent without a command", path=path)

    def event(self, path, kind, info):
        if kind in ("drain", "flush"):
            path.data["buffered"] = False
        super().event(path, kind, info)

    def parse_failed(self, path, name):
        # only well-formed commands are looked at
        path.data["malformed"] = path.data["phase"] == "commands"


SCENARIOS = [
    [QUERY], [PREPARE], [PREPARE, EXECUTE], [PREPARE, EXECUTE, FETCH], [PREPARE, EXECUTE, FETCH, FETCH], [FIELD_LIST], [INIT_DB], [PREPARE, LONG_DATA],
    [PREPARE, RESET_STMT], [PREPARE, CLOSE], [PING], [RESET_CONN], [DEBUG], [QUIT], [0x55], [CHANGE_USER],
]


def check(rep):
    p = Program()
    rep.rule("reply.form", "every packet is what a strict decoder of the protocol expects at that point, under the negotiated capabilities")
    rep.rule("reply.complete", "the response is complete when the server reads the next command")
    rep.rule("reply.sent", "nothing of the response is left in a buffer when the server reads the next command")
    rep.rule("reply.seq", "the sequence number is reset between a response and the next command")
    rep.rule("reply.error", "a failure is answered with ERR, success isn't")
    rep.rule("reply.kind", "OK for a result without columns, a result set with that many columns otherwise")
    rep.rule("reply.rows", "as many rows are sent as the result has")
    rep.section(commands, rep, p)
    rep.section(long, rep, p)


def commands(rep, p):
    env = Lockstep(p, rep)
    tails = [[PING]]
    for caps in (0, DEPRECATE_EOF):
        for s in SCENARIOS:
            for cursor in ((True, False) if EXECUTE in s else (False,)):
                if FETCH in s and not cursor:
                    continue
                for nparams in (0, 2) if PREPARE in s and len(s) == 1 else (0,):
                    for fetch in (1, 3) if FETCH in s else (0,):
                        env.live = 2 if s[-1] != PING else 1

                        def run(path):
                            d = path.data
                            d["caps_on"] = caps
                            d["use_cursor"] = cursor
                            d["nparams"] = nparams
                            d["num_rows"] = fetch
                            d["ncols"] = 6 if FIELD_LIST in s else 2
                            return env.run(path, s + [PING])

                        name = "Connection.start: " + ", ".join(map(cmd_name, s)) + (" with a cursor" if cursor else "") + (", DEPRECATE_EOF" if caps else "")
                        rep.explore(p, env, run, name, max_paths=6000, budget_s=60, each=lambda r: each(env, rep, r))


def each(env, rep, res):
    path = res.path
    d = path.data
    if res.status == "ok" or res.status == "raise":
        r = d.get("reply")
        if r is None:
            return
        if res.status == "raise" and not d.get("malformed"):
            rep.ob("reply.complete", cmd_name(r.cmd), False, f"{cmd_name(r.cmd)}: the connection breaks off with {res.exc.value!r}", where=res.exc.where, path=path)
            return
        # the server closed the connection
        if r.cmd == QUIT or d.get("malformed"):
            return
        if r.cmd == CHANGE_USER and r.err:
            rep.ob("reply.complete", cmd_name(r.cmd), True)
            return
        rep.ob("reply.complete", cmd_name(r.cmd), False if not r.lost else None, f"{cmd_name(r.cmd)}: the connection is closed", path=path)
    elif res.status in ("undecided",):
        rep.ob("reply.complete", cmd_name(d.get("cmd") or 0), None, res.reason)


class ManyRows(Lockstep):
    """A long result"""

    kmax = 12_000
    max_loop = 10**9
    max_steps = 10**9
    ncols = 1
    rows_fail = False
    encode_fails = False
    max_faults = 0
    results = ("rows",)

    def decide(self, path, sym):
        rows = path.data.get("all_rows", ())
        if path.data["phase"] == "commands" and sym.op == "cmp" and any(t.op == "len" for t in terms(sym)) and any(t in rows for t in terms(sym)):
            return True  # there are more rows
        return super().decide(path, sym)

    def call(self, path, f, args, kwargs, node):
        if isinstance(f, Func) and f.owner is None and path.data["phase"] == "commands":
            # rows of one NULL
            if f.name == "make_binary_resultrow":
                return b"\0\4"
            if f.name == "make_text_resultset_row":
                return b"\xfb"
        return super().call(path, f, args, kwargs, node)


def long(rep, p):
    env = ManyRows(p, rep)
    env.live = 0
    for s in ([QUERY], [PREPARE, EXECUTE], [PREPARE, EXECUTE, FETCH]):
        for caps in (0, DEPRECATE_EOF) if rep.thorough else (0,):
            def run(path):
                path.data.update(caps_on=caps, use_cursor=FETCH in s, nparams=0, num_rows=2**31, ncols=1)
                path.data["calm"] = True
                return env.run(path, s + [PING])

            rep.explore(p, env, run, "a long result: " + ", ".join(map(cmd_name, s)), max_paths=4, budget_s=90, each=lambda r: each(env, rep, r))
