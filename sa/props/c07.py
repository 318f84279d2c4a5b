"""C07: malformed or hostile packets can't hang, crash or wedge the server"""
from __future__ import annotations

import ast

from ..engine import Cut
from . import c10
from .blocking import blocking_calls, regexes
from .c03 import Lockstep
from . import c04
from .reply import *
from .serv import ServEnv
from .talk import *

BIG = 1 << 17


class Hostile(Lockstep):
    """The last packet the client sends is arbitrary: every read of the parser may hit its end"""

    kmax = 2
    max_loop = 5
    order = "few"
    results = ("rows", "none")
    app_outcomes = {"init": ("ok",), "close": ("ok",)}
    user_outcomes = ("user", "none")
    decisions = ("success", "forbidden", "bytes")
    rounds = 2
    summarise_parse = True
    decode_fails = True

    def start(self, path):
        super().start(path)
        path.data.update(eof={}, loops={}, decoded=0)

    # -- which packets are looked into

    def raw(self, path):
        d = path.data
        return d["armed"] and not d.get("injecting")

    def parse_call(self, path, name, f, args, kwargs, node):
        if self.raw(path):
            return NotImplemented
        return super().parse_call(path, name, f, args, kwargs, node)

    def packet(self, path, cmd, i):
        path.data.update(eof={}, loops={})
        if path.data["armed"]:
            if path.data.get("empty"):
                return b""
            return cat(bytes([cmd]), Sym("atom", f"payload {i}", ty="bytes"))
        return super().packet(path, cmd, i)

    # -- the end of the packet

    def short_read(self, path, reader, data, pos, count, value, node):
        if not self.raw(path):
            return None
        if any(isinstance(x, Sym) and x.op in ("m", "find") for x in leaves(count)):
            return None  # a number of bytes that are there
        seen = path.data.setdefault("full", set())
        if value in seen:
            return False
        if path.data["eof"].get(data) == pos:
            return True
        k = isinstance(count, int) and path.known_cmp("==", Sym("len", value, ty="int"), count)
        if k:
            return False
        if path.choose(2, f"the packet ends before the {show(count)} bytes at {show(pos)[:60]}"):
            path.data["eof"][data] = pos
            if isinstance(count, Sym):
                path.set_interval(count, 1, 1 << 70)
            path.emit("eof")
            return True
        seen.add(value)
        if isinstance(count, int):
            path.eqs[Sym("len", value, ty="int")] = count
        else:
            path.assume(Sym("cmp", "==", Sym("len", value, ty="int"), count, ty="bool"), True)
            for x in terms(count):
                path.data.setdefault("covered", set()).add(x)
        return False

    def pure(self, path, o, name, args, kwargs, node):
        if name == "find" and o in path.data.get("eof", {}) and len(args) > 1 and isinstance(args[1], Sym) and args[1].op == "end":
            return -1
        return super().pure(path, o, name, args, kwargs, node)

    def ended(self, path):
        return bool(path.data.get("eof"))

    # -- loops

    def client_bound(self, path, n):
        """Is it a number that the client chose, however small the packet is?"""
        if isinstance(n, Sym) and path.interval(n)[1] > BIG:
            if any(x in path.data.get("covered", ()) for x in terms(n)):
                return False
            if any(x.op == "len" for x in terms(n)):
                return False
            return any(x.op in ("rd", "unle") for x in terms(n))
        return False

    def loop(self, path, frame, node, n):
        if not self.raw(path):
            return
        key = (id(frame), id(node))
        st = path.data["loops"]
        if n == 0:
            st[key] = dict(after=0, last=None)
        s = st.setdefault(key, dict(after=0, last=None))
        site = frame.func.qual if frame.func is not None else "?"
        if self.ended(path):
            s["after"] += 1
        if isinstance(node, ast.While):
            snap = self.snapshot(path, frame)
            if snap is not None and snap == s["last"]:
                self.rep.ob("bounded.loop", site, False, "an iteration of the loop changes nothing, so it never ends", where=loc(frame), path=path)
                raise Cut("endless loop")
            s["last"] = snap
            if s["after"] > 3:
                self.rep.ob("bounded.loop", site, False, "the loop goes on after the end of the packet", where=loc(frame), path=path)
                raise Cut("endless loop")
        elif self.ended(path) and s["after"] >= 2 and "bound" in s:
            self.rep.ob("bounded.loop", site, False, f"the loop goes on after the end of the packet, as often as the client wants ({show(s['bound'])[:80]} times)", where=loc(frame), path=path)
            raise Cut("endless loop")

    def loop_limit(self, path, frame, node):
        return 40 if isinstance(node, ast.AsyncFor) else super().loop_limit(path, frame, node)

    def next_read(self, path, n):
        path.data.update(eof={}, loops={})
        return super().next_read(path, n)

    def iteration(self, path, src, i, node):
        super().iteration(path, src, i, node)
        if src in path.data.get("all_rows", ()):
            path.data["rows_taken"] = path.data.get("rows_taken", 0) + 1
        if not self.raw(path):
            return
        if isinstance(src, RangeV) and path.stack:
            fr = path.stack[-1]
            n = src.stop
            site = fr.func.qual if fr.func is not None else "?"
            bound = self.client_bound(path, n)
            k = ("range", id(fr), id(node))
            s = path.data["loops"].setdefault(k, dict(pos=None, seen=False))
            now = self.consumed(path)
            if not bound:
                self.rep.ob("bounded.loop", site, True)
                return
            if i and now == s["pos"]:
                self.rep.ob("bounded.loop", site, False, f"{show(n)[:80]} iterations, a number the client chose, that don't consume any of the packet", where=loc(fr), path=path)
                raise Cut("endless loop")
            if i:
                self.rep.ob("bounded.loop", site, True)
            s["pos"] = now

    def consumed(self, path):
        return len(path.data.get("full", ())) + path.data.get("rows_taken", 0)

    def snapshot(self, path, frame):
        """What the next iteration of a loop depends on"""
        out = [len(path.trace), len(path.decisions)]
        for k, v in sorted(frame.locals.items(), key=lambda x: str(x[0])):
            c = self.freeze_state(v, 0)
            if c is None:
                return None
            out.append((k, c))
        return out

    def freeze_state(self, v, depth):
        if isinstance(v, (int, str, bytes, float, type(None), Sym, EnumV, UClass, Func)):
            return ("v", v)
        if isinstance(v, Task):
            return ("k", id(v), v.done, v.cancel_pending)
        if isinstance(v, (Bound, Ext, ExtClass, Mod, Prim)):
            return ("v", repr(type(v)), v)
        if isinstance(v, tuple):
            xs = [self.freeze_state(x, depth + 1) for x in v]
            return None if None in xs else ("t", tuple(xs))
        if isinstance(v, AList):
            return ("l", id(v), tuple(map(id, v.items)))
        if isinstance(v, ABuf):
            return ("b", id(v), tuple(v.parts))
        if isinstance(v, ADict):
            return ("d", id(v), len(v.d))
        if isinstance(v, Obj):
            if depth > 3:
                return ("o", id(v))
            xs = []
            for k, x in sorted(v.attrs.items()):
                c = ("o", id(x)) if isinstance(x, list) else self.freeze_state(x, depth + 1)
                if c is None:
                    return None
                xs.append((k, c, len(x) if isinstance(x, list) else 0))
            return ("o", id(v), tuple(xs))
        return None

    def exhausted(self, path, src, i, node):
        super().exhausted(path, src, i, node)

    def event(self, path, kind, info):
        if kind == "alloc" and self.raw(path):
            n = info["size"]
            self.rep.ob("bounded.alloc", info["func"], not self.client_bound(path, n), f"{show(n)[:80]} bytes are allocated, a number the client chose", where=info["where"], path=path)
        super().event(path, kind, info)

    # -- text that can't be decoded

    def charset_call(self, path, name, f, args, kwargs, node):
        if name == "decode" and self.raw(path) and len(args) >= 2:
            if path.data["decoded"] < 1 and path.choose(2, "the text can't be decoded"):
                path.data["decoded"] += 1
                path.emit("undecodable")
                raise exc(UnicodeDecodeError, "codec")
        return super().charset_call(path, name, f, args, kwargs, node)

    def enum_value(self, path, cls, v, node):
        return super().enum_value(path, cls, v, node)

    def decide(self, path, sym):
        if not self.raw(path):
            return super().decide(path, sym)
        if sym.op == "hasflag":
            return self.cap(path, sym) if mentions_caps(sym) else None
        if sym.op == "atom" and str(sym.args[0]).startswith("col"):
            return True
        # details of a value: all of them once, then one
        if sym.op in ("cmp", "eq"):
            a, b = sym.args[-2:]
            if b == 0 and sym.args[0] == "<" and isinstance(a, Sym) and a.op == "m" and a.args[0] == "find":
                return path.choose(2, "the string isn't terminated") == 1
            c = b if isinstance(b, (int, EnumV)) else a if isinstance(a, (int, EnumV)) else None
            n = b if c is a else a
            if c is not None and isinstance(n, Sym) and not isinstance(c, bool):
                if isinstance(c, EnumV):
                    return self.limited(path, ("enum", c.cls, ), n, 1, True)
                if n.op == "unle" and (sym.op == "eq" or sym.args[0] == "=="):
                    return self.limited(path, ("int", c), n, 2, False)
        return ConnEnv.decide(self, path, sym)

    def limited(self, path, kind, n, k, then):
        """At most k different terms are told apart in this way"""
        seen = path.data.setdefault("limits", {}).setdefault(kind, [])
        if n in seen:
            return None
        if len(seen) < k:
            seen.append(n)
            return None
        return then

    def plugin_lookup_fails(self, path):
        return False

    def cap(self, path, sym):
        if sym.args[1] & path.data.get("caps_off", 0):
            return False
        return super().cap(path, sym)

    def wrote(self, path, data, drain, node):
        d = path.data
        super().wrote(path, data, drain, node)
        if d["phase"] == "handshake" and self.live_handshake:
            n = d["errs"] = d.get("errs", 0) + (1 if is_err(data) else 0)
            self.rep.ob("one.answer", "the handshake", n == 0 or n == 1 and bool(is_err(data)), "a packet is sent after the ERR that ends the handshake", path=path)

    # -- the answer

    def finish(self, path):
        d = path.data
        r = d.get("reply")
        if r is None or not d.get("was_armed"):
            return
        name = cmd_name(r.cmd) + (" (empty packet)" if d.get("empty") else "")
        if r.cmd in NO_REPLY:
            self.rep.ob("one.answer", name, r.n == 0 or r.n == 1 and r.err or (None if r.lost else False), f"{name}: {r.n} packets in response to a packet that asks for none", path=path)
            return
        if r.lost:
            self.rep.ob("one.answer", name, None, r.lost, path=path)
            return
        self.rep.ob("one.answer", name, r.complete, f"{name}: {r.missing()} when the server waits for the next command", path=path)
        self.rep.ob("one.answer", name + ": sent", not d.get("buffered"), f"{name}: the response is still in the buffer when the server waits for the next command", path=path)

    def command(self, path, cmd):
        d = path.data
        self.finish(path)
        d["reply"] = None
        d["was_armed"] = d["armed"] and cmd is not None
        if cmd is None:
            return
        name = cmd_name(cmd) + (" (empty packet)" if d.get("empty") else "")
        d["reply"] = Answer(cmd, bool(d.get("caps_on", 0) & DEPRECATE_EOF), lambda ok, msg: self.rep.ob("one.answer", name, ok, msg, path=path) if d["was_armed"] else None)
        if d["was_armed"]:
            self.rep.ob("one.answer", "sequence numbers", bool(d.get("fresh_seq", True)), f"the sequence number isn't reset before {name} is read", path=path)
        d["fresh_seq"] = False


class Answer(Reply):
    def got(self, pkt):
        if self.cmd in NO_REPLY and self.n == 0 and is_err(pkt):
            self.n, self.err, self.state = 1, True, "done"
            return
        super().got(pkt)


def leaves(n):
    """What a sum or difference is made of"""
    if isinstance(n, Sym) and n.op in ("+", "-"):
        return [x for a in n.args for x in leaves(a)]
    return [n]


def mentions_caps(sym):
    return any(x.op == "atom" and "capabilities" in str(x.args[0]) or x.op in ("unle", "&") for x in terms(sym))


ALL = [QUERY, PREPARE, LONG_DATA, EXECUTE, FETCH, RESET_STMT, CLOSE, PING, CHANGE_USER, RESET_CONN, DEBUG, QUIT, INIT_DB, FIELD_LIST, 0x55]
QUERY_ATTRS, LENENC, CONNECT_DB, ATTRS, ZSTD, PLUGIN_AUTH = 1 << 27, 1 << 21, 1 << 3, 1 << 20, 1 << 26, 1 << 19


def check(rep):
    p = Program()
    rep.rule("bounded.loop", "no loop over a packet goes on when the packet has ended, or as often as a number in the packet says without consuming the packet")
    rep.rule("bounded.alloc", "no memory is allocated in an amount that's just a number in the packet")
    rep.rule("one.answer", "whatever the packet, the response is what the command asks for or one ERR, or the connection is closed")
    rep.rule("in.step", "a packet with a wrong sequence number isn't taken; after it, the connection is closed, or one ERR sent and the next packet read from its start")
    rep.rule("contained", "what's raised while a packet is handled ends that connection at most")
    rep.rule("release.registry", "the connection is removed from the registry, however it ended")
    rep.rule("release.socket", "the socket is closed, however the connection ended")
    rep.rule("blocking", "nothing that's reachable from a connection blocks the event loop")
    rep.rule("regex", "no regular expression that's applied to what the client sent has matches that can be found in exponentially many ways")
    rep.section(commands, rep, p)
    rep.section(handshake, rep, p)
    rep.section(sequence, rep, p)
    rep.section(c10.server, rep, p)
    rep.section(plugins, rep, p)
    rep.section(blocking_calls, rep, p)
    rep.section(regexes, rep, p)


# what the client did before: commands, parameters of the statement, and whether it asked for a cursor
BEFORE = {
    EXECUTE: [([PREPARE], 2, False), ([PREPARE], 0, False), ([], 0, False), ([PREPARE, LONG_DATA], 2, False), ([PREPARE, EXECUTE], 0, True)],
    FETCH: [([PREPARE, EXECUTE], 0, True), ([PREPARE, EXECUTE], 0, False), ([PREPARE], 0, False), ([], 0, False)],
    LONG_DATA: [([PREPARE], 0, False), ([PREPARE], 2, False), ([], 0, False)],
    RESET_STMT: [([], 0, False), ([PREPARE], 2, False), ([PREPARE, EXECUTE], 0, True)],
    CLOSE: [([], 0, False), ([PREPARE], 2, False), ([PREPARE, EXECUTE], 0, True)],
}


def commands(rep, p):
    env = Hostile(p, rep)
    for caps in (0, QUERY_ATTRS | DEPRECATE_EOF):
        for c in ALL:
            for empty in (False, True) if c == PING else (False,):
                for before, np, cur in BEFORE.get(c, [([], 0, False)]):
                    def run(path):
                        path.data.update(caps_on=caps, nparams=np, empty=empty, use_cursor=cur)
                        return env.run(path, before + [c])

                    name = "Connection.start: " + ", ".join(map(cmd_name, before + [c])) + (" (empty)" if empty else "") + (", all capabilities" if caps else "")
                    rep.explore(p, env, run, name, max_paths=4000, budget_s=40 if rep.thorough else 8, each=lambda r: each(env, rep, r, "Connection.start: " + cmd_name(c)))


def each(env, rep, res, site):
    if res.status == "raise":
        c = res.exc.value
        cls = env.it.class_of(c)
        ok = env.it.subclass(cls, Exception)
        rep.ob("contained", site, True if ok else False if cls is not None else None, f"{c!r} isn't an Exception, and ends more than the connection", where=res.exc.where, path=res.path)
    elif res.status == "ok":
        rep.ob("contained", site, True)
    elif res.status == "undecided":
        rep.ob("contained", site, None, res.reason)


def handshake(rep, p):
    env = Hostile(p, rep)
    env.live_handshake = True
    site = "Connection.start: handshake"
    for caps, off in ((QUERY_ATTRS | ZSTD, 0), (0, LENENC | ATTRS | CONNECT_DB | PLUGIN_AUTH), (0, LENENC)):
        for tls in (False, True) if not off else (False,):
            def run(path):
                path.data.update(caps_on=caps, caps_off=off)
                kw = {}
                if tls:
                    kw["ssl"] = Obj(ExtClass("ssl.SSLContext"), {}, "ssl context", True)
                return env.run(path, [], **kw)

            rep.explore(p, env, run, f"{site}, capabilities +{caps:#x} -{off:#x}" + (", TLS" if tls else ""), max_paths=4000, budget_s=40 if rep.thorough else 8, each=lambda r: each(env, rep, r, site))


def plugins(rep, p):
    """What the plugins make of the client's data"""
    base = p.need(PLUGIN)
    env = Hostile(p, rep)
    env.live_handshake = True
    it = p.interp
    for name, mod in sorted(p.mods.items()):
        for cls in mod.ns.values():
            if not isinstance(cls, UClass) or cls.module is not mod or base not in cls.mro() or cls is base:
                continue
            for opt in (True, False):
                def run(path):
                    path.data["calm"] = False
                    pl = mk(path, cls, cls.name)
                    info = env.opaque(path, p.need("mysql_mimic.auth.AuthInfo"), "auth_info")
                    if opt:
                        return it.await_(it.call(it.getattr(pl, "start"), [info], {}, None))
                    v = it.await_(it.call(it.getattr(pl, "start"), [], {}, None))
                    return it.await_(it.call(it.getattr(it.getitem(v, 1), "asend"), [info], {}, None))

                rep.explore(p, env, run, f"{cls.qual}.start()" + ("" if opt else " and asend()"), max_paths=300, budget_s=10, each=lambda r: each(env, rep, r, cls.qual))


def sequence(rep, p):
    """Wrong sequence numbers"""
    env = c04.Sock(p)
    it = p.interp
    left = []

    def run(path):
        x, l = c04.atom(path, "payload", 9)
        y, k = c04.atom(path, "next", 7)
        rest, _ = c04.pack(it, y, k, 0)
        case = path.choose(4, "what's wrong")
        if case < 3:
            wire = [b"\x09\x00\x00" + bytes([(1, 255, 128)[case]]), x] + rest
        else:
            big, n = c04.atom(path, "part", 0xFFFFFF)
            wire = [b"\xff\xff\xff\x00", big, b"\x09\x00\x00\x05", x] + rest
        s = env.stream(path, wire)
        try:
            return it.await_(it.call(it.getattr(s, "read"), [], {}, None))
        finally:
            path.data["nleft"] = sum(n if isinstance(n, int) else 0 for n in env.left(path))

    def seen(res):
        site = "MysqlStream.read"
        if c04.undecided(rep, res, "in.step", site):
            return
        rep.ob("in.step", site, res.status == "raise", "a packet with a wrong sequence number is taken", path=res.path)
        if res.status == "raise":
            left.append((it.class_of(res.exc.value), res.path.data["nleft"] > 11))

    rep.explore(p, env, run, "MysqlStream.read: wrong sequence number", max_paths=50, budget_s=60, each=seen)
    for cls, unread in dict.fromkeys(left):
        if cls is None:
            continue
        for live in (False, True):
            e = Misnumbered(p, rep)
            e.cls, e.unread = cls, unread
            e.live_handshake = live
            site = "Connection.start: " + ("handshake" if live else "command")

            def each_(res):
                d = res.path.data
                if res.status in ("ok", "raise"):
                    if d.get("bad"):
                        rep.ob("in.step", site, True)
                    each(e, rep, res, site)
                elif res.status != "cut":
                    rep.ob("in.step", site, None, res.reason)

            for s in ([],) if live else ([PING], [QUERY, PING], [CHANGE_USER]):
                def go(path):
                    path.data.update(caps_on=0)
                    return e.run(path, s)

                rep.explore(p, e, go, site + " with a wrong sequence number", max_paths=3000, budget_s=20, each=each_)


class Misnumbered(Hostile):
    """One packet of the client's has a wrong sequence number"""

    cls = None
    unread = True

    def raw(self, path):
        return False

    def stream_call(self, path, name, f, args, kwargs, node):
        d = path.data
        if args and args[0] is d.get("stream"):
            if d.get("bad"):
                if name == "write":
                    d["answers"] = d.get("answers", 0) + 1
                    if d["answers"] > 1:
                        self.rep.ob("in.step", "Connection.start: answer", False, "more than one packet is sent after a packet with a wrong sequence number", path=path)
                if name == "read":
                    site = "Connection.start: after it"
                    if self.unread:
                        self.rep.ob("in.step", site, False, "the next packet is read, although the payload of the one with the wrong sequence number hasn't been", path=path)
                    else:
                        self.rep.ob("in.step", site, d.get("answers") == 1, "the next packet is read without an ERR", path=path)
                    raise Cut("next packet")
            elif name == "read":
                if path.choose(2, "the packet has a wrong sequence number"):
                    d["bad"] = True
                    d["calm"] = True
                    path.emit("read_fault", what="sequence number")
                    raise exc(self.cls, "sequence number")
        return super().stream_call(path, name, f, args, kwargs, node)

    def wrote(self, path, data, drain, node):
        if path.data.get("bad"):
            self.rep.ob("in.step", "Connection.start: answer", bool(is_err(data)), "a packet with a wrong sequence number is answered with something else than ERR", path=path)
            return
        super().wrote(path, data, drain, node)
