"""C04: packet framing is lossless for every size and segmentation"""
from __future__ import annotations

import asyncio

from ..engine import Stop
from ..models import ext_class_of
from .conn import *

M = 0xFFFFFF


# ------------------------------------------------------------------ byte strings as pieces of the originals


def pieces(it, v, lo=0, hi=None):
    """[bytes | (atom, from, to) | ("le", n, number)], adjacent pieces joined"""
    out = []

    def put(x):
        if isinstance(x, bytes):
            if not x:
                return
            if out and isinstance(out[-1], bytes):
                out[-1] += x
                return
        elif x[0] != "le":
            if isinstance(x[1], int) and x[1] == x[2]:
                return
            if out and isinstance(out[-1], tuple) and out[-1][0] is x[0] and out[-1][2] == x[1]:
                out[-1] = (x[0], out[-1][1], x[2])
                return
        out.append(x)

    def length(x):
        return it.path.resolve(it.length(x))

    def go(x, a, b):
        """x[a:b] (b may be None)"""
        if isinstance(x, ABuf):
            x = cat(*x.parts)
        if isinstance(x, bytes):
            if b is not None and not isinstance(b, int):
                raise Unknown
            put(x[a:b])
            return
        if not isinstance(x, Sym):
            raise Unknown
        if x.op == "cat":
            pos = 0
            for q in x.args:
                n = length(q)
                if (a, b) == (0, None):
                    go(q, 0, None)
                    continue
                if not isinstance(n, int):
                    raise Unknown
                l, h = max(a - pos, 0), n if b is None else min(b - pos, n)
                if l < h:
                    go(q, l, h)
                pos += n
            return
        if x.op == "slice" and len(x.args) == 3:
            base, l, h = x.args
            l = l or 0
            if not isinstance(l, int) or l < 0 or not (h is None or isinstance(h, int) and h >= 0):
                raise Unknown
            go(base, l + a, (h if b is None else l + b if h is None else min(h, l + b)))
            return
        if x.op == "le" and (a, b) == (0, None):
            n = it.path.resolve(x.args[2])
            put(n.to_bytes(x.args[0], "little") if isinstance(n, int) else ("le", x.args[0], n))
            return
        if x.op == "atom":
            n = length(x)
            if isinstance(n, int):
                h = n if b is None else min(b, n)
                if a < h:
                    put((x, a, h))
                return
            l0, h0 = it.path.interval(n)
            if b is None or b >= h0:
                put((x, a, n))
                return
            if l0 >= b:
                put((x, a, b))
                return
        raise Unknown

    go(v, lo, hi)
    return out


class Unknown(Exception):
    pass


def pack(it, payload, n, seq):
    """What a client expects for a payload of length n (a number, or a term in a known interval)"""
    out, a = [], 0
    while True:
        lo, hi = it.path.interval(n) if isinstance(n, Sym) else (n, n)
        if lo >= M:
            out += [M.to_bytes(3, "little") + bytes([seq % 256]), it.getslice(payload, slice(a or None, a + M)) if isinstance(payload, Sym) else payload[a : a + M]]
            n = it.binop("-", n, M)
            a += M
            seq += 1
            continue
        if hi >= M:
            raise Unknown
        out += [n.to_bytes(3, "little") if isinstance(n, int) else Sym("le", 3, False, n, ty="bytes"), bytes([seq % 256])]
        out.append(it.getslice(payload, slice(a or None, None)) if isinstance(payload, Sym) else payload[a:])
        return out, seq + 1


# ------------------------------------------------------------------ the socket


CONTENT_OPS = {"unle", "slice", ">>", "<<", "&", "|"}
KNOWN_OPS = {"cmp", "not", "and", "or", "len", "atom", "+", "-", "*", "//", "%", "min", "max", "bool", "neg"}


class Sock(Client):
    kmax = 3
    max_loop = 400
    max_steps = 5_000_000
    split = False  # does read(n) return fewer bytes than there are?

    def __init__(self, program):
        self.p = program
        self.it = program.interp

    def stream(self, path, wire=()):
        r = Obj(ExtClass("asyncio.StreamReader"), {}, "reader", True)
        w = Obj(ExtClass("asyncio.StreamWriter"), {}, "writer", True)
        path.data.update(reader=r, writer=w, wire=list(wire), out=[], given=[], waits=0, empty=0)
        return self.it.call(self.p.need(STREAM), [r, w], {}, None)

    def attr(self, path, o, name):
        d = path.data
        if isinstance(o, Obj) and o is d.get("writer"):
            if name in ("write", "writelines"):
                def write(it, a, k, n):
                    d["where"] = path.where()
                    for x in it.iterate(a[0]) if name == "writelines" else [a[0]]:
                        d["given"].append((x, it.freeze(x)))
                        d["out"].append(it.freeze(x))
                return Prim(name, write)
            if name == "drain":
                def drain():
                    d["drained"] = len(d["out"])
                    self.it.suspend(("drain",), None)
                return Prim(name, lambda it, a, k, n: Coro(drain, None))
        if isinstance(o, Obj) and o is d.get("reader"):
            if name == "readexactly":
                return Prim(name, lambda it, a, k, n: Coro(lambda: self.readexactly(path, a[0], n), None))
            if name == "read":
                return Prim(name, lambda it, a, k, n: Coro(lambda: self.read(path, a[0] if a else k.get("n", -1), n), None))
            if name == "at_eof":
                return Prim(name, lambda it, a, k, n: not d["wire"])
        return NotImplemented

    def left(self, path):
        return [self.it.path.resolve(self.it.length(x)) for x in path.data["wire"]]

    def take(self, path, n):
        it, d = self.it, path.data
        got = []
        while d["wire"] and not (isinstance(n, int) and n == 0):
            x = d["wire"][0]
            l = path.resolve(it.length(x))
            if isinstance(l, int) and isinstance(n, int):
                if l <= n:
                    got.append(d["wire"].pop(0))
                    n -= l
                    continue
            else:
                # sizes that are only known to be the same
                t = it.compare("<=", l, n)
                if t is True or isinstance(t, Sym) and path.known(t) is True or l == n:
                    got.append(d["wire"].pop(0))
                    n = it.binop("-", n, l)
                    continue
                if not isinstance(n, int):
                    raise Undecided(f"{show(n)} bytes of {show(l)}")
            got.append(it.getslice(x, slice(None, n)))
            d["wire"][0] = it.getslice(x, slice(n, None))
            n = 0
        return cat(*got) if got else b"", n

    def decide(self, path, sym):
        # Everything is known, but how long payloads are - and what they're made of, which may be anything
        ts = list(terms(sym))
        if all(t.op in KNOWN_OPS for t in ts):
            return super().decide(path, sym)
        content = any(t.op == "unle" for t in ts) and not any(t.op == "len" and isinstance(t.args[0], Sym) and t.args[0].op != "atom" for t in ts)
        if not content or not all(t.op in KNOWN_OPS | CONTENT_OPS for t in ts) or path.data.get("content"):
            raise Undecided(f"whether {show(sym)[:80]}")
        path.data["content"] = sym.op != "not"
        return super().decide(path, sym)

    def readexactly(self, path, n, node):
        it = self.it
        n = path.resolve(n)
        path.data["where"] = path.where()
        it.suspend(("read",), node)
        v, short = self.take(path, n)
        if isinstance(short, int) and short > 0:
            o = Obj(asyncio.IncompleteReadError, {"args": (), "partial": v, "expected": n})
            raise Raise(o, node)
        return v

    def read(self, path, n, node):
        it, d = self.it, path.data
        d["where"] = path.where()
        n = path.resolve(n)
        if not isinstance(n, int):
            t = self.total(path)
            n = t if isinstance(t, int) else n
            if not isinstance(n, int):
                raise Undecided("size of a read")
        it.suspend(("read",), node)
        if n < 0:
            v = cat(*d["wire"]) if d["wire"] else b""
            d["wire"] = []
            return v
        if n == 0:
            return b""
        if not d["wire"]:
            d["empty"] += 1
            if d["empty"] > 8:
                raise Cut("endless reads at the end of the stream")
            return b""
        t = self.total(path)
        have = min(n, t) if isinstance(t, int) else n
        opts = [have] + [k for k in (1, have - 1, 3) if 0 < k < have]
        opts = list(dict.fromkeys(opts))
        if d.get("cuts", 0) >= 4:
            opts = opts[:1]
        k = opts[path.choose(len(opts), f"read({n}) returns fewer bytes")]
        if k != have:
            d["cuts"] = d.get("cuts", 0) + 1
        return self.take(path, k)[0]

    def total(self, path):
        ls = self.left(path)
        return sum(ls) if all(isinstance(x, int) for x in ls) else None


def atom(path, name, n):
    x = Sym("atom", name, ty="bytes")
    if isinstance(n, tuple):
        path.set_interval(Sym("len", x, ty="int"), *n)
        return x, Sym("len", x, ty="int")
    path.eqs[Sym("len", x, ty="int")] = n
    return (x if n else b""), n


SIZES = [0, 1, 2, 250, 251, 65535, 65536, M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 1, 3 * M, (1, M - 1), (M + 1, 2 * M - 1), (2 * M + 1, 3 * M - 1)]
FEW = [0, 1, M - 1, M, M + 1, 2 * M, (1, M - 1)]


def size_name(n):
    return f"any length from {n[0]} to {n[1]}" if isinstance(n, tuple) else f"length {n}"


def check(rep):
    p = Program()
    rep.rule("frame.write", "the packets that are written for a payload are those a client reassembles to it: chunks of 2^24-1 bytes and a shorter (maybe empty) last one, consecutive sequence numbers, bytes in order")
    rep.rule("frame.flush", "after a draining write, everything was given to the socket, and the socket was waited for")
    rep.rule("frame.alias", "what was given to the transport isn't modified afterwards")
    rep.rule("frame.read", "payloads are reassembled identically, for every way to cut the byte stream into reads, and no byte after them is taken")
    rep.rule("frame.eof", "the end of the stream within a packet, or between packets, ends the reading with an exception")
    rep.rule("frame.tls", "bytes that arrived behind the SSL request are given to the TLS layer, and not taken for packets")
    rep.rule("frame.tls_flush", "nothing is left in the write buffer when the connection switches to TLS")
    for n in SIZES:
        rep.section(write_one, rep, p, n)
    rep.section(write_many, rep, p)
    rep.section(write_seq, rep, p)
    for n in SIZES:
        rep.section(read_one, rep, p, n)
    for n in (0, 1, 5, M):
        rep.section(read_cut, rep, p, n)
    rep.section(read_seq, rep, p)
    rep.section(read_big_seq, rep, p)
    rep.section(tls, rep, p)
    rep.section(upgrade, rep, p)
    for n in (0, 1, 2):
        rep.section(answer, rep, p, n)


def same(rep, path, rule, site, got, want, what):
    it = path.program.interp
    try:
        g, w = pieces(it, cat(*got) if got else b""), pieces(it, cat(*want) if want else b"")
    except Unknown:
        rep.ob(rule, site, None, "can't tell what is written")
        return
    rep.ob(rule, site, g == w, f"{what}: {text(g)} instead of {text(w)}", path=path, where=path.data.get("where"))


def text(ps):
    out = []
    for x in ps[:8]:
        if isinstance(x, bytes):
            out.append(x.hex() if len(x) < 16 else x[:16].hex() + "..")
        elif x[0] == "le":
            out.append(f"le{x[1]}({show(x[2])})")
        else:
            out.append(f"{show(x[0])}[{x[1]}:{x[2] if isinstance(x[2], int) else show(x[2])}]")
    return " ".join(out) + (" .." if len(ps) > 8 else "") or "nothing"


def aliased(rep, path, site):
    it = path.program.interp
    bad = [x for x, before in path.data["given"] if isinstance(x, ABuf) and it.freeze(x) != before]
    rep.ob("frame.alias", site, not bad, "a buffer is modified after it was given to the transport, which may still refer to it", path=path)


def undecided(rep, res, rule, site):
    if res.status in ("undecided", "cut"):
        rep.ob(rule, site, None, res.reason)
        return True
    if res.status == "budget":
        return True
    return False


def write_one(rep, p, n):
    env = Sock(p)
    it = p.interp
    site = f"MysqlStream.write: {size_name(n)}"
    for drain in (True, False):
        def run(path):
            s = env.stream(path)
            x, l = atom(path, "payload", n)
            path.data["want"] = pack(it, x, l, 0)[0]
            it.await_(it.call(it.getattr(s, "write"), [x], {} if drain else {"drain": False}, None))
            path.data["after"] = len(path.data["out"]), path.data.get("drained", 0)
            if not drain:
                it.await_(it.call(it.getattr(s, "drain"), [], {}, None))

        def each(res):
            path = res.path
            if undecided(rep, res, "frame.write", site):
                return
            if res.status == "raise":
                rep.ob("frame.write", site, False, f"raises {res.exc.value!r}", where=res.exc.where, path=path)
                return
            same(rep, path, "frame.write", site, path.data["out"], path.data["want"], "the socket gets")
            if drain:
                rep.ob("frame.flush", "MysqlStream.write", path.data["after"][0] == path.data["after"][1] == len(path.data["out"]) and bool(path.data["out"]), "not everything was given to the socket before it was waited for", path=path)
            else:
                rep.ob("frame.flush", "MysqlStream.drain", path.data.get("drained") == len(path.data["out"]), "drain() doesn't give everything to the socket before waiting for it", path=path)
            aliased(rep, path, "MysqlStream.write")

        rep.explore(p, env, run, site + ("" if drain else ", not drained"), max_paths=300, budget_s=60, each=each)


def write_many(rep, p):
    """Several payloads, with and without draining"""
    env = Sock(p)
    it = p.interp
    site = "MysqlStream.write: several payloads"

    def run(path):
        s = env.stream(path)
        want, seq = [], 0
        for i in range(3):
            n = FEW[path.choose(len(FEW), f"size of payload {i}")] if i < 2 else 3
            x, l = atom(path, f"payload{i}", n)
            w, seq = pack(it, x, l, seq)
            want += w
            drain = i == 2 or path.choose(2, f"payload {i} is drained") == 0
            it.await_(it.call(it.getattr(s, "write"), [x, drain], {}, None))
        path.data["want"] = want

    def each(res):
        path = res.path
        if undecided(rep, res, "frame.write", site):
            return
        if res.status == "raise":
            rep.ob("frame.write", site, False, f"raises {res.exc.value!r}", where=res.exc.where, path=path)
            return
        same(rep, path, "frame.write", site, path.data["out"], path.data["want"], "the socket gets")
        aliased(rep, path, "MysqlStream.write")

    rep.explore(p, env, run, site, max_paths=2000, budget_s=100, each=each)


def write_seq(rep, p):
    """Sequence numbers, and that they start anew"""
    env = Sock(p)
    it = p.interp
    site = "MysqlStream.write: sequence numbers"

    def run(path):
        s = env.stream(path)
        want = []
        for i in range(300):
            want.append(b"\x01\x00\x00" + bytes([i % 256]) + b"x")
            it.await_(it.call(it.getattr(s, "write"), [b"x", i % 7 == 0], {}, None))
        it.call(it.getattr(s, "reset_seq"), [], {}, None)
        want.append(b"\x01\x00\x00\x00y")
        it.await_(it.call(it.getattr(s, "write"), [b"y"], {}, None))
        path.data["want"] = want

    def each(res):
        path = res.path
        if undecided(rep, res, "frame.write", site):
            return
        if res.status == "raise":
            rep.ob("frame.write", site, False, f"raises {res.exc.value!r}", where=res.exc.where, path=path)
            return
        same(rep, path, "frame.write", site, path.data["out"], path.data["want"], "the socket gets")

    rep.explore(p, env, run, site, max_paths=10, budget_s=60, each=each)


def read_back(rep, p, env, site, make, max_paths=2000):
    """make(path) -> [(payload, [wire parts])]"""
    it = p.interp

    def run(path):
        msgs = make(path)
        s = env.stream(path, [x for _, w in msgs for x in w if not (isinstance(x, bytes) and not x)])
        got = path.data["got"] = []
        for m, _ in msgs:
            got.append(it.await_(it.call(it.getattr(s, "read"), [], {}, None)))
        path.data["msgs"] = msgs
        path.data["rest"] = list(path.data["wire"])
        path.data["at_end"] = True
        it.await_(it.call(it.getattr(s, "read"), [], {}, None))
        path.data["read_on"] = True

    def each(res):
        path = res.path
        d = path.data
        if undecided(rep, res, "frame.read", site):
            return
        if not d.get("at_end"):
            rep.ob("frame.read", site, False, f"reading raises {res.exc.value!r}", where=res.exc.where, path=path)
            return
        for g, (m, _) in zip(d["got"], d["msgs"]):
            same(rep, path, "frame.read", site, [g], [m], "the payload is")
        rep.ob("frame.read", "MysqlStream.read: what follows", not d["rest"], "part of a packet isn't consumed", path=path)
        rep.ob("frame.eof", "MysqlStream.read: between packets", not d.get("read_on"), "read() returns something at the end of the stream", path=path)

    rep.explore(p, env, run, site, max_paths=max_paths, budget_s=60, each=each)


def read_one(rep, p, n):
    env = Sock(p)

    def make(path):
        x, l = atom(path, "payload", n)
        y, k = atom(path, "next", 4)
        a, seq = pack(p.interp, x, l, 0)
        b, _ = pack(p.interp, y, k, seq)
        return [(x, a), (y, b)]

    read_back(rep, p, env, f"MysqlStream.read: {size_name(n)}", make)


def read_cut(rep, p, n):
    """The stream ends anywhere"""
    env = Sock(p)
    it = p.interp
    site = f"MysqlStream.read: the stream ends within a packet of length {n}"

    def run(path):
        x, l = atom(path, "payload", n)
        wire = [q for q in pack(it, x, l, 0)[0] if not (isinstance(q, bytes) and not q)]
        ps = pieces(it, cat(*wire))
        total = sum(len(q) if isinstance(q, bytes) else q[2] - q[1] for q in ps)
        cuts = [k for k in (1, 2, 3, 4, 5, total // 2, total - 1) if 0 < k < total]
        cut = cuts[path.choose(len(cuts), "bytes until the stream ends")]
        v = it.getslice(cat(*wire), slice(None, cut))
        s = env.stream(path, list(v.args) if isinstance(v, Sym) and v.op == "cat" else [v])
        return it.await_(it.call(it.getattr(s, "read"), [], {}, None))

    def each(res):
        if res.status == "cut" and "endless" in res.reason:
            rep.ob("frame.eof", site, False, "read() doesn't notice the end of the stream", path=res.path)
            return
        if undecided(rep, res, "frame.eof", site):
            return
        rep.ob("frame.eof", site, res.status == "raise", f"read() returns {show(res.value)[:60]} although the packet isn't complete", path=res.path)

    rep.explore(p, env, run, site, max_paths=2000, budget_s=60, each=each)


def read_seq(rep, p):
    """Several packets may arrive in one read"""
    env = Sock(p)

    def make(path):
        out, seq = [], 0
        for i in range(3):
            n = (0, 1, 70_000)[path.choose(3, f"size of payload {i}")]
            x, l = atom(path, f"payload{i}", n)
            w, seq = pack(p.interp, x, l, seq)
            out.append((x, w))
        return out

    read_back(rep, p, env, "MysqlStream.read: several payloads", make)


def read_big_seq(rep, p):
    env = Sock(p)

    def make(path):
        return [(bytes([65 + i % 26]), [b"\x01\x00\x00" + bytes([i % 256]) + bytes([65 + i % 26])]) for i in range(300)]

    env.cuts = False
    read_back(rep, p, env, "MysqlStream.read: sequence numbers", make, max_paths=1)


def answer(rep, p, n):
    """The numbers of an answer go on where those of the request ended"""
    env = Sock(p)
    it = p.interp
    site = f"MysqlStream: answer to a request of {n + 1} packets"

    def run(path):
        x, l = atom(path, "payload", n * M + 5)
        w, seq = pack(it, x, l, 0)
        s = env.stream(path, w)
        it.await_(it.call(it.getattr(s, "read"), [], {}, None))
        y, k = atom(path, "answer", 9)
        path.data["want"] = pack(it, y, k, seq)[0]
        it.await_(it.call(it.getattr(s, "write"), [y], {}, None))

    def each(res):
        if undecided(rep, res, "frame.write", site):
            return
        if res.status == "raise":
            rep.ob("frame.write", site, False, f"raises {res.exc.value!r}", where=res.exc.where, path=res.path)
            return
        same(rep, res.path, "frame.write", site, res.path.data["out"], res.path.data["want"], "the socket gets")

    rep.explore(p, env, run, site, max_paths=200, budget_s=60, each=each)


# ------------------------------------------------------------------ TLS


class Tls(Sock):
    """The switch to TLS: an event loop that runs what's scheduled in its order, and a TLS protocol that takes bytes once
    its connection is made. Bytes that are neither handed to it nor lost went somewhere unknown."""

    def attr(self, path, o, name):
        d = path.data
        if isinstance(o, Obj):
            if o is d.get("reader") and name == "_buffer":
                return d["rbuf"]
            if o is d.get("writer") and name == "transport" or o is d.get("writer") and name == "_transport":
                return d["transport"]
            if o is d.get("writer") and name == "get_extra_info":
                return NotImplemented
            f = getattr(self, f"{o.label}_{name}", None) if o.label in ("loop", "transport", "tls") else None
            if f is not None:
                return Prim(name, lambda it, a, k, n: f(path, a, k, n))
        return super().attr(path, o, name)

    def call_unknown(self, path, callee, args, kwargs, node):
        d = path.data
        n = label(callee)
        if n in ("asyncio.get_event_loop", "asyncio.get_running_loop", "asyncio.events.get_running_loop", "asyncio.events.get_event_loop"):
            return d["loop"]
        early = d.get("early")
        if early and any(isinstance(x, (bytes, Sym, ABuf)) and self.it.freeze(x) == early for x in [*args, *kwargs.values()]):
            d.setdefault("unknown", []).append(n)
        return NotImplemented

    def loop_call_soon(self, path, a, k, n):
        path.data["ready"].append((a[0], list(a[1:])))
        return None

    loop_call_soon_threadsafe = loop_call_soon

    def loop_start_tls(self, path, a, k, n):
        d = path.data

        def go():
            d["tls"] = True
            d["protocol"] = d["new_protocol"]
            d["ready"].append(("made", []))
            for _ in range(60):
                if not d["ready"]:
                    break
                f, args = d["ready"].pop(0)
                if f == "made":
                    d["made"] = True
                else:
                    self.it.call(f, args, {}, n)
            return Obj(ExtClass("asyncio.Transport"), {}, "new transport", True)

        return Coro(go, None)

    def transport_get_protocol(self, path, a, k, n):
        return path.data["protocol"]

    def transport_pause_reading(self, path, a, k, n):
        return None

    transport_resume_reading = transport_pause_reading

    def fed(self, path, b):
        d = path.data
        b = self.it.freeze(b)
        if not isinstance(b, bytes):
            raise Undecided("what is fed to TLS")
        if not d.get("made"):
            d["early_fed"] = True
        d["fed"] += b

    def tls_data_received(self, path, a, k, n):
        self.fed(path, a[0])

    def tls_get_buffer(self, path, a, k, n):
        path.data["tlsbuf"] = ABuf([bytes(path.data["tlsbuf_size"])])
        return path.data["tlsbuf"]

    def tls_buffer_updated(self, path, a, k, n):
        n = path.resolve(a[0])
        b = path.data.get("tlsbuf")
        if b is None or not isinstance(n, int):
            raise Undecided("a buffer of TLS")
        b = self.it.freeze(b)
        if not isinstance(b, bytes):
            raise Undecided("a buffer of TLS")
        self.fed(path, b[:n])


def label(c):
    if isinstance(c, Sym) and c.op == "attr":
        return str(c.args[1])
    if isinstance(c, Ext):
        return c.path
    return show(c) if isinstance(c, AV) else str(c)


def tls(rep, p):
    env = Tls(p)
    it = p.interp
    hello = bytes.fromhex("160301020001")
    for early, size, kind in [(hello[:n], size, kind) for n in (0, 1, 5, 6) for size, kind in ((64, "BufferedProtocol"), (4, "BufferedProtocol"), (0, "Protocol"))]:
        site = f"MysqlStream.start_tls: {len(early)} bytes of the TLS handshake along with the SSL request, {kind}" + (f" with a buffer of {size} bytes" if size else "")

        def run(path):
            s = env.stream(path)
            proto = Obj(ext_class_of(Ext("asyncio." + kind)), {}, "tls", True)
            path.data.update(
                early=early, rbuf=ABuf([early] if early else []), ready=[], fed=b"", tlsbuf_size=size, new_protocol=proto,
                loop=Obj(ExtClass("asyncio.AbstractEventLoop"), {}, "loop", True),
                transport=Obj(ExtClass("asyncio.Transport"), {}, "transport", True),
                protocol=Obj(ExtClass("asyncio.StreamReaderProtocol"), {}, "stream protocol", True),
            )
            it.await_(it.call(it.getattr(s, "start_tls"), [Sym("atom", "ssl")], {}, None))

        def each(res):
            path, d = res.path, res.path.data
            if undecided(rep, res, "frame.tls", site):
                return
            if not d.get("tls") or res.status == "raise":
                rep.ob("frame.tls", site, None, "the call that starts TLS wasn't found" if res.status == "ok" else repr(res.exc.value))
                return
            left = it.freeze(d["rbuf"])
            where = "mysql_mimic/stream.py (MysqlStream.start_tls)"
            rep.ob("frame.tls", site + ": kept apart", None if isinstance(left, Sym) else not left, "they stay among the plain bytes", path=path, where=where)
            if d.get("unknown") and d["fed"] != early:
                rep.ob("frame.tls", site + ": handed over", None, f"they are passed to {d['unknown'][0]}")
                return
            rep.ob("frame.tls", site + ": handed over", d["fed"] == early, f"TLS gets {d['fed'].hex() or 'nothing'} instead of {early.hex() or 'nothing'}", path=path, where=where)
            rep.ob("frame.tls", site + ": in time", not d.get("early_fed"), "TLS gets them before its connection is made", path=path, where=where)

        rep.explore(p, env, run, site, max_paths=60, budget_s=60, each=each)


class Upgrade(ConnEnv):
    """The connection phase, up to the switch to TLS"""

    def __init__(self, program, rep):
        super().__init__(program)
        self.rep = rep

    def next_read(self, path, n):
        if n > 1:
            raise Stop("a second packet")
        return Sym("atom", f"client data {n}", ty="bytes")

    def wrote(self, path, data, drain, node):
        path.data["buffered"] = not drain

    def event(self, path, kind, info):
        if kind in ("drain", "flush"):
            path.data["buffered"] = False
        if kind == "tls":
            path.data["switched"] = True
            self.rep.ob("frame.tls_flush", "connection phase", not path.data.get("buffered"), "a packet is still buffered when TLS starts", path=path)
            raise Stop("TLS")


def upgrade(rep, p):
    env = Upgrade(p, rep)
    it = p.interp

    def run(path):
        conn = env.make(path, ssl=mk(path, ExtClass("ssl.SSLContext"), "ssl"))
        it.await_(it.call(it.getattr(conn, "start"), [], {}, None))

    rep.explore(p, env, run, "Connection.start: switch to TLS", max_paths=2000, budget_s=60)
