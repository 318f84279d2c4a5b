"""C18: connection ids are unique among live connections and address the right one"""
from __future__ import annotations

import time

from .. import idtexts
from .evalterm import Unknown, ev
from .serv import *
from .sess import SessEnv

CAP = 65536


# where a counter may stop growing
STEPS = (CAP - 1, CAP, 2**32 - 1, 2**32, INF)


class Ids(Client):
    kmax = 1
    max_loop = 4

    def __init__(self, iv):
        self.iv = iv  # counters, and the interval in which they stay

    def suspend(self, path, what, node):
        """Another connection may be registered meanwhile: what was found out about the registry doesn't hold anymore"""
        reg = path.data.get("reg")
        if reg is None or path.data.get("locks"):
            return
        for t in [t for t in path.truths if isinstance(t, Sym) and t.op == "in" and t.args[1] is reg.open]:
            del path.truths[t]
            path.data.setdefault("outdated", set()).add(t)


def check(rep):
    p = Program()
    rep.rule("id.layout", "the id is (server_id mod 2^16) << 16 plus a sequence number below 2^16")
    rep.rule("id.capacity", "a connection is refused iff all 65536 ids of the server are in use")
    rep.rule("id.unique", "the id that's handed out was tested not to be in the registry, and is the key the connection is registered under")
    rep.rule("id.sequence", "the sequence runs through all 65536 numbers, one by one")
    rep.rule("id.registry", "remove(id) takes exactly that id out of the registry, kill(id) reaches exactly the connection registered under it")
    rep.rule("id.refuse", "a client that can't be registered is told so with ERR 1040 and isn't served")
    rep.rule("id.assigned", "a connection only starts under the id that add() returned for it")
    rep.rule("id.released", "the id is given back on every exit, once the connection has ended, and not earlier")
    rep.rule("id.announced", "the thread id of the handshake is the connection's id")
    rep.rule("id.addressed", "CONNECTION_ID() is the connection's id, and KILL passes on the id it was given")
    rep.section(ids, rep, p)
    rep.section(registry, rep, p)
    rep.section(server, rep, p)
    rep.section(handshake, rep, p)
    rep.section(addressing, rep)


def new_control(p, path):
    cls = p.need("mysql_mimic.control.LocalControl")
    sid = Sym("atom", "server_id", ty="int")
    return p.interp.call(cls, [sid], {}, None), sid


def ids(rep, p):
    # which counters does add() advance, and within which interval do they stay?
    p.need("mysql_mimic.control.LocalControl.add")
    iv = {}
    client = Ids(iv)

    def locate(o):
        return {(i, k): (x, k, v) for i, (x, k, v) in enumerate(mutable_ints(o))}

    def run(path):
        ctl, sid = new_control(p, path)
        path.data["sid"] = sid
        loc0 = locate(ctl)
        for key, (lo, hi) in client.iv.items():
            if key in loc0:
                o, k, v = loc0[key]
                s = Sym("atom", f"counter {k}", ty="int")
                path.set_interval(s, lo, hi)
                o.attrs[k] = s
                path.data.setdefault("counters", {})[s] = key
        reg = find_registry(ctl)
        if reg is None:
            raise Undecided("no registry")
        reg.open = Sym("atom", "connections")
        path.data.update(ctl=ctl, reg=reg, before={key: o.attrs[k] for key, (o, k, v) in loc0.items()})
        conn = Obj(p.need("mysql_mimic.connection.Connection"), {}, label="conn", open_=True)
        path.data["conn"] = conn
        coro = p.interp.call(p.interp.getattr(ctl, "add"), [conn], {}, None)
        v = p.interp.await_(coro)
        path.data["after"] = {key: (o.attrs.get(k)) for key, (o, k, _) in loc0.items()}
        return v

    def find_registry(ctl):
        ds = [v for v in ctl.attrs.values() if isinstance(v, ADict)]
        return ds[0] if len(ds) == 1 else None

    init = {}
    for rnd in range(12):
        nxt = {}
        for res in explore(p, Ids(iv), run, max_paths=200):
            if res.status != "ok":
                continue
            for key, v in res.path.data["after"].items():
                b = res.path.data["before"][key]
                if not iv:
                    init[key] = res.path.interval(b)
                if v is not b and not (isinstance(v, int) and isinstance(b, int) and v == b):
                    lo, hi = res.path.interval(v)
                    a = nxt.get(key, init.get(key, (INF, -INF)))
                    nxt[key] = (min(a[0], lo), max(a[1], hi))
        new = dict(iv)
        for k, (lo, hi) in nxt.items():
            if k not in iv or rnd >= 8:
                # start, or narrow what was widened
                new[k] = (lo, hi)
            else:
                o = iv[k]
                new[k] = (-INF if lo < o[0] else o[0], min(t for t in STEPS if t >= hi) if hi > o[1] else o[1])
        if new == iv and rnd > 8:
            break
        iv = new
        client.iv = iv
    A = "mysql_mimic.control.LocalControl.add"

    def each(res):
        path = res.path
        reg, sid = path.data.get("reg"), path.data.get("sid")
        if reg is None:
            rep.ob("id.layout", A, None, res.reason)
            return
        n = Sym("len", reg.open, 0, ty="int")
        lo, hi = path.interval(n)
        if res.status == "cut":
            rep.ob("id.capacity", A, hi < CAP, "with a full registry, the search for a free id never ends", path=path)
            return
        if res.status == "raise":
            c = res.exc.value.cls if isinstance(res.exc.value, Obj) else None
            name = getattr(c, "name", getattr(c, "__name__", "?"))
            if name == "TooManyConnections":
                rep.ob("id.capacity", A, lo >= CAP, f"a connection is refused although only {lo} ids may be in use", where=res.exc.where, path=path)
            elif name in ("KeyError", "TypeError", "AttributeError", "NameError", "ValueError"):
                rep.ob("id.capacity", A, False, f"registering a connection fails with {name}", where=res.exc.where, path=path)
            return
        if res.status != "ok":
            rep.ob("id.layout", A, None, res.reason)
            return
        v = res.value
        seen = [x for x in path.truths if isinstance(x, Sym) and x.op == "in" and x.args[1] is reg.open]
        if hi >= CAP and not any(not path.truths[x] for x in seen):
            rep.ob("id.capacity", A, False, "an id is handed out although all of them may be in use", path=path)
        else:
            rep.ob("id.capacity", A, True)
        # registered under the very id that was tested
        keys = list(reg.d)
        if not keys:
            rep.ob("id.unique", A, False, "the connection isn't registered", path=path)
        elif not any(same(k, v) for k in keys):
            d = differ(keys[0], v)
            rep.ob("id.unique", A, False if d else None, f"registered under {show(keys[0])}, but {show(v)} is handed out", path=path)
        elif reg.d[next(k for k in keys if same(k, v))] is not path.data["conn"]:
            rep.ob("id.unique", A, False, "something else than the connection is registered", path=path)
        else:
            t = path.truths.get(Sym("in", v, reg.open, ty="bool"))
            if t is False:
                rep.ob("id.unique", A, True)
            elif t is True:
                rep.ob("id.unique", A, False, "an id that is in use is handed out", path=path)
            elif Sym("in", v, reg.open, ty="bool") in path.data.get("outdated", ()):
                rep.ob("id.unique", A, False, f"{show(v)} may have been handed out to another connection after it was tested", path=path)
            else:
                rep.ob("id.unique", A, False if from_counter(v) else None, f"nothing makes sure that {show(v)} isn't in use", path=path)
        layout(rep, path, A, v, sid)
        for key, b in path.data["before"].items():
            a = path.data["after"][key]
            if a is b or not isinstance(b, Sym) or b not in path.data.get("counters", {}):
                continue
            if len(seen) > 1:
                continue
            step(rep, path, A, b, a)

    rep.explore(p, client, run, "LocalControl.add", max_paths=400, each=each)


def same(a, b):
    return a is b or not isinstance(a, AV) and not isinstance(b, AV) and a == b


def differ(a, b):
    """Are two integer terms definitely different?"""

    def lin(x):
        if isinstance(x, Sym) and x.op in ("+",):
            return [y for a in x.args for y in lin(a)]
        return [x]

    la, lb = lin(a), lin(b)
    ca, cb = sum(x for x in la if isinstance(x, int)), sum(x for x in lb if isinstance(x, int))
    sa, sb = [x for x in la if not isinstance(x, int)], [x for x in lb if not isinstance(x, int)]
    if not all(x.op in PLAIN for t in sa + sb if isinstance(t, AV) for x in terms(t)):
        return False
    return set(map(str, sa)) == set(map(str, sb)) and ca != cb or set(map(str, sa)) != set(map(str, sb))


def from_counter(v):
    return any(x.op == "atom" and str(x.args[0]).startswith("counter") for x in terms(v)) and all(
        x.op in ("atom", "+", "%", "<<", "|", "*", "&", "-") for x in terms(v)
    )


def addends(v):
    if isinstance(v, Sym) and v.op in ("+", "|"):
        return [y for a in v.args for y in addends(a)]
    return [v]


def zeros(v):
    """Number of low bits that are known to be 0 (None: unknown)"""
    if isinstance(v, int):
        return 64 if v == 0 else (v & -v).bit_length() - 1
    if not isinstance(v, Sym):
        return None
    if v.op == "<<" and isinstance(v.args[1], int):
        z = zeros(v.args[0])
        return v.args[1] + (z or 0)
    if v.op == "*":
        a, b = zeros(v.args[0]), zeros(v.args[1])
        return None if a is None or b is None else a + b
    if v.op == "&":
        a, b = zeros(v.args[0]), zeros(v.args[1])
        return max(a or 0, b or 0)
    if v.op == "%" and isinstance(v.args[1], int):
        a, b = zeros(v.args[0]), zeros(v.args[1])
        return min(a or 0, b or 0)
    if v.op == "atom":
        return 0
    return None


PLAIN = ("atom", "+", "%", "<<", "|", "*", "&", "-", ">>", "//")


def layout(rep, path, A, v, sid):
    ad = addends(v)
    hi_part = [x for x in ad if mentions(x, sid)]
    lo_part = [x for x in ad if not mentions(x, sid)]
    known = all(x.op in PLAIN for x in terms(v))
    if not known:
        bad = sampled(path, v, sid)
        rep.ob("id.layout", A, None if bad is None else False, bad or f"can't follow {show(v)}", path=path)
        return
    if not hi_part:
        rep.ob("id.layout", A, False, f"the id {show(v)} doesn't contain the server id", path=path)
        return
    for x in hi_part:
        z = zeros(x)
        lo, hi = path.interval(x)
        if x.op == "<<":
            l2, h2 = path.interval(x.args[0])
            lo, hi = (l2 << x.args[1], h2 << x.args[1]) if INF not in (h2,) and -INF not in (l2,) else (l2, h2)
        if z is None:
            rep.ob("id.layout", A, None, f"can't follow {show(x)}")
        elif z < 16:
            rep.ob("id.layout", A, False, f"the server id takes up bits of the sequence number: {show(x)}", path=path)
        elif hi > 0xFFFF0000 or lo < 0:
            rep.ob("id.layout", A, False, f"the server id isn't reduced modulo 2^16: {show(x)}", path=path)
        elif hi < 0xFFFF0000:
            rep.ob("id.layout", A, False, f"not the upper half of the id: {show(x)}", path=path)
        else:
            rep.ob("id.layout", A, True)
    lo = hi = 0
    for x in lo_part:
        a, b = path.interval(x)
        lo, hi = lo + a, hi + b
    rep.ob("id.layout", A + ":sequence", 0 <= lo and hi < CAP, f"the sequence part {show(tuple(lo_part))} isn't within 0..65535 ({lo}..{hi})", path=path)


def sampled(path, v, sid):
    """A server id for which the upper half of the id is another, if one is found"""
    ts = list(terms(v))
    others = [x for x in ts if x.op == "atom" and x is not sid]
    if not mentions(v, sid) and any(x.op in ("random", "call") and "random" in str(x.args[0]) for x in ts):
        return f"the upper half isn't the configured server id, but {show(v)[:80]}"
    if any(x not in path.data.get("counters", {}) for x in others):
        return None
    for n in (0, 1, 4711, 65535, 65536, 70000, -1):
        env = {sid: n, **{x: 1 for x in others}}
        try:
            if not all(bool(ev(t, env)) == w for t, w in path.truths.items() if set(x for x in terms(t) if x.op == "atom") <= set(env)):
                continue
            got = ev(v, env)
        except (Unknown, TypeError, ValueError, ZeroDivisionError, OverflowError):
            return None
        if got >> 16 != n % 65536:
            return f"with server id {n}, the upper half of the id is {got >> 16}"
    return None


def step(rep, path, A, b, a):
    """b -> a is the way the counter takes"""
    if isinstance(a, Sym) and a.op == "%" and isinstance(a.args[1], int):
        x, m = a.args
        if isinstance(x, Sym) and x.op == "+" and x.args[0] is b and isinstance(x.args[1], int):
            import math

            rep.ob("id.sequence", A, m >= CAP and math.gcd(x.args[1], m) == 1, f"the sequence doesn't run through all 65536 numbers: {show(a)}", path=path)
            return
    if isinstance(a, Sym) and a.op == "&" and isinstance(a.args[1], int):
        x, m = a.args
        if isinstance(x, Sym) and x.op == "+" and x.args[0] is b and isinstance(x.args[1], int):
            rep.ob("id.sequence", A, m & (CAP - 1) == CAP - 1 and x.args[1] % 2 == 1, f"the sequence doesn't run through all 65536 numbers: {show(a)}", path=path)
            return
    rep.ob("id.sequence", A, None, show(a))


# ---- the registry


class Reg(Client):
    kmax = 2

    def __init__(self, program):
        self.p = program

    def call(self, path, f, args, kwargs, node):
        if method_of(self.p, f, CONN, "kill"):
            loc = self.p.interp.bind(f, args, kwargs, node)
            path.emit("kill", conn=args[0], how=loc.get([a.arg for a in f.node.args.args][1]))
            return None
        return NotImplemented

    def unknown_conn(self, path, key):
        return mk(path, self.p.need(CONN), "other", key=key)

    def item(self, path, o, k, node):
        if isinstance(o, Sym) and o.op == "atom" and o.args[0] == "connections":
            return self.unknown_conn(path, k)
        return NotImplemented


def registry(rep, p):
    """Two registered connections, and an unknown number of others"""
    it = p.interp
    a, b = Sym("atom", "id a", ty="int"), Sym("atom", "id b", ty="int")
    K = p.need("mysql_mimic.constants.KillKind")
    kind = Sym("atom", "kind", ty=K)
    env = Reg(p)

    def setup(path):
        ctl, sid = new_control(p, path)
        ds = [v for v in ctl.attrs.values() if isinstance(v, ADict)]
        if len(ds) != 1:
            raise Undecided("no registry")
        path.assume(it.eq(a, b), False)
        ca, cb = (mk(path, p.need(CONN), n) for n in ("conn a", "conn b"))
        # a registry that's filled the way add() fills it
        ds[0].d[a], ds[0].d[b] = ca, cb
        path.data.update(reg=ds[0], ca=ca, cb=cb)
        return ctl

    def run_remove(path):
        ctl = setup(path)
        which = path.choose(2, "which id")
        path.data["id"] = (a, Sym("atom", "unknown id", ty="int"))[which]
        if which:
            path.assume(it.eq(path.data["id"], a), False)
            path.assume(it.eq(path.data["id"], b), False)
        return it.await_(it.call(it.getattr(ctl, "remove"), [path.data["id"]], {}, None))

    S = "LocalControl.remove"

    def each(res):
        d, path = res.path.data, res.path
        if res.status == "raise":
            if d["id"] is a:
                rep.ob("id.registry", S, False, f"removing a registered connection fails with {res.exc.value!r}", path=path)
            return
        if res.status != "ok":
            rep.ob("id.registry", S, None, res.reason)
            return
        left = d["reg"].d
        if d["id"] is a:
            ok = a not in left and b in left
        else:
            ok = a in left and b in left
        rep.ob("id.registry", S, ok, f"after remove({show(d['id'])}), the registry of a and b holds {show(tuple(left))}", path=path)

    rep.explore(p, env, run_remove, S, each=each)
    for with_kind in (True, False):

        def run_kill(path):
            ctl = setup(path)
            args = [a] + ([kind] if with_kind else [])
            return it.await_(it.call(it.getattr(ctl, "kill"), args, {}, None))

        S2 = "LocalControl.kill"

        def each2(res):
            d, path = res.path.data, res.path
            if res.status != "ok":
                rep.ob("id.registry", S2, None if res.status != "raise" else False, res.reason or f"fails with {res.exc.value!r}", path=path)
                return
            ks = [i for k, i in path.trace if k == "kill"]
            ok = [i["conn"] for i in ks] == [d["ca"]]
            rep.ob("id.registry", S2, ok, f"kill(id a) reaches {[i['conn'] for i in ks]!r}", path=path)
            if ks:
                want = kind if with_kind else K.enum_members.get("CONNECTION")
                rep.ob("id.registry", S2 + ": kind", ks[0]["how"] is want or ks[0]["how"] == want, f"kill(id, {show(kind) if with_kind else ''}) becomes a kill of kind {show(ks[0]['how'])}", path=path)

        rep.explore(p, env, run_kill, S2, each=each2)

    def run_unknown(path):
        ctl = setup(path)
        x = Sym("atom", "unknown id", ty="int")
        path.assume(it.eq(x, a), False)
        path.assume(it.eq(x, b), False)
        return it.await_(it.call(it.getattr(ctl, "kill"), [x], {}, None))

    def each3(res):
        if res.status == "ok":
            ks = [i for k, i in res.path.trace if k == "kill"]
            rep.ob("id.registry", "LocalControl.kill: unknown id", not ks, f"the kill of an unknown id reaches {[i['conn'] for i in ks]!r}", path=res.path)
        elif res.status != "raise":
            rep.ob("id.registry", "LocalControl.kill: unknown id", None, res.reason)

    rep.explore(p, env, run_unknown, "LocalControl.kill: unknown id", each=each3)


# ---- the server


def code_of(path, p, pkt):
    """Error code of an ERR packet"""
    q = parts(pkt)
    if isinstance(q[0], bytes) and len(q[0]) >= 3 and q[0][0] == 0xFF:
        return int.from_bytes(q[0][1:3], "little")
    return None


def server(rep, p):
    env = ServEnv(p)
    env.faults = 2 if rep.thorough else 1
    CB = "the server's connection callback"

    def run(path):
        return env.accept(path)

    def each(res):
        path = res.path
        tr = path.trace
        if res.status not in ("ok", "raise"):
            rep.ob("id.released", CB, None, res.reason)
            return
        added = [i for i, (k, _) in enumerate(tr) if k == "added"]
        removed = [i for i, (k, _) in enumerate(tr) if k == "removed"]
        started = [i for i, (k, _) in enumerate(tr) if k == "start"]
        over = [i for i, (k, x) in enumerate(tr) if k == "ended" or k in ("failed", "cancelled") and x["what"] == "Connection.start()"]
        the_id = path.data.get("id")
        for i in started:
            x = tr[i][1]
            if not any(j < i for j in added):
                rep.ob("id.assigned", CB, False, "a connection is started that isn't registered", where=x["where"], path=path)
            else:
                rep.ob("id.assigned", CB, x["id"] is the_id, f"the connection starts under id {show(x['id'])}, but is registered under {show(the_id)}", where=x["where"], path=path)
        if added:
            mine = [i for i in removed if tr[i][1]["id"] is the_id]
            rep.ob("id.released", CB, bool(mine), "the connection's id is never given back", path=path)
            for i in mine:
                if started:
                    rep.ob("id.released", CB + ": after the end", any(j < i for j in over), "the id is given back while the connection is alive", where=tr[i][1]["where"], path=path)
            for i in removed:
                if i not in mine:
                    rep.ob("id.released", CB + ": only its own", False, f"remove({show(tr[i][1]['id'])}) isn't the id of this connection", where=tr[i][1]["where"], path=path)
        if path.data.get("full"):
            rep.ob("id.refuse", CB, not started, "a connection is served although all ids are in use", path=path)
            at = next(i for i, (k, _) in enumerate(tr) if k == "full")
            ws = [x for k, x in tr[at:] if k == "write"]
            if not ws:
                rep.ob("id.refuse", CB, False, "no ERR for a client that can't be registered", path=path)
            else:
                c = code_of(path, p, ws[0]["data"])
                rep.ob("id.refuse", CB, None if c is None else c == 1040, f"error code {c}, not 1040", where=ws[0]["where"], path=path)

    rep.explore(p, env, run, CB, each=each)
    for r in ("id.assigned", "id.released", "id.refuse"):
        if (r, CB) not in rep.obligations:
            rep.ob(r, CB, None, "never reached")


class Shake(ConnEnv):
    def next_read(self, path, n):
        return None


def handshake(rep, p):
    """The thread id in the initial handshake"""
    env = Shake(p)
    the_id = Sym("atom", "connection_id", ty="int")

    def run(path):
        conn = env.make(path)
        path.set_interval(the_id, 0, 2**32 - 1)
        p.interp.setattr(conn, "connection_id", the_id)
        return p.interp.await_(p.interp.call(p.interp.getattr(conn, "start"), [], {}, None))

    S = "initial handshake packet"

    def each(res):
        ws = [x for k, x in res.path.trace if k == "write"]
        if not ws:
            rep.ob("id.announced", S, None, res.reason or "no packet")
            return
        q = parts(ws[0]["data"])
        # protocol version 10, the version up to a NUL, then the id: 4 bytes, little endian
        i = 0
        ok = None
        if isinstance(q[0], bytes) and q[0][:1] == b"\n":
            for i, x in enumerate(q):
                if i and isinstance(x, bytes) and b"\0" in x:
                    break
                if not i and b"\0" in x:
                    break
            x = q[i]
            rest = ([x[x.index(b"\0") + 1:]] if isinstance(x, bytes) and x[x.index(b"\0") + 1:] else []) + list(q[i + 1:])
            t = rest[0] if rest else None
            if isinstance(t, Sym) and t.op in ("le", "be"):
                w, v = t.args[0], t.args[-1]
                ok = t.op == "le" and the_id is v and 4 in t.args
                if not ok and not (the_id is v or not mentions(v, the_id)):
                    ok = None
                    try:
                        if any(ev(v, {the_id: n}) != n for n in (1, 0x12345, 0x80000001, 0xFFFFFFFF)):
                            ok = False
                    except (Unknown, TypeError, ValueError):
                        pass
            elif isinstance(t, bytes):
                ok = False
        rep.ob("id.announced", S, ok, f"the thread id of the handshake is {show(t) if ok is not None else '?'}", where=ws[0]["where"], path=res.path)

    rep.explore(p, env, run, S, max_paths=20, each=each)


class Own(SessEnv):
    def __init__(self, program):
        super().__init__(program)
        self.corpus.load("ids.json")

    def with_id(self, path, n):
        it = self.it
        s = self.make_session(path)
        control = mk(path, self.p.need(CONTROL), "control")
        conn = mk(path, self.p.need(CONN), "connection", control=control, connection_id=n, session=s)
        it.await_(it.call(it.getattr(s, "init"), [conn], {}, None))
        s.attrs["username"] = "root"
        return s

    def executed(self, path, args, kwargs, node):
        x = args[0] if args else kwargs.get("sql")
        path.data["tree"] = x
        return super().executed(path, args, kwargs, node)

    def first(self, path):
        """The value of the first expression that was selected"""
        x = path.data.get("tree")
        if not self.is_node(x):
            raise Undecided("nothing is executed")
        es = x.attrs["args"].d.get("expressions")
        x = es.items[0] if isinstance(es, AList) and es.items else None
        while self.is_node(x, "Alias") or self.is_node(x, "Paren"):
            x = x.attrs["args"].d["this"]
        if not self.is_node(x, "Literal"):
            raise Undecided("what is selected")
        return x.attrs["args"].d.get("this")


def addressing(rep):
    p = Program(sqlglot=True)
    env = Own(p)

    def outcome(site, res, then):
        rep.count(res)
        if res.status == "raise":
            rep.ob("id.addressed", site, None, repr(res.exc), path=res.path)
        elif res.status != "ok":
            rep.ob("id.addressed", site, None, res.reason)
        else:
            then(res.path)

    for text in idtexts.OWN:
        for n in idtexts.IDS:
            def run(path):
                s = env.with_id(path, n)
                env.handle(path, s, text)
                return env.first(path)

            site = "Session.handle_query: CONNECTION_ID()"

            for res in explore(p, env, run, max_paths=8, deadline=time.time() + 20):
                def own(path):
                    v = res.value
                    ok = None
                    if isinstance(v, (int, str)) and not isinstance(v, bool):
                        ok = str(v) == str(n)
                    rep.ob("id.addressed", site, ok, f"{text} is {show(v)} on connection {n}", path=path)

                outcome(site, res, own)
    for text, n, kind in idtexts.KILLS:
        def run(path):
            return env.handle(path, env.with_id(path, 3), text)

        site = "Session.handle_query: KILL"
        for res in explore(p, env, run, max_paths=8, deadline=time.time() + 20):
            def killed(path):
                ks = [(i["id"], getattr(i["kill"], "name", None)) for k, i in path.trace if k == "killed"]
                unsure = any(isinstance(u, Sym) for u, _ in ks)
                want = [(n, kind)]
                if n >= 1 << 32:
                    rep.ob("id.addressed", site, None if unsure else ks in ([], want), f"{text} kills {ks}", path=path)
                else:
                    rep.ob("id.addressed", site, None if unsure else ks == want, f"{text} kills {ks}", path=path)

            outcome(site, res, killed)
    rep.visited |= p.interp.visited
