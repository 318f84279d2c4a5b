"""Part of C09: a server with several connections, one of which kills another one"""
from __future__ import annotations

import random
import time

from .. import conntexts as ct
from ..engine import Undecided, explore
from .c08 import APP, GONE, Check, Peer, World, simple

KAPP = '''

class Logged:
    """What the server does with the sessions"""

    async def init(self, connection):
        await super().init(connection)
        LOG.append(("init", connection.connection_id))
        self.mine = connection.connection_id

    async def close(self):
        LOG.append(("close", getattr(self, "mine", None)))
        await super().close()


class KSession(Logged, AppSession):
    async def query(self, expression, sql, attrs):
        if "long" in sql:
            await asyncio.sleep(0)
            return [[n] for n in range(10003)], ["n"]
        return await AppSession.query(self, expression, sql, attrs)


class KSlowSession(Logged, SlowSession):
    async def query(self, expression, sql, attrs):
        return await AppSession.query(self, expression, sql, attrs)


def serve(server_id):
    LOG.clear()
    return MysqlServer(session_factory=KSession, control=LocalControl(server_id), identity_provider=Users())


def serve_slow(server_id):
    LOG.clear()
    return MysqlServer(session_factory=KSlowSession, control=SlowControl(server_id), identity_provider=Users())


LOG = []
'''
SITE = "the server"


class KPeer(Peer):
    peers = ()

    def encode(self, c):
        if c[0] == "killto":
            i = c[2]
            if i == "target":
                i = self.peers[0].id
                if i is None:
                    raise Undecided("the id of a connection that isn't announced yet")
            return b"\x03" + c[1].encode() + str(i).encode()
        return super().encode(c)


class KWorld(World):
    def __init__(self, program):
        super().__init__(program)
        self.app = program.load_text("app.kills", APP + KAPP)
        self.peer = KPeer

    def run(self, path, programs, schedule):
        return super().run(path, programs, self.followed(path, schedule))

    def followed(self, path, schedule):
        """Notes what the target does when the killer starts, and what it has got"""
        d = path.data
        for p in d["peers"]:
            p.peers = d["peers"]
        d["notes"] = []
        for n in schedule:
            if n == "note":
                t = d["peers"][0]
                d["notes"].append(dict(pos=t.pos, idle=t.what == ("read",) and not t.inbox, what=t.what, where=list(t.stack)[-1:] if isinstance(t.stack, list) else None, over=t.ended is not None, begun=len(t.out)))
                continue
            if n == 0:
                t = d["peers"][0]
                d.setdefault("states", []).append((t.pos, t.what, len(t.inbox)))
            yield n


def packets(data):
    """[(sequence number, payload)], or None if a packet isn't complete"""
    b, i, out = b"".join(data), 0, []
    while i < len(b):
        n = int.from_bytes(b[i : i + 3], "little")
        if i + 4 + n > len(b):
            return None
        out.append((b[i + 3], b[i + 4 : i + 4 + n]))
        i += 4 + n
    return out


def err(ps):
    return bool(ps) and ps[-1][1][:1] == b"\xff"


class Kills(Check):
    def __init__(self, rep):
        super().__init__(rep)
        self.env = KWorld(self.p)

    def one3(self, programs, schedule, factory):
        """(peers, notes, log), or a reason"""
        self.env.factory = factory
        for res in explore(self.p, self.env, lambda path: self.env.run(path, programs, schedule), max_paths=1):
            if res.status == "budget":
                continue
            self.rep.count(res)
            if res.status != "ok":
                return None, f"{res.status}: {res.reason or res.exc}"
            if res.path.decisions:
                return None, f"a decision: {res.path.decisions[0][2]}"
            if any(not isinstance(x, bytes) for p in res.value for _, d in p.out for x in d):
                return None, "bytes that aren't known are sent"
            log = self.env.app["LOG"]
            self.states = res.path.data.get("states", [])
            return (res.value, res.path.data["notes"], [tuple(x) for x in log.items]), None
        return None, "nothing"

    def target(self, name, factory, kinds):
        """Kills of the connection, wherever it is"""
        prog = ct.TARGETS[name]
        rep = self.rep
        out, why = self.one3([prog, GONE, ct.BYSTANDER], [0, 0, 0, 1, 2] + [0] * 4000 + [2] * 4000, factory)
        if out is None:
            rep.ob("kill.lockstep", f"{name}, without a kill", None, why)
            return
        self.want = [p.transcript() for p in out[0]]
        n = out[0][0].steps
        states = self.states
        # where the target is able to get a kill
        login = 3 if factory == "serve" else 10
        for kind in kinds:
            for i in range(login, n + 1):
                k = i + len(kind)
                if name.startswith("long") and not (i < len(states) and 0 <= states[i][0] < len(prog["commands"]) - len(ct.AFTER) and states[i][1] and states[i][1][0] not in ("read", "drain")):
                    continue
                if kind == "strangers" and i % 5:
                    continue
                if kind == "twice, apart" and i % 2:
                    continue
                sp = ct.SPELLED["connection" if "connection" in kind else "query"]
                t = sp[k % len(sp)]
                if kind in ("query", "connection"):
                    cmds = [("killto", t, "target")]
                elif kind == "strangers":
                    cmds = [("killto", x, y) for x in (t, ct.SPELLED["connection"][0]) for y in ct.STRANGERS]
                elif kind == "twice":
                    cmds = [("killto", t, "target"), ("killto", sp[0], "target")]
                elif kind == "twice, apart":
                    cmds = [("killto", t, "target"), ("ping",), ("ping",), ("killto", sp[0], "target")]
                else:
                    cmds = [("killto", ct.SPELLED["query"][0], "target"), ("killto", t, "target")]
                killer = dict(user="eve", commands=[*cmds, ("ping",)])
                # the bystander is in the middle of its result
                head = [0] * login + [1] * 3 + [2] * 12
                if kind == "twice, apart":
                    rest = ["note"] + [x for _ in range(60) for x in (1, 1, 0)] + ["note"]
                else:
                    rest = ["note"] + [1] * 4000
                self.judge3(name, kind, i, killer, head + [0] * (i - login) + rest + [0] * 4000, factory)

    def itself(self, name, factory):
        """Statements that kill their own connection"""
        rep = self.rep
        others = [GONE, ct.BYSTANDER] if name != "alone" else []
        out, why = self.one3([ct.TARGETS[name], *others], ([0] * 3 + [1] * 3 + [2] * 12 if others else []) + [0] * 4000 + [2] * 4000, factory)
        site = f"{name}{'' if factory == 'serve' else ', with pauses everywhere'}"
        if out is None:
            rep.ob("kill.one_reply", site, None, why)
            return
        peers, _, log = out
        dead = None
        what = "the connection killed its own statement" if others else "connections that don't exist were killed"
        for w, data in peers[0].out:
            if not isinstance(w, tuple):
                continue
            ps = packets(data)
            if dead:
                rep.ob("kill.ends", f"{site}: {simple(w)}", False, f"{simple(w)} is served after {dead}")
                break
            if w[0] == "killto":
                ok = ps is not None and len(ps) == 1 and ps[0][1][:1] in (b"\0", b"\xff")
                rep.ob("kill.one_reply", f"{site}: {w[1]}{w[2]}", ok, f"the statement gets {self.brief(ps)}")
                continue
            if w[0] == "killself":
                ok = ps is not None and len(ps) == 1 and ps[0][1][:1] in (b"\0", b"\xff")
                rep.ob("kill.one_reply", f"{site}: {w[1]}its own id", ok, f"the statement gets {self.brief(ps)}")
                if "QUERY" not in w[1].upper():
                    dead = w[1] + "its own id"
            else:
                rep.ob("kill.usable", f"{site}: {simple(w)}", bool(ps) and not err(ps), f"{simple(w)} gets {self.brief(ps)} after {what}")
        if dead:
            rep.ob("kill.ends", site, True)
        else:
            rep.ob("kill.usable", site, peers[0].out[-1][0] == "the end", f"the connection ends after {what}")
        self.closed(f"{site}: the target", "when it kills itself", peers[0], log)

    def judge3(self, name, kind, i, killer, schedule, factory):
        rep = self.rep
        out, why = self.one3([ct.TARGETS[name], killer, ct.BYSTANDER], schedule, factory)
        slow = "" if factory == "serve" else ", with pauses everywhere"
        site = f"{name}{slow}: {kind}"
        if out is None:
            rep.ob("kill.lockstep", site, None, why)
            return
        peers, notes, log = out
        note = notes[0]
        end = notes[-1]
        ends = "connection" in kind
        at = f"after {i} turns, while it's {'idle' if note['idle'] else 'busy with ' + self.name(name, note['pos'])}"
        self.killer(site, at, peers[1], log, peers)
        self.bystander(site, at, peers[2], log, peers)
        self.victim(site, at, name, peers[0], note, end, ends, kind, log)

    def name(self, name, pos):
        return simple(ct.TARGETS[name]["commands"][pos]) if 0 <= pos < len(ct.TARGETS[name]["commands"]) else "the login" if pos < 0 else "nothing"

    def killer(self, site, at, peer, log, peers):
        rep = self.rep
        for w, data in peer.out:
            if not isinstance(w, tuple):
                continue
            ps = packets(data)
            what = simple(w) if w[0] != "killto" else w[1] + {"target": "its id"}.get(w[2], str(w[2]))
            ok = ps is not None and len(ps) == 1 and ps[0][1][:1] in (b"\x00", b"\xff")
            if w[0] == "ping":
                ok = ok and ps[0][1][:1] == b"\0"
            rep.ob("kill.one_reply", f"{site}: {what}", ok, f"the connection that kills gets {self.brief(ps)}, {at}")
        if peer.out[-1][0] != "the end":
            rep.ob("kill.one_reply", f"{site}: the killer", False, f"the connection that kills ends, {at}")
        self.closed(site + ": the killer", at, peer, log)

    def brief(self, ps):
        if ps is None:
            return "half a packet"
        return f"{len(ps)} packets" + (f", the last one {ps[-1][1][:40]!r}" if ps else "")

    def bystander(self, site, at, peer, log, peers):
        got = peer.transcript()
        k = next((k for k, (x, y) in enumerate(zip(self.want[2], got)) if x != y), None)
        if k is None and len(got) != len(self.want[2]):
            k = -1
        self.rep.ob("kill.target", f"{site}: another connection", k is None, f"{simple(got[k][0]) if k is not None else ''} of another connection is answered otherwise, {at}")
        self.closed(site + ": another connection", at, peer, log)

    def closed(self, site, at, peer, log):
        n = log.count(("close", peer.id))
        m = log.count(("init", peer.id))
        self.rep.ob("kill.closes", site, n == m if m else n <= 1, f"the session is opened {m} times, and closed {n} times, {at}")

    def victim(self, site, at, name, peer, note, end, ends, kind, log):
        rep = self.rep
        where = "mysql_mimic/connection.py"
        want = {k: w for k, w in enumerate(self.want[0])}
        got = peer.transcript()
        cmds = ct.TARGETS[name]["commands"]
        self.closed(site + ": the target", at, peer, log)
        if kind == "strangers":
            k = next((k for k, (x, y) in enumerate(zip(self.want[0], got)) if x != y), None)
            rep.ob("kill.target", f"{site}: the target", k is None and len(got) == len(self.want[0]), f"a kill of another id changes the answer to {simple(got[k][0]) if k is not None else 'nothing'}, {at}")
            return
        # entries of the transcript by command
        def grouped(t):
            by, order = {}, []
            pos = -1
            for w, d in t:
                if w in ("the end", "the connection"):
                    continue
                if isinstance(w, tuple):
                    pos += 1
                by.setdefault(pos, []).extend(d)
            return by
        a, b = grouped(self.want[0]), grouped(got)
        hit = set(range(note["pos"], end["pos"] + 1)) if not note["over"] else set()
        if len([1 for _ in (note,)]) == 1 and note is end and note["idle"]:
            hit = set()
        if -1 in hit:
            hit.discard(-1)
        aborted = None
        for pos in sorted(b):
            ps, ws = packets(b[pos]), packets(a.get(pos, []))
            s = f"{site}: {self.name(name, pos)}"
            if ps is None:
                rep.ob("kill.lockstep", s, False, f"half a packet is sent, {at}", where)
                return
            if ends and not note["over"] and pos > note["pos"]:
                rep.ob("kill.ends", s, False, f"the connection goes on with {self.name(name, pos)} although it was killed, {at}", where)
                return
            if b[pos] == a.get(pos) or ps == ws:
                rep.ob("kill.lockstep", s, True)
                continue
            pre = err(ps) and ps[:-1] == ws[: len(ps) - 1] and ps[-1][1] != (ws[-1][1] if ws else None)
            if ends and (not note["over"]) and pos == note["pos"] and (pre or ps == ws[: len(ps)]):
                # the response may end anywhere
                if note["idle"]:
                    rep.ob("kill.lockstep", s, ps == ws, f"{self.brief(ps)} although no statement was executed, {at}", where)
                else:
                    rep.ob("kill.lockstep", s, True)
                continue
            if pos in hit and pre:
                rep.ob("kill.lockstep", s, True)
                aborted = pos if aborted is None else aborted
                continue
            dependent = cmds[pos][0] != "ping" and "free" not in str(cmds[pos]) if pos >= 0 else False
            if aborted is not None and pos > aborted and dependent and (len(ps) == 1 and ps[0][1][:1] in (b"\0", b"\xff") or not ws):
                rep.ob("kill.lockstep", s, True)
                continue
            if aborted is not None and pos > aborted and dependent:
                # an answer that depends on the statement that was aborted
                continue
            if pos in hit:
                rep.ob("kill.lockstep", s, False, f"killed, it's answered by {self.brief(ps)}, which isn't the whole response and doesn't end with ERR, {at}", where)
            else:
                rep.ob("kill.spares", s, False, f"a KILL QUERY changes the answer to {self.name(name, pos)}: {self.brief(ps)}, {at}", where)
            return
        if not ends and kind != "strangers":
            last = max(b)
            ok = last >= max(a)
            gone = cmds[last][0] == "user" and err(packets(b[last]))
            rep.ob("kill.usable", f"{site}: the target", ok or gone, f"a KILL QUERY ends the connection after {self.name(name, last)}, {at}", where)


def jobs(rep):
    c = Kills(rep)

    def run(name, factory, kinds):
        c.target(name, factory, kinds)
        rep.visited |= c.p.interp.visited

    def own(name, factory):
        c.itself(name, factory)
        rep.visited |= c.p.interp.visited

    out = []
    for name in ct.TARGETS:
        if name in ("itself", "ends", "ends2", "alone"):
            out += [(own, name, "serve"), (own, name, "serve_slow")]
            continue
        if name.startswith("long"):
            out += [(run, name, "serve", (kind,)) for kind in ("query", "connection")]
            continue
        for kind in ("query", "connection", "twice", "twice, apart", "strangers", "query, then connection"):
            out.append((run, name, "serve", (kind,)))
        out.append((run, name, "serve_slow", ("query", "connection") if rep.thorough else ("query",)))
    return out
