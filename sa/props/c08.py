"""C08: connections don't interfere"""
from __future__ import annotations

import asyncio
import hashlib
import random
import threading
import time

from .. import conntexts as ct
from ..engine import Stop
from ..models import CancelledError
from .c16 import Hooks, adict
from .sess import *

APP = '''
import asyncio

import whoami
from mysql_mimic import context
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin, IdentityProvider, NativePasswordAuthPlugin, NoLoginAuthPlugin, User
from mysql_mimic.control import LocalControl
from mysql_mimic.errors import MysqlError
from mysql_mimic.server import MysqlServer
from mysql_mimic.session import Session

SCHEMAS = {
    "ann": {"shop": {"items": {"id": "INT", "price_ann": "DECIMAL"}}, "blog": {"posts": {"x": "TEXT"}}},
    "bob": {"shop": {"items": {"id": "BIGINT"}, "orders": {"nr": "INT"}}, "blog": {"items": {"title": "TEXT"}}},
    "cat": {"shop": {"cats": {"name": "TEXT"}}},
    "eve": {"blog": {"items": {"evil": "INT"}, "users": {"id": "INT"}}},
}
VARIABLES = ["time_zone", "sql_mode", "autocommit", "max_execution_time", "wait_timeout", "character_set_client", "character_set_results", "transaction_isolation", "external_user"]


class AppSession(Session):
    async def query(self, expression, sql, attrs):
        await asyncio.sleep(0)
        if "boom" in sql:
            raise MysqlError(f"{self.username} failed")
        if "crash" in sql:
            raise ValueError(f"{self.database} crashed")
        if "stream" in sql or "late" in sql:
            return self.stream(sql, attrs), ["n", "user", "db", "tz", "conn"]
        v = self.variables
        before = [v.get(n) for n in VARIABLES]
        await asyncio.sleep(0)
        row = [sql, self.username, self.database, context.connection_id.get(), self.connection.connection_id, attrs.get("a"), attrs.get("trace"), *before, *[v.get(n) for n in VARIABLES]]
        return [row], ["sql", "user", "db", "ctx", "conn", "a", "trace", *VARIABLES, *[n + "2" for n in VARIABLES]]

    async def stream(self, sql, attrs):
        for n in range(3):
            await asyncio.sleep(0)
            if n == 2 and "late" in sql:
                raise MysqlError(f"{self.username} failed late")
            yield [n, self.username, self.database, self.variables.get("time_zone") + str(attrs.get("trace")) + str(self.variables.get("sql_mode")), context.connection_id.get()]

    async def schema(self):
        await asyncio.sleep(0)
        return SCHEMAS.get(self.username, {})

    async def use(self, database):
        await asyncio.sleep(0)
        if database == "nowhere":
            raise MysqlError("no such database")
        await super().use(database)


class Clear(AbstractClearPasswordAuthPlugin):
    name = "clear"

    async def check(self, username, password):
        await asyncio.sleep(0)
        return username if password == "clear" else None


class Users(IdentityProvider):
    def __init__(self):
        self.plugins = [NativePasswordAuthPlugin(), Clear(), NoLoginAuthPlugin()]
        self.users = {}
        for name, password in PASSWORDS:
            if name == "dan":
                self.users[name] = User(name, None, "clear")
            else:
                self.users[name] = User(name, NativePasswordAuthPlugin.create_auth_string(password) if password else None, "mysql_native_password")

    def get_plugins(self):
        return self.plugins

    async def get_user(self, username):
        await asyncio.sleep(0)
        return self.users.get(username)


def serve(server_id):
    return MysqlServer(session_factory=AppSession, control=LocalControl(server_id), identity_provider=Users())


class SlowSession(AppSession):
    """An application that pauses everywhere it may"""

    def __init__(self):
        super().__init__()
        self.middlewares = [self.note, *self.middlewares]
        self.notes = []

    async def note(self, q):
        await asyncio.sleep(0)
        self.notes.append(q.sql)
        try:
            return await q.next()
        finally:
            await asyncio.sleep(0)

    async def init(self, connection):
        await asyncio.sleep(0)
        await super().init(connection)
        await asyncio.sleep(0)

    async def reset(self):
        await asyncio.sleep(0)
        await super().reset()

    async def close(self):
        await asyncio.sleep(0)
        await super().close()

    async def query(self, expression, sql, attrs):
        r = await super().query(expression, sql, attrs)
        if "stream" in sql or "late" in sql:
            return r
        rows, columns = r
        return [[*row, len(self.notes)] for row in rows], [*columns, "notes"]


async def slow_factory():
    await asyncio.sleep(0)
    session = SlowSession()
    await asyncio.sleep(0)
    return session


class SlowControl(LocalControl):
    async def add(self, connection):
        await asyncio.sleep(0)
        connection_id = whoami.connection_id()
        self._connections[connection_id] = connection
        await asyncio.sleep(0)
        return connection_id

    async def remove(self, connection_id):
        await asyncio.sleep(0)
        await super().remove(connection_id)

    async def kill(self, connection_id, kind):
        await asyncio.sleep(0)
        await super().kill(connection_id, kind)


def serve_slow(server_id):
    return MysqlServer(session_factory=slow_factory, control=SlowControl(server_id), identity_provider=Users())
'''.replace("PASSWORDS", repr(sorted(ct.PW.items())))

CAPS = 1 << 9 | 1 << 15 | 1 << 19 | 1 << 20
VAR_STRING, LONGLONG = 0xFD, 8


def lenenc(n):
    return bytes([n]) if n < 251 else b"\xfc" + n.to_bytes(2, "little")


def lenstr(b):
    return lenenc(len(b)) + b


def sha(x):
    return hashlib.sha1(x).digest()


def scramble(password, nonce):
    p = password.encode()
    return bytes(a ^ b for a, b in zip(sha(p), sha(nonce + sha(sha(p)))))


class NoAnswer(Exception):
    """The client can't go on"""


class Peer:
    """A client: what it sends depends on what it receives only"""

    def __init__(self, number, program):
        self.number, self.program = number, program
        self.commands = list(program["commands"])
        self.pos = -1  # of the current command; -1: the handshake
        self.out = []  # [(what, [data])]
        self.inbox = b""
        self.statements, self.long = [], {}
        self.caps = CAPS | program.get("caps", 0) | (8 if program.get("database") else 0)
        self.charset = "utf-8"
        self.nonce = self.id = self.user = None
        self.nonces = 0
        self.ended = None
        self.closed = False
        # of the conversation, while the other one runs
        self.stack, self.task, self.ctx = [], None, {}
        self.go = threading.Semaphore(0)
        self.thread = None
        self.what = None
        self.steps = 0
        self.begin("handshake")

    def begin(self, what):
        self.out.append((what, []))

    def received(self):
        """Packets of the server, since the last one that was sent: (sequence number, payload)"""
        data = self.out[-1][1]
        if not all(isinstance(x, bytes) for x in data):
            raise Undecided("bytes that aren't known are sent")
        b, i, out = b"".join(data), 0, []
        while i + 4 <= len(b):
            n = int.from_bytes(b[i : i + 3], "little")
            out.append((b[i + 3], b[i + 4 : i + 4 + n]))
            i += 4 + n
        return out

    def packet(self, seq, data):
        return len(data).to_bytes(3, "little") + bytes([seq % 256]) + data

    def next(self):
        """Bytes of the next packet, or None"""
        got = self.received() if self.out[-1][1] else []
        if self.program.get("gone"):
            return None
        if self.pos == -1 and len(self.out) == 1:
            seq, p = got[0]
            i = p.index(b"\0", 1) + 1
            self.id = int.from_bytes(p[i : i + 4], "little")
            self.nonce = p[i + 4 : i + 12] + p[i + 4 + 8 + 1 + 2 + 1 + 2 + 2 + 1 + 10 :][:12]
            self.begin("authentication")
            self.user = self.program["user"]
            db = self.program.get("database")
            d = [self.caps.to_bytes(4, "little"), (1 << 24).to_bytes(4, "little"), bytes([self.program.get("charset", 45)]), bytes(23), self.user.encode(), b"\0"]
            a = self.secret(self.program.get("password"))
            d += [bytes([len(a)]), a]
            if db:
                d += [db.encode(), b"\0"]
            d.append(b"mysql_native_password\0")
            attrs = lenstr(b"role") + lenstr(b"%d" % self.number)
            d += [lenenc(len(attrs)), attrs]
            return self.packet(seq + 1, b"".join(d))
        if got and got[-1][1][:1] == b"\xfe" and len(got[-1][1]) > 9 and self.authenticating():
            # the authentication method is switched
            seq, p = got[-1]
            name, _, data = p[1:].partition(b"\0")
            self.begin(self.out[-1][0] + ", switched")
            pw = self.given if self.given is not None else ct.PW[self.user]
            return self.packet(seq + 1, pw.encode() + b"\0" if name == b"mysql_clear_password" else scramble(pw, data[:20]))
        self.learn(got)
        self.pos += 1
        if self.pos >= len(self.commands):
            self.begin("the end")
            return None
        c = self.commands[self.pos]
        self.begin(c)
        return self.packet(0, self.encode(c))

    def authenticating(self):
        w = self.out[-1][0]
        return w == "authentication" or isinstance(w, tuple) and w[0] == "user"

    given = None

    def secret(self, password):
        self.given = password
        pw = password if password is not None else ct.PW[self.user]
        return scramble(pw, self.nonce) if pw else b""

    def learn(self, got):
        """What the answer says"""
        w = self.out[-1][0]
        if not isinstance(w, tuple) or not got:
            return
        ok = got[-1][1][:1] != b"\xff"
        if w[0] == "prepare":
            p = got[0][1]
            self.statements.append(int.from_bytes(p[1:5], "little") if p[:1] == b"\0" else 9999)
        if w[0] == "q" and ok and w[1].startswith("SET NAMES "):
            self.charset = w[1].split()[-1]
        if w[0] == "user" and ok and w[4] in ct.COLLATIONS:
            self.charset = ct.CHARSETS[ct.COLLATIONS.index(w[4])]
        if w[0] == "rc" and ok:
            self.long = {}

    def stmt(self, k):
        return (self.statements[k] if k < len(self.statements) else 5000 + k).to_bytes(4, "little")

    def param(self, v):
        if isinstance(v, int):
            return bytes([LONGLONG, 0]), v.to_bytes(8, "little")
        return bytes([VAR_STRING, 0]), lenstr(v.encode(self.charset))

    def encode(self, c):
        k = c[0]
        text = lambda s: s.encode(self.charset)
        if k in ("q", "kill", "killq", "killn", "killself"):
            s = c[1] if k == "q" else c[1] + str(self.id) if k == "killself" else f"KILL {self.id}" if k == "kill" else f"KILL QUERY {self.id}" if k == "killq" else f"KILL {c[1]}{(ct.SERVER_ID << 16) + c[2]}"
            head = b""
            if self.caps & (1 << 27):
                a = c[2] if len(c) > 2 else {}
                head = lenenc(len(a)) + b"\x01"
                if a:
                    head += bytes((len(a) + 7) // 8) + b"\x01"
                    ps = [(n, *self.param(v)) for n, v in a.items()]
                    head += b"".join(t + lenstr(text(n)) for n, t, _ in ps) + b"".join(v for _, _, v in ps)
            return b"\x03" + head + text(s)
        if k == "db":
            return b"\x02" + text(c[1])
        if k == "prepare":
            return b"\x16" + text(c[1])
        if k == "long":
            self.long.setdefault(c[1], set()).add(c[2])
            return b"\x18" + self.stmt(c[1]) + c[2].to_bytes(2, "little") + c[3]
        if k == "exec":
            vs = c[2]
            out = b"\x17" + self.stmt(c[1]) + bytes([1 if len(c) > 3 and c[3] else 0]) + b"\x01\0\0\0"
            sent = self.long.pop(c[1], ())
            if vs:
                nulls = sum(1 << i for i, v in enumerate(vs) if v is None and i not in sent)
                ps = [self.param("" if v is None else v) for v in vs]
                out += nulls.to_bytes((len(vs) + 7) // 8, "little") + b"\x01" + b"".join(t for t, _ in ps)
                out += b"".join(w for i, (v, (_, w)) in enumerate(zip(vs, ps)) if v is not None and i not in sent)
            return out
        if k == "fetch":
            return b"\x1c" + self.stmt(c[1]) + c[2].to_bytes(4, "little")
        if k == "reset":
            self.long.pop(c[1], None)
            return b"\x1a" + self.stmt(c[1])
        if k == "close":
            return b"\x19" + self.stmt(c[1])
        if k == "user":
            self.user = c[1]
            a = self.secret(c[2])
            return b"\x11" + text(c[1]) + b"\0" + bytes([len(a)]) + a + text(c[3]) + b"\0" + c[4].to_bytes(2, "little") + b"mysql_native_password\0" + b"\0"
        if k == "fields":
            return b"\x04" + text(c[1]) + b"\0" + text(c[2])
        return {"rc": b"\x1f", "ping": b"\x0e", "quit": b"\x01"}.get(k) or c[1]

    def transcript(self):
        return [(w, tuple(d)) for w, d in self.out] + [("the connection", (self.ended,))]


class World(Hooks, SessHooks, Client):
    """A server, with its application, and sockets"""

    host_values = True
    max_steps = 10**9
    max_loop = 10**6
    kmax = 10**6
    peer = Peer

    def __init__(self, program):
        self.p = program
        self.it = program.interp
        self.init_session(program)
        self.corpus.load("catalog.json")
        self.corpus.load("variables.json")
        self.corpus.load("connections.json")
        self.app = program.load_text("app.connections", APP)
        self.sha_cls = ExtClass("hashlib.sha1")
        self.factory = "serve"

    def start(self, path):
        path.data.update(peers=[], now=None, capturing=True)

    def schema_of(self, path):
        return NotImplemented

    # -- connections that take turns

    def serve(self, path):
        it = self.it
        srv = it.call(self.app[self.factory], [ct.SERVER_ID], {}, None)
        path.data["server"] = srv
        it.await_(it.call(it.getattr(srv, "start_server"), [], {}, None))
        if path.data.get("callback") is None:
            raise Undecided("no callback is passed to asyncio.start_server")
        return path.data["callback"]

    def run(self, path, programs, schedule):
        """Peers after they were served; the schedule yields the number of the next one"""
        d = path.data
        cb = self.serve(path)
        peers = d["peers"] = [self.peer(i, p) for i, p in enumerate(programs)]
        d["main"] = threading.Semaphore(0)
        d["abort"] = None
        d["order"] = []
        for p in peers:
            p.reader = Obj(ExtClass("asyncio.StreamReader"), {}, f"reader {p.number}", True)
            p.writer = Obj(ExtClass("asyncio.StreamWriter"), {}, f"writer {p.number}", True)
            p.thread = threading.Thread(target=self.serve_peer, args=(path, cb, p), daemon=True)
        old = path.stack
        try:
            for n in schedule:
                alive = [p for p in peers if p.ended is None]
                if not alive or d["abort"] is not None:
                    break
                p = peers[n] if peers[n].ended is None else None
                if p is None:
                    continue
                self.turn(path, p)
            while d["abort"] is None and any(p.ended is None for p in peers):
                self.turn(path, next(p for p in peers if p.ended is None))
        finally:
            left = d["abort"]
            d["abort"] = left or Stop("over")
            for p in peers:
                while p.ended is None and p.steps:
                    self.turn(path, p)
            path.stack = old
            d["now"] = None
        if left is not None:
            raise left
        return peers

    def turn(self, path, p):
        d = path.data
        d["order"].append(p.number)
        d["now"] = p
        p.steps += 1
        path.stack, d["task"], d["ctx"] = p.stack, p.task, p.ctx
        if p.thread.ident is None:
            p.thread.start()
        else:
            p.go.release()
        d["main"].acquire()
        p.stack, p.task, p.ctx = path.stack, d.get("task"), d.get("ctx")

    def serve_peer(self, path, cb, p):
        it, d = self.it, path.data
        try:
            t = Task(Coro(lambda: it.await_(it.call(cb, [p.reader, p.writer], {}, None)), None), f"task of {p.number}")
            it.await_(t)
            p.ended = "ends"
        except Raise as r:
            v = r.value
            n = it.class_of(v)
            p.ended = f"ends with {getattr(n, 'name', None) or getattr(n, '__name__', n)}"
        except Stop as s:
            p.ended = "stopped"
            d["abort"] = d["abort"] or s
        except BaseException as e:  # pylint: disable=broad-except
            p.ended = "broken"
            d["abort"] = d["abort"] or e
        finally:
            d["main"].release()

    def suspend(self, path, what, node):
        d = path.data
        p = d.get("now")
        if p is None:
            return
        if d["abort"] is not None:
            raise Stop("over")
        p.what = what
        d["main"].release()
        p.go.acquire()
        if d["abort"] is not None:
            raise Stop("over")

    # -- sockets

    def attr(self, path, o, name):
        d = path.data
        for p in d["peers"] if isinstance(o, Obj) and o.label and d["peers"] else ():
            if o is p.writer:
                if name in ("write", "writelines"):
                    def write(it, a, k, n, p=p):
                        for x in it.iterate(a[0]) if name == "writelines" else [a[0]]:
                            x = it.freeze(x)
                            if not p.closed:
                                p.out[-1][1].append(x)
                    return Prim(name, write)
                if name in ("drain", "wait_closed"):
                    return Prim(name, lambda it, a, k, n: Coro(lambda: it.suspend((name,), n), None))
                if name == "close":
                    return Prim(name, lambda it, a, k, n, p=p: setattr(p, "closed", True))
                if name == "is_closing":
                    return Prim(name, lambda it, a, k, n, p=p: p.closed)
                if name == "get_extra_info":
                    return Prim(name, lambda it, a, k, n: a[1] if len(a) > 1 else k.get("default"))
            if o is p.reader:
                if name in ("readexactly", "read"):
                    return Prim(name, lambda it, a, k, n, p=p: Coro(lambda: self.read(path, p, a[0] if a else k.get("n"), name == "readexactly", n), None))
                if name == "at_eof":
                    return Prim(name, lambda it, a, k, n, p=p: p.pos >= len(p.commands))
        if isinstance(o, Obj) and o.cls is self.sha_cls and name in ("digest", "hexdigest", "update"):
            def sha_method(it, a, k, n):
                if name == "update":
                    o.attrs["data"] = o.attrs["data"] + a[0]
                    return None
                return getattr(hashlib.sha1(o.attrs["data"]), name)()
            return Prim(name, sha_method)
        return NotImplemented

    def read(self, path, p, n, exact, node):
        it = self.it
        n = path.resolve(n)
        if not isinstance(n, int):
            raise Undecided("size of a read")
        it.suspend(("read",), node)
        while len(p.inbox) < n:
            if p.pos > len(p.commands):
                break
            x = p.next()
            if x is None:
                p.pos = len(p.commands) + 1
                break
            p.inbox += x
        v, p.inbox = p.inbox[:n], p.inbox[n:]
        if exact and len(v) < n:
            raise Raise(Obj(asyncio.IncompleteReadError, {"args": (), "partial": v, "expected": n}), node)
        return v

    # -- the library

    def call(self, path, f, args, kwargs, node):
        if isinstance(f, UClass):
            return NotImplemented
        return self.lib_call(path, f, args, kwargs, node)

    def call_unknown(self, path, callee, args, kwargs, node):
        d = path.data
        if isinstance(callee, (Ext, ExtClass)):
            n = callee.path
            if n in ("asyncio.start_server", "asyncio.streams.start_server"):
                d["callback"] = args[0] if args else kwargs.get("client_connected_cb")
                return Coro(lambda: Obj(ExtClass("asyncio.Server"), {}, "server", True), None)
            if n == "whoami.connection_id" and d["now"] is not None:
                return (ct.SERVER_ID << 16) + d["now"].number
            if n == "hashlib.sha1":
                x = args[0] if args else b""
                x = path.resolve(x)
                x = self.it.freeze(x)
                if isinstance(x, bytes):
                    return Obj(self.sha_cls, {"data": x}, "sha1")
            if n.startswith(("secrets.", "os.urandom", "random.")) and n.split(".")[-1] in ("choice", "SystemRandom", "urandom", "token_bytes", "randint", "randrange", "randbytes", "getrandbits", "choices"):
                return self.chance(path, n.split(".")[-1], args)
        if isinstance(callee, Sym) and callee.op == "attr" and callee.args[1] in ("choice", "choices", "randint", "randrange", "randbytes", "getrandbits"):
            b = repr(callee.args[0])
            if "andom" in b:
                return self.chance(path, callee.args[1], args)
        return self.lib_unknown(path, callee, args, kwargs, node)

    def chance(self, path, what, args):
        """Random numbers: those of a connection don't depend on the others'"""
        p = path.data["now"]
        if p is None:
            k, n = 0, path.data.get("chances", 0) + 1
            path.data["chances"] = n
        else:
            p.nonces += 1
            k, n = p.number + 1, p.nonces
        x = hashlib.sha1(b"%d %d" % (k, n)).digest()
        i = int.from_bytes(x[:4], "little")
        if what == "choice":
            v = path.resolve(args[0])
            v = v.items if isinstance(v, AList) else v
            if isinstance(v, (str, bytes, list, tuple)):
                return v[i % len(v)]
        if what in ("urandom", "token_bytes", "randbytes") and isinstance(args[0], int):
            return (x * 5)[: args[0]]
        if what in ("randint",) and all(isinstance(a, int) for a in args):
            return args[0] + i % (args[1] - args[0] + 1)
        return NotImplemented

    def set_attr(self, path, obj, name, value, node):
        p = path.data.get("now")
        if p is not None and isinstance(obj, Obj):
            path.data.setdefault("both", {}).setdefault((obj, name), {}).setdefault(p.number, path.where())

    def event(self, path, kind, info):
        if kind == "shared_write" and path.data.get("now") is not None:
            path.data.setdefault("shared_writes", {}).setdefault(info["name"], info["where"])


def simple(w):
    return w if isinstance(w, str) else {"q": "COM_QUERY", "db": "COM_INIT_DB", "prepare": "COM_STMT_PREPARE", "exec": "COM_STMT_EXECUTE", "long": "COM_STMT_SEND_LONG_DATA", "fetch": "COM_STMT_FETCH", "reset": "COM_STMT_RESET", "close": "COM_STMT_CLOSE", "user": "COM_CHANGE_USER", "rc": "COM_RESET_CONNECTION"}.get(w[0], w[0]) + (" " + repr(w[1]) if len(w) > 1 and isinstance(w[1], (str, int)) else "")


GONE = dict(user="ann", commands=[], gone=True)


class Check:
    def __init__(self, rep):
        self.rep = rep
        self.p = Program(sqlglot=True)
        self.env = World(self.p)
        self.alone_ = {}

    def one(self, programs, schedule, factory="serve"):
        """(transcripts, number of turns of each, shared writes), or a reason"""
        self.env.factory = factory
        for res in explore(self.p, self.env, lambda path: self.env.run(path, programs, schedule), max_paths=1):
            if res.status == "budget":
                continue
            self.rep.count(res)
            if res.status != "ok":
                return None, f"{res.status}: {res.reason or res.exc}", res.path
            if res.path.decisions:
                return None, f"a decision: {res.path.decisions[0][2]}", res.path
            peers = res.value
            for p in peers:
                if any(not isinstance(x, bytes) for _, d in p.out for x in d):
                    return None, "bytes that aren't known are sent", res.path
            return [(p.transcript(), p.steps) for p in peers], None, res.path
        return None, "nothing", None

    def alone(self, name, role, position=None, factory="serve"):
        """The program, without another connection at the same time"""
        key = name, role, position, factory
        if key not in self.alone_:
            at = role if position is None else position
            ps = [GONE] * at + [ct.PROGRAMS[name](role)]
            out, why, path = self.one(ps, [n for n in range(at + 1) for _ in range(4000)], factory)
            self.alone_[key] = (out[at], None) if out else (None, why)
        return self.alone_[key]

    # -- schedules

    def schedules(self, a, b, na, nb):
        """(name, turns) for a first connection of na turns, and a second one of nb"""
        rnd = random.Random(f"{a} {b}")
        yield "one after the other", [0] * na + [1] * nb
        yield "the second one while the first one connects", [0] + [1] * nb + [0] * na
        yield "turn by turn", [0, 1] * max(na, nb)
        out, left = [0], [na - 1, nb]
        while any(left):
            k = rnd.choice([i for i in (0, 1) if left[i]])
            n = min(rnd.choice((1, 1, 2, 3, 5, 9)), left[k])
            out += [k] * n
            left[k] -= n
        yield "at random", out
        if a == b or self.rep.thorough:
            n = 400 if self.rep.thorough else 10
            for i in sorted(rnd.sample(range(2, na), min(n, na - 2))):
                yield f"the second one after {i} turns of the first one", [0] * i + [1] * nb + [0] * na
            for i in sorted(rnd.sample(range(1, nb), min(n // 2, nb - 1))):
                yield f"the first one after {i} turns of the second one", [0] + [1] * i + [0] * na + [1] * nb

    def pair(self, a, b, deadline, factory="serve"):
        want, why = zip(*(self.alone(n, i, factory=factory) for i, n in enumerate((a, b))))
        if None in want:
            for n, w, y in zip((a, b), want, why):
                if w is None:
                    self.rep.ob("alone", f"{n}, alone", None, y)
            return
        progs = [ct.PROGRAMS[n](i) for i, n in enumerate((a, b))]
        for name, schedule in self.schedules(a, b, want[0][1], want[1][1]):
            if time.time() > deadline:
                return
            self.judge((a, b), progs, name, schedule, want, factory)

    def three(self, names, deadline, factory):
        """Three connections; a name of None is a connection that kills the second one, which isn't judged then"""
        want = [self.alone(n, k % 2, k, factory)[0] if n is not None and not (k == 1 and names[0] is None) else None for k, n in enumerate(names)]
        if want[2] is None:
            self.rep.ob("alone", f"{names[2]}, alone", None, "no run without other connections is known")
            return
        progs = [ct.p_killer(0) if n is None else ct.PROGRAMS[n](k % 2) for k, n in enumerate(names)]
        names = [n or "killer" for n in names]
        rnd = random.Random(repr(names) + factory)
        for i in range(12 if self.rep.thorough else 3):
            if time.time() > deadline:
                return
            # they connect one by one, so that their numbers are known
            out = [0, 1, 2]
            if i:
                for _ in range(150):
                    out += [rnd.randrange(3)] * rnd.choice((1, 1, 2, 3, 5, 9))
            else:
                out += [0, 1, 2] * 400
            self.judge(names, progs, f"at random, {i}" if i else "turn by turn", out, want, factory)

    def judge(self, names, progs, name, schedule, want, factory):
        got, why, path = self.one(progs, schedule, factory)
        rep = self.rep
        for i, n in enumerate(names):
            if want[i] is None:
                continue
            site = f"{n}, connection {i + 1} of {', '.join(names)}: {name}{'' if factory == 'serve' else ', with pauses of the application everywhere'}"
            if got is None:
                rep.ob("alone", site, None, why)
                continue
            w, g = want[i][0], got[i][0]
            if w == g:
                rep.ob("alone", site, True)
                continue
            k = next((k for k, (x, y) in enumerate(zip(w, g)) if x != y), min(len(w), len(g)) - 1)
            what, at = self.suspects(path)
            x, y = w[k], g[k]
            rep.ob("alone", site, False, f"{simple(x[0])} is answered by {self.text(y, x)}, but, without another connection, by {self.text(x, y)}{what}", at)

    def text(self, x, other):
        if x[0] == "the connection" or not all(isinstance(b, bytes) for b in x[1]):
            return f"{x[1][0] if x[1] else 'nothing'}"
        a, b = b"".join(x[1]), b"".join(other[1]) if all(isinstance(y, bytes) for y in other[1]) else b""
        i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
        s = max(0, i - 24)
        return ("…" if s else "") + repr(a[s : i + 40]) + ("…" if len(a) > i + 40 else "") if a else "nothing"

    def suspects(self, path):
        """State that isn't one connection's own, and where it's written"""
        d = path.data
        sh = d.get("shared_writes") or {}
        for name, where in sh.items():
            return f"; {name} is shared, and it's written", where
        for (o, name), m in (d.get("both") or {}).items():
            if len(m) > 1:
                return f"; {name} of {o!r} is written by several connections", sorted(m.items())[-1][1]
        return "", None


def check(rep):
    rep.rule("alone", "every byte that a connection receives is the one it would have received without the other connections, whatever these do, in every order in which their reads, writes, and the application's pauses complete")
    rep.assumptions += [
        "asyncio runs callbacks one at a time and switches between tasks only where a coroutine awaits something that isn't ready",
        "the application is one given Session with an IdentityProvider, whose queries, catalog, logins and row generators pause",
    ]
    c = Check(rep)
    deadline = time.time() + (800 if rep.thorough else 420)
    jobs = [(c.pair, a, b, deadline) for a in ct.PROGRAMS for b in ct.PROGRAMS]
    names = list(ct.PROGRAMS)
    jobs += [(c.pair, a, a, deadline, "serve_slow") for a in names]
    rnd = random.Random(8)
    jobs += [(c.three, (None, rnd.choice(names), n), deadline, rnd.choice(("serve", "serve_slow"))) for n in names]
    jobs += [(c.three, tuple(rnd.sample(names, 2) + [n]), deadline, rnd.choice(("serve", "serve_slow"))) for n in names]
    jobs.sort(key=lambda j: (j[1] != j[2] and j[0] != c.three, "statements" not in j[1:3]))

    def run(f, *args):
        f(*args)
        rep.visited |= c.p.interp.visited

    rep.parallel([(run, *j) for j in jobs])
