"""C02: a password proof is accepted iff it fits this connection's nonce and secret"""
from __future__ import annotations

import math

from ..models import P, byte_list, from_byte_list
from .conn import *
from . import evalterm
from .reply import Bad, Rd, Unknown

NATIVE = "mysql_mimic.auth.NativePasswordAuthPlugin"
CLEAR = "mysql_mimic.auth.AbstractClearPasswordAuthPlugin"
NOLOGIN = "mysql_mimic.auth.NoLoginAuthPlugin"
USER = "mysql_mimic.auth.User"
HASH, RNG = ExtClass("hashlib.HASH"), ExtClass("random.Random")


def strip_text(x):
    while isinstance(x, Sym) and x.op == "m" and x.args[0] in ("lower", "upper", "strip", "encode"):
        x = x.args[1]
    return x


class Crypto(ConnEnv):
    """SHA1, hexadecimal digits and random numbers as terms"""

    max_loop = 300
    max_steps = 2_000_000

    # -- random numbers

    def draw(self, path, dom, seed=None):
        """A random item of dom (seed: the generator isn't random)"""
        if seed is not None:
            k = path.data["draws"] = path.data.get("draws", 0) + 1
            return Sym("prng", self.it.freeze(seed), k, ty="int")
        x = Sym("rnd", path.fresh(), ty="str" if dom and all(isinstance(c, str) for c in dom) else "int")
        path.data.setdefault("dom", {})[x] = dom
        if x.ty == "str":
            path.eqs[Sym("len", x, ty="int")] = 1
        elif dom:
            path.set_interval(x, min(dom), max(dom))
        return x

    def rbytes(self, path, n):
        n = path.resolve(n)
        if not isinstance(n, int) or n > 4096:
            raise Undecided("random bytes")
        return from_byte_list(self.it, [self.draw(path, tuple(range(256))) for _ in range(n)])

    def random_fn(self, path, name, a, k, node, seed=None):
        it = self.it
        if name == "choice":
            xs = it.items(path.resolve(a[0]))
            if any(isinstance(x, AV) for x in xs):
                raise Undecided("choice")
            return self.draw(path, tuple(dict.fromkeys(xs)), seed)
        if name in ("choices", "sample"):
            xs = it.items(path.resolve(a[0]))
            n = path.resolve(k.get("k", a[-1] if name == "sample" else 1))
            if any(isinstance(x, AV) for x in xs) or not isinstance(n, int):
                raise Undecided("choices")
            return AList([self.draw(path, tuple(dict.fromkeys(xs)), seed) for _ in range(n)])
        if name in ("randint", "randrange", "randbelow"):
            a = [path.resolve(x) for x in a]
            if not all(isinstance(x, int) for x in a) or not a:
                raise Undecided(name)
            lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1] + (name == "randint"))
            if hi - lo > 1 << 16:
                return Sym("rnd", path.fresh(), ty="int")
            return self.draw(path, tuple(range(lo, hi)), seed)
        if name in ("randbytes", "token_bytes", "urandom"):
            if seed is not None:
                return from_byte_list(it, [self.draw(path, tuple(range(256)), seed) for _ in range(path.resolve(a[0]))])
            return self.rbytes(path, a[0] if a else 32)
        if name == "token_hex":
            n = path.resolve(a[0] if a else 32)
            return cat("", *[self.draw(path, tuple("0123456789abcdef")) for _ in range(2 * n)])
        if name in ("shuffle", "seed"):
            raise Undecided("random." + name)
        return NotImplemented

    def call_unknown(self, path, f, a, k, node):
        it = self.it
        name = f.path if isinstance(f, (Ext, ExtClass)) else None
        if name is None:
            return super().call_unknown(path, f, a, k, node)
        if name in ("hashlib.sha1", "_hashlib.openssl_sha1", "hashlib.new", "hashlib.md5", "hashlib.sha256", "hashlib.sha512"):
            alg = name.rsplit(".", 1)[1]
            a = list(a)
            if alg == "new":
                alg = path.resolve(a.pop(0))
            o = Obj(HASH, {"alg": alg, "buf": ABuf()}, "hash", True)
            if a:
                it.call(self.hash_attr(path, o, "update"), a[:1], {}, node)
            return o
        if name in ("builtins.bytes.fromhex", "binascii.unhexlify", "binascii.a2b_hex", "builtins.bytearray.fromhex"):
            return self.unhex(path, path.resolve(a[0]), node)
        if name in ("binascii.hexlify", "binascii.b2a_hex"):
            return Sym("m", "encode", Sym("m", "hex", it.freeze(a[0]), ty="str"), "ascii", "strict", ty="bytes")
        if name in ("hmac.compare_digest", "secrets.compare_digest"):
            return it.compare("==", a[0], a[1])
        if name in ("random.SystemRandom", "random.Random"):
            seed = None
            if name == "random.Random" and a:
                seed = path.resolve(a[0])
            return Obj(RNG, {"seed": seed}, "rng", True)
        if name.startswith(("random.", "secrets.", "os.urandom")):
            r = self.random_fn(path, name.rsplit(".", 1)[1], list(a), dict(k), node)
            if r is not NotImplemented:
                return r
        return super().call_unknown(path, f, a, k, node)

    def hash_attr(self, path, o, name):
        it = self.it
        if name == "update":
            return P(lambda it, a, k, n: o.attrs["buf"].parts.append(it.freeze(path.resolve(a[0]))))
        if name == "copy":
            return P(lambda it, a, k, n: Obj(HASH, {"alg": o.attrs["alg"], "buf": ABuf(o.attrs["buf"].parts)}, "hash", True))
        if name in ("digest", "hexdigest"):
            def fin(it, a, k, n):
                b = cat(*o.attrs["buf"].parts) if o.attrs["buf"].parts else b""
                d = Sym("hash", o.attrs["alg"], b, ty="bytes")
                path.eqs[Sym("len", d, ty="int")] = {"sha1": 20, "md5": 16, "sha256": 32, "sha512": 64}.get(o.attrs["alg"], 20)
                return d if name == "digest" else Sym("m", "hex", d, ty="str")
            return P(fin)
        if name == "digest_size":
            return 20
        return NotImplemented

    def attr(self, path, o, name):
        if isinstance(o, Obj) and o.cls is HASH:
            r = self.hash_attr(path, o, name)
            if r is not NotImplemented:
                return r
        if isinstance(o, Obj) and o.cls is RNG:
            return P(lambda it, a, k, n: self.rng(path, o, name, a, k, n))
        return super().attr(path, o, name)

    def rng(self, path, o, name, a, k, n):
        r = self.random_fn(path, name, list(a), dict(k), n, o.attrs["seed"])
        if r is NotImplemented:
            raise Undecided("random." + name)
        return r

    def unhex(self, path, v, node):
        if isinstance(v, (str, bytes)):
            try:
                return bytes.fromhex(v if isinstance(v, str) else v.decode())
            except ValueError as e:
                self.it.throw(ValueError, str(e), node=node)
        base = strip_text(v)
        kind = path.data.get("hashes", {}).get(base)
        if kind == "bad":
            self.it.throw(ValueError, "non-hexadecimal number", node=node)
        r = Sym("fromhex", base, ty="bytes")
        n = {"good": 20, "short": 5}.get(kind)
        if n is not None:
            path.eqs[Sym("len", r, ty="int")] = n
        return r

    def pure(self, path, o, name, a, k, node):
        it = self.it
        if name in ("rstrip", "strip", "lstrip") and isinstance(o, (Sym, ABuf)):
            xs = byte_list(it, o) if not isinstance(o, Sym) or o.ty == "bytes" else None
            c = path.resolve(a[0]) if a else b" \t\n\r\v\f"
            if xs is not None and isinstance(c, bytes):
                lo, hi = 0, len(xs)
                def strips(x):
                    if isinstance(x, int):
                        return x in c
                    r = [self.is_byte(path, x, q) for q in c]
                    if all(y is False for y in r):
                        return False
                    return None
                while name in ("rstrip", "strip") and hi > lo:
                    s = strips(xs[hi - 1])
                    if s is None:
                        s = it.path.choose(2, f"byte {hi - 1} is stripped") == 0
                    if not s:
                        break
                    hi -= 1
                while name in ("lstrip", "strip") and hi > lo:
                    s = strips(xs[lo])
                    if s is None:
                        s = it.path.choose(2, f"byte {lo} is stripped") == 0
                    if not s:
                        break
                    lo += 1
                return from_byte_list(it, xs[lo:hi])
        if name == "encode" and isinstance(o, Sym) and (o.op == "rnd" or o.op == "cat" and all(isinstance(q, Sym) and q.op == "rnd" or isinstance(q, str) for q in o.args)):
            out = []
            for q in parts(o):
                if isinstance(q, str):
                    out += list(q.encode())
                    continue
                dom = path.data["dom"].get(q)
                if not dom or any(ord(c) > 127 for c in dom):
                    return NotImplemented
                b = Sym("ordof", q, ty="int")
                path.data["dom"][b] = tuple(ord(c) for c in dom)
                path.set_interval(b, min(map(ord, dom)), max(map(ord, dom)))
                out.append(b)
            return from_byte_list(it, out)
        if name == "hex" and isinstance(o, Sym) and o.ty == "bytes" and not a:
            return Sym("m", "hex", o, ty="str")
        return NotImplemented

    def is_byte(self, path, x, c):
        """Is the byte x equal to c?  None: maybe"""
        if isinstance(x, int):
            return x == c
        dom = path.data.get("dom", {}).get(x)
        if dom is not None:
            if c not in dom:
                return False
            lo, hi = path.interval(x)
            return None if lo <= c <= hi else False
        if isinstance(x, Sym) and x.op == "item" and bytes([c]) in path.data.get("free", {}).get(x.args[0], ()):
            return False
        lo, hi = path.interval(x)
        return None if lo <= c <= hi else False


def entropy(path, xs):
    """Bits of randomness of a byte string; None: unknown"""
    seen, bits = set(), 0.0
    doms = path.data.get("dom", {})
    for x in xs:
        if isinstance(x, int):
            continue
        found = False
        for t in terms(x):
            if t.op == "prng":
                found = True
            if t.op in ("rnd",):
                found = True
                if t not in seen:
                    seen.add(t)
                    bits += math.log2(max(len(doms[t]), 1)) if t in doms else 32
        if not found:
            return None
    return bits


class AuthEnv(Crypto):
    """The conversation: path.data["plan"] says what the client sends"""

    app_outcomes = {}
    user_outcomes = ("user",)
    kmax = 1

    def start(self, path):
        path.data.update(phase="handshake", sent=[], compared=[], free={}, scope=None)

    # -- identity provider with real plugins

    def idp_call(self, path, name, f, args, kwargs, node):
        d = path.data
        if name == "get_default_plugin":
            return d["default"]
        if name == "get_plugin":
            k = path.resolve(args[1] if len(args) > 1 else kwargs.get("name"))
            for pl in d["plugins"]:
                if self.it.getattr(pl, "name") == k:
                    return pl
            return None
        if name == "get_plugins":
            return AList(d["plugins"])
        if name == "get_user":
            path.emit("get_user", name=args[1] if len(args) > 1 else kwargs.get("username"))
            return d["user"]
        return NotImplemented

    def new_plugin(self, path, q):
        cls = self.p.need(q)
        if q == CLEAR:
            cls = UClass("AppClearPlugin", [cls], {}, cls.module, "app.AppClearPlugin")
            path.data["clear_cls"] = cls
        return self.it.call(cls, [], {}, None)

    def call(self, path, f, args, kwargs, node):
        if isinstance(f, Func) and f.name == "check" and args and isinstance(args[0], Obj) and args[0].cls is path.data.get("clear_cls"):
            loc = self.it.bind(f, args, kwargs, node)
            ns = [a.arg for a in f.node.args.args]
            def run():
                path.emit("check", username=loc[ns[1]], password=loc[ns[2]])
                ok = path.choose(2, "check() accepts the password") == 0
                v = Sym("atom", "identity", ty="str") if ok else None
                path.data["checked"] = (loc[ns[1]], loc[ns[2]], v)
                return v
            return run()
        return super().call(path, f, args, kwargs, node)

    def charset_call(self, path, name, f, args, kwargs, node):
        if name in ("encode", "decode") and len(args) >= 2:
            v = path.resolve(args[1])
            if name == "encode" and isinstance(v, str) and v.isascii():
                return v.encode()
            if name == "decode" and isinstance(v, bytes) and v.isascii():
                return v.decode()
        return super().charset_call(path, name, f, args, kwargs, node)

    # -- the client

    def parse_call(self, path, name, f, args, kwargs, node):
        d = path.data
        loc = self.it.bind(f, args, kwargs, node)
        data = loc.get("data")
        msg = d.get("messages", {}).get(data if not isinstance(data, ABuf) else cat(*data.parts))
        if msg is None:
            return NotImplemented
        ret = f.node.returns
        cls = None
        for c in ("HandshakeResponse41", "ComChangeUser"):
            if c in ast.unparse(ret):
                cls = self.p.need("mysql_mimic.packets." + c)
        if cls is None:
            return NotImplemented
        o = self.opaque(path, cls, name)
        for k, v in msg.items():
            if k in o.attrs:
                o.attrs[k] = v
        path.emit("parsed", name=name)
        return o

    def message(self, path, label, **fields):
        x = Sym("atom", label, ty="bytes")
        path.data.setdefault("messages", {})[x] = fields
        return x

    def scramble(self, path, label, n):
        x = Sym("atom", label, ty="bytes")
        path.eqs[Sym("len", x, ty="int")] = n
        return x if n else b""

    def next_read(self, path, n):
        d = path.data
        if d["phase"] == "handshake" and not d.get("greeted"):
            d["greeted"] = True
            d["exchange"] = []
            m = d["plan"][0]
            d["response"], d["username"] = m["response"], m["username"]
            return self.message(path, "handshake response", auth_response=m["response"], client_plugin=m["plugin"], username=m["username"],
                                capabilities=self.caps_const(path), connect_attrs=ADict({}), database=None)
        if d.get("switched"):
            # the answer to an auth switch or to more data
            d["switched"] = False
            k = d["answers"] = d.get("answers", 0) + 1
            d["response"] = self.answer(path, k)
            return d["response"]
        i = d["i"] = d.get("i", 0) + 1
        if i < len(d["plan"]):
            m = d["plan"][i]
            d["exchange"] = []
            d["change_user"] = True
            d["response"], d["username"] = m["response"], m["username"]
            d["compared"] = []
            d.pop("checked", None)
            x = self.message(path, f"change user {i}", auth_response=m["response"], client_plugin=m["plugin"], username=m["username"], connect_attrs=ADict({}), database=None)
            return cat(b"\x11", x)
        return None

    def answer(self, path, k):
        n = path.data["answer_len"]
        x = self.scramble(path, f"answer {k}", n)
        if path.data.get("answer_text") is not None:
            return path.data["answer_text"](x)
        return x

    def caps_const(self, path):
        return Sym("atom", "client capabilities", ty=self.caps_cls)

    def wrote(self, path, pkt, drain, node):
        d = path.data
        b = first_byte(pkt)
        if not d.get("greeted") and d["phase"] == "handshake" and "greeting" not in d:
            d["greeting"] = pkt
            self.on_greeting(path, pkt)
            return
        if d["exchange"] is None:
            return
        if b == 0xFE:
            r = Rd(pkt)
            r.uint(1)
            rest = byte_list(self.it, r.rest())
            # plugin name, NUL, data
            if rest is None or 0 not in rest:
                raise Undecided("auth switch request")
            i = rest.index(0)
            d["switch_name"] = bytes(rest[:i]) if all(isinstance(x, int) for x in rest[:i]) else None
            self.on_challenge(path, rest[i + 1 :], "auth switch request")
            d["switched"] = True
        elif b == 0x01:
            self.on_challenge(path, byte_list(self.it, self.it.getslice(pkt, slice(1, None))), "auth more data")
            d["switched"] = True
        elif b in (0x00, 0xFF):
            self.end(path, b == 0)

    def on_greeting(self, path, pkt):
        r = Rd(pkt)
        r.uint(1)
        # server version: up to a NUL
        q = r.q
        while q:
            x = q.pop()
            if isinstance(x, bytes) and 0 in x:
                rest = x[x.index(0) + 1 :]
                if rest:
                    q.append(rest)
                break
        try:
            r.uint(4)
            body = self.it.freeze(r.rest())
        except (Unknown, Bad):
            raise Undecided("handshake packet")
        xs = byte_list(self.it, body)
        if xs is None:
            # what follows the challenge is of unknown length
            xs = []
            for q in parts(body):
                y = byte_list(self.it, q)
                if y is None:
                    break
                xs += y
        if len(xs) < 8 + 1 + 2 + 1 + 2 + 2 + 1 + 10 + 13:
            raise Undecided("handshake packet")
        p1 = xs[:8]
        n = xs[8 + 1 + 2 + 1 + 2 + 2]
        p2 = xs[8 + 1 + 2 + 1 + 2 + 2 + 1 + 10 :]
        p2 = p2[: max(13, (n if isinstance(n, int) else 21) - 8)]
        path.data["greeting_filler"] = xs[8]
        path.data["greeting_len"] = n
        self.on_challenge(path, p1 + p2, "handshake")

    def on_challenge(self, path, xs, where):
        d = path.data
        if xs is None:
            raise Undecided("challenge")
        d.setdefault("challenges", []).append((tuple(xs), where))
        if where != "handshake":
            d["exchange"].append(tuple(xs))
        path.emit("challenge", data=tuple(xs), how=where)

    def end(self, path, ok):
        """The exchange ended"""
        d = path.data
        if d["exchange"] is None:
            return
        ex, d["exchange"] = d["exchange"], None
        path.emit("verdict", ok=ok)
        self.verdict(path, ok, ex)

    def verdict(self, path, ok, exchange):
        pass

    def app_event(self, path, name, args, kwargs):
        if name == "init":
            path.data["phase"] = "commands"

    def decide(self, path, sym):
        d = path.data
        if sym.op == "hasflag":
            return bool(sym.args[1] & self.base_caps)
        if sym in d.get("hashes", {}):
            return True
        if sym.op == "cmp" and sym.args[0] == "==":
            r = self.compare(path, sym.args[1], sym.args[2])
            if r is not None:
                return r
        if sym.op == "in":
            c = sym.args[0]
            if isinstance(sym.args[1], Sym) and sym.args[1].ty == "bytes":
                c = c[0] if isinstance(c, bytes) and len(c) == 1 else c
                xs = byte_list(self.it, sym.args[1])
                if isinstance(c, int) and xs is not None and all(self.is_byte(path, x, c) is False for x in xs):
                    return False
        if sym.op == "isnone" and not isinstance(sym.args[0], Sym):
            return None
        return super().decide(path, sym)

    def compare(self, path, a, b):
        """A comparison of byte strings (or hexadecimal digits) while the response is judged"""
        d = path.data
        it = self.it
        hexa = [x for x in (a, b) if isinstance(x, Sym) and x.op == "m" and x.args[0] == "hex"]
        if hexa:
            for x in (a, b):
                x = path.resolve(x)
                if isinstance(x, (str, bytes)):
                    return False  # a preimage of a constant, or no digest at all
                if d.get("hashes", {}).get(strip_text(x)) in ("bad", "short"):
                    return False
            a, b = [x.args[1] if isinstance(x, Sym) and x.op == "m" and x.args[0] == "hex" else self.as_hash(path, x) for x in (a, b)]
            if a is None or b is None:
                return None
        isb = lambda x: isinstance(x, bytes) or isinstance(x, Sym) and (x.ty == "bytes" or x.op in ("hash", "fromhex"))
        if not (isb(a) and isb(b)):
            for x in (a, b):
                # one byte
                y = b if x is a else a
                if isinstance(y, int) and isinstance(x, Sym) and x.ty == "int" and (x in d.get("dom", {}) or x.op == "item"):
                    r = self.is_byte(path, x, y)
                    if r is not None:
                        return r
            return None
        la, lb = (path.resolve(it.length(x)) for x in (a, b))
        if isinstance(la, int) and isinstance(lb, int) and la != lb:
            return False
        if isinstance(a, bytes) or isinstance(b, bytes):
            s = b if isinstance(a, bytes) else a
            if isinstance(s, Sym) and s.op == "hash":
                return False  # a preimage of a constant
            if isinstance(s, Sym) and s.op == "fromhex" and d.get("hashes", {}).get(s.args[0]) == "good":
                c = a if isinstance(a, bytes) else b
                return False if len(c) != 20 else None
            if isinstance(s, Sym) and s.op in ("hash", "slice", "cat", "bytesof", "fromhex"):
                d["compared"].append((None, None, a, b))
            return None
        for h, e in ((a, b), (b, a)):
            if isinstance(h, Sym) and h.op == "hash" and isinstance(e, Sym) and e.op == "fromhex":
                n = path.resolve(it.length(h.args[1]))
                # the hash is that of 20 bytes
                ok = False if isinstance(n, int) and n != 20 and e.args[0] in d["secrets"].values() else path.choose(2, f"{show(h)} == {show(e)}") == 0
                pf = self.proof(path, h, e)
                d["compared"].append((pf, ok, h, e))
                path.emit("compared", proof=pf, ok=ok)
                d["where"] = path.where()
                return ok
            if all(isinstance(x, Sym) and x.op == "slice" for x in (h, e)) and all(isinstance(x.args[0], Sym) for x in (h, e)) and h.args[0].op == "hash" and e.args[0].op == "fromhex" and h.args[1:] == e.args[1:]:
                ok = path.choose(2, f"{show(h)} == {show(e)}") == 0
                d["compared"].append((f"only a part of the hash is compared: {show(h)}", ok, h, e))
                d["where"] = path.where()
                return ok
        d["compared"].append((None, None, a, b))
        return None

    def as_hash(self, path, x):
        base = strip_text(x)
        if base in path.data.get("hashes", {}):
            k = path.data["hashes"][base]
            return self.unhex(path, base, None) if k != "bad" else Sym("fromhex", base, ty="bytes")
        return None

    def proof(self, path, h, e):
        """Which secret does a comparison prove?  ("current" | "old", nonce), or a reason why it's none"""
        d, it = path.data, self.it
        name = next((k for k, v in d["secrets"].items() if v is e.args[0]), None)
        if name is None:
            return f"{show(e)} is not a hash of the account"
        if h.args[0] != "sha1":
            return f"the password is hashed with {h.args[0]}"
        xs = byte_list(it, h.args[1])
        if xs is None:
            return None
        R = d["response"]
        if len(xs) != 20:
            return f"{len(xs)} bytes are hashed"
        rs = byte_list(it, R)
        if rs is None:
            return None
        digest = None
        for i, x in enumerate(xs):
            if i >= len(rs):
                return "the response is shorter than a scramble"
            r = rs[i]
            if not (isinstance(x, Sym) and x.op == "^"):
                return f"byte {i} isn't the XOR of the response and a digest: {show(x)}"
            other = x.args[1] if x.args[0] == r else x.args[0] if x.args[1] == r else None
            if other is None:
                return f"byte {i} isn't made of byte {i} of the response: {show(x)}"
            if not (isinstance(other, Sym) and other.op == "item" and other.args[1] == i):
                return f"byte {i} isn't made of byte {i} of a digest: {show(x)}"
            if digest is None:
                digest = other.args[0]
            if other.args[0] is not digest:
                return "several digests"
        if digest.op != "hash" or digest.args[0] != "sha1":
            return f"the key is {show(digest)}"
        ks = byte_list(it, digest.args[1])
        hs = byte_list(it, e)
        if ks is None or hs is None:
            return None
        if len(ks) < 20 or ks[-20:] != hs:
            return f"the key doesn't end with the account's hash: {show(digest)}"
        return (name, tuple(ks[:-20]))


ACCOUNTS = {
    # name: (current, secondary)
    "a password": ("good", None),
    "two passwords": ("good", "good"),
    "no password": (None, None),
    "an empty password": ("", None),
    "a malformed hash": ("bad", None),
    "a malformed and a secondary hash": ("bad", "good"),
    "a short hash": ("short", None),
    "a secondary password only": (None, "good"),
    "a password and an empty secondary one": ("good", ""),
}


def make_user(path, env, account, plugin):
    cls = env.p.need(USER)
    d = path.data
    d["hashes"], d["secrets"] = {}, {}
    vals = []
    for slot, kind in zip(("current", "old"), ACCOUNTS[account]):
        if kind in ("good", "bad", "short"):
            h = Sym("atom", f"{slot} hash", ty="str")
            d["hashes"][h] = kind
            if kind == "good":
                path.eqs[Sym("len", h, ty="int")] = 40
                d["secrets"][slot] = h
            vals.append(h)
        else:
            vals.append(kind)
    d["user"] = env.it.call(cls, [], dict(name=Sym("atom", "account name", ty="str"), auth_string=vals[0], old_auth_string=vals[1], auth_plugin=plugin), None)
    return d["user"]


ROUTES = {
    # default plugin of the server, plugins the client announces, per exchange
    "optimistic handshake": (NATIVE, ["mysql_native_password"]),
    "auth switch in the handshake": (NATIVE, ["other_plugin"]),
    "continued handshake": (CLEAR, ["mysql_native_password"]),
    "auth switch from another default plugin": (CLEAR, ["mysql_clear_password"]),
    "COM_CHANGE_USER reusing the nonce of the handshake": (NATIVE, ["mysql_native_password", "mysql_native_password"]),
    "COM_CHANGE_USER with auth switch": (NATIVE, ["mysql_native_password", "other_plugin"]),
    "COM_CHANGE_USER after another default plugin": (CLEAR, ["mysql_native_password", "mysql_native_password"]),
    "COM_CHANGE_USER after an auth switch": (NATIVE, ["other_plugin", "mysql_native_password"]),
    "the second COM_CHANGE_USER": (NATIVE, ["mysql_native_password", "mysql_native_password", "mysql_native_password"]),
    "the second COM_CHANGE_USER after one with auth switch": (NATIVE, ["mysql_native_password", "other_plugin", "mysql_native_password"]),
}


def check(rep):
    p = Program()
    rep.rule("proof.sound", "native password: authentication succeeds only if the first 20 bytes of the response were compared, and found to be the scramble of one of the account's hashes under the nonce sent on this connection (or the response is empty and the account has no password)")
    rep.rule("proof.complete", "native password: authentication fails only if the response isn't the scramble of any of the account's hashes under that nonce, and isn't the empty response to an account without password")
    rep.rule("identity", "after success, the session's user is the identity the plugin vouched for; after a failure, it's not changed")
    rep.rule("nonce.shape", "challenges for native passwords are 20 bytes, none of which can be NUL, and a NUL")
    rep.rule("nonce.fresh", "the challenges of different connections and exchanges are drawn independently, with at least 100 bits of randomness")
    rep.rule("nonce.sent", "the handshake packet carries the challenge as 8 + 13 bytes and announces its length; the auth switch request names the client's plugin")
    rep.rule("clear", "clear password: authentication succeeds iff check() accepts the transmitted user name and password")
    rep.rule("nologin", "the no-login plugin never accepts")
    rep.rule("response.parse", "the authentication response, user name and plugin that are judged are those the client sent")
    rep.rule("user.lookup", "the account that's judged is that of the user name the client sent")
    for route in ROUTES:
        rep.section(native_route, rep, p, route)
    rep.section(fresh, rep, p)
    for route in ("optimistic", "switch", "change user", "change user switch"):
        rep.section(clear_route, rep, p, route)
    rep.section(nologin, rep, p)
    rep.section(parse, rep, p)


class Native(AuthEnv):
    def __init__(self, program, rep, route, account, length):
        super().__init__(program)
        self.rep, self.route, self.account, self.n = rep, route, account, length
        self.site = f"{route}: response of {length} bytes, account with {account}"

    def verdict(self, path, ok, exchange):
        d = path.data
        last = d.get("i", 0) >= len(d["plan"]) - 1
        if not last:
            return
        rep, where = self.rep, d.get("where")
        R = d["response"]
        current, old = ACCOUNTS[self.account]
        empty = isinstance(R, bytes) and not R
        without = not current
        nonces = [exchange[-1]] if exchange else [c for c, _ in d["challenges"]]
        nonces = [n[:-1] if n and n[-1] == 0 and len(n) == 21 else n for n in nonces]
        # the same for everyone
        nonces = [n for n in nonces if (entropy(path, n) if entropy(path, n) is not None else 100) >= 100]
        proofs = {}
        unknown = []
        for pf, res, h, e in d["compared"]:
            if isinstance(pf, tuple) and pf[1] in nonces:
                proofs[pf[0]] = res
            elif pf is None:
                unknown.append(f"{show(h)} == {show(e)}")
        junk = [(pf if not isinstance(pf, tuple) else f"the nonce isn't one of this exchange: {show(pf[1])}", res) for pf, res, _, _ in d["compared"] if pf is not None and not (isinstance(pf, tuple) and pf[1] in nonces)]
        if ok:
            if any(proofs.values()) or empty and without:
                rep.ob("proof.sound", self.site, True)
            elif unknown:
                rep.ob("proof.sound", self.site, None, "; ".join(unknown)[:300])
            else:
                why = next((j for j, r in junk if r), None)
                rep.ob("proof.sound", self.site, False, f"authentication succeeds though {why}" if why else "authentication succeeds without a comparison that proves the password", where=where, path=path)
        else:
            bad = None
            if empty and without:
                bad = "the empty response to an account without password is refused"
            elif self.n >= 20:
                for k in d["secrets"]:
                    if proofs.get(k) is True:
                        bad = f"the scramble of the {k} password is refused"
                    elif k not in proofs:
                        if not d["ended_by_error"]:
                            bad = bad or (None if unknown else f"the scramble of the {k} password is refused" + (f": {junk[0][0]}" if junk else ": it's never compared"))
                        else:
                            bad = bad or f"the scramble of the {k} password is never compared"
            if bad:
                rep.ob("proof.complete", self.site, False, bad, where=where, path=path)
            else:
                rep.ob("proof.complete", self.site, None if unknown and self.n >= 20 and len(proofs) < len(d["secrets"]) else True, "; ".join(unknown)[:300])
        d["judged"] = ok

    def on_challenge(self, path, xs, where):
        super().on_challenge(path, xs, where)
        d, rep = path.data, self.rep
        if where == "handshake" and self.default != NATIVE:
            return
        if where != "handshake" and d["i"] if "i" in d else False:
            pass
        site = f"{where} ({self.route})"
        shape(rep, self, path, xs, site)
        if where == "handshake":
            n, filler = d["greeting_len"], d["greeting_filler"]
            ok = (n == 21 if isinstance(n, int) else None) and (filler == 0 if isinstance(filler, int) else None)
            rep.ob("nonce.sent", site, ok, f"announced length {show(n)}, filler {show(filler)}", path=path)
        elif where == "auth switch request":
            rep.ob("nonce.sent", site, d["switch_name"] == b"mysql_native_password" if d["switch_name"] is not None else None, f"plugin {d['switch_name']!r}", path=path)


def shape(rep, env, path, xs, site):
    xs = list(xs)
    if len(xs) == 21:
        ok = env.is_byte(path, xs[20], 0)
        rep.ob("nonce.shape", site, ok, "the challenge isn't terminated", path=path)
        body = xs[:20]
    else:
        rep.ob("nonce.shape", site, False, f"a challenge of {len(xs)} bytes", path=path)
        return
    for i, x in enumerate(body):
        z = env.is_byte(path, x, 0)
        if z is None:
            known = x in path.data.get("dom", {}) or isinstance(x, Sym) and x.op == "rnd"
            rep.ob("nonce.shape", site, False if known else None, f"byte {i} may be NUL: {show(x)}", path=path)
            return
        if z:
            rep.ob("nonce.shape", site, False, f"byte {i} is NUL", path=path)
            return
    rep.ob("nonce.shape", site, True)


def native_route(rep, p, route):
    default, announced = ROUTES[route]
    lengths = [0, 1, 19, 20, 21, 40]
    for account in ACCOUNTS:
        for n in lengths:
            if account not in ("two passwords", "no password") and n in (1, 40) and not rep.thorough:
                continue
            env = Native(p, rep, route, account, n)
            env.default = default

            def run(path):
                d = path.data
                make_user(path, env, account, "mysql_native_password")
                native = env.new_plugin(path, NATIVE)
                d["plugins"] = [native, env.new_plugin(path, NOLOGIN), env.new_plugin(path, CLEAR)]
                d["default"] = next(x for x in d["plugins"] if any(getattr(c, "qual", None) == default for c in x.cls.mro()))
                user = Sym("atom", "user name", ty="str")
                d["plan"] = []
                for j, a in enumerate(announced):
                    last = j == len(announced) - 1
                    d["plan"].append(dict(plugin=a, username=user, response=env.scramble(path, f"response {j}", n if last else 20)))
                d["answer_len"] = n
                if len(announced) > 1:
                    # get past the first exchange
                    env.calm = True
                conn = env.make(path)
                d["session_before"] = path.data["session"]
                d["ended_by_error"] = False
                return env.it.await_(env.it.call(env.it.getattr(conn, "start"), [], {}, None))

            def each(res):
                path = res.path
                d = path.data
                if res.status not in ("ok", "raise"):
                    if res.status in ("undecided", "budget"):
                        rep.ob("analysis", env.site, None, res.reason or "")
                    return
                lookups = [i["name"] for k, i in path.trace if k == "get_user"]
                rep.ob("user.lookup", route, all(x is d["plan"][0]["username"] for x in lookups) if lookups else None, f"get_user({', '.join(map(show, lookups))})", path=path)
                if "judged" not in d:
                    return
                u = d["session"].attrs.get("username")
                name = d["user"].attrs["name"]
                if d["judged"]:
                    rep.ob("identity", env.site.split(":")[0], u is name, f"the session's user is {show(u)}", path=path)
                elif len(announced) == 1:
                    rep.ob("identity", env.site.split(":")[0], u is None, f"after a failure, the session's user is {show(u)}", path=path)

            rep.explore(p, env, run, env.site, max_paths=600, each=each)


def fresh(rep, p):
    """Challenges of several connections"""
    env = AuthEnv(p)

    def run(path):
        d = path.data
        it = env.it
        native = env.new_plugin(path, NATIVE)
        other = env.new_plugin(path, NATIVE)
        out = []
        for pl in (native, native, other):
            v = it.await_(it.call(it.getattr(pl, "start"), [], {}, None))
            out.append(byte_list(it, it.items(v)[0]))
        return out

    def each(res):
        path = res.path
        site = "NativePasswordAuthPlugin.start()"
        if res.status != "ok" or any(x is None for x in res.value):
            rep.ob("nonce.fresh", site, None, res.reason or repr(res.exc))
            return
        a, b, c = res.value
        path.data["where"] = p.need(NATIVE).qual
        e = entropy(path, a[:20])
        if e is None:
            rep.ob("nonce.fresh", site, None, "what the challenge is made of isn't known")
            return
        ok, why = True, ""
        if e < 100:
            ok, why = False, f"{e:.0f} bits of randomness"
        for x, y, w in ((a, b, "two connections"), (a, c, "two plugins")):
            common = {t for q in x if isinstance(q, Sym) for t in terms(q) if t.op in ("rnd", "prng")} & {t for q in y if isinstance(q, Sym) for t in terms(q) if t.op in ("rnd", "prng")}
            if x == y or common:
                ok, why = False, f"{w} get challenges that aren't independent"
            elif (entropy(path, y[:20]) or 0) < 100:
                ok, why = False, f"a later challenge has {entropy(path, y[:20]) or 0:.0f} bits of randomness"
        rep.ob("nonce.fresh", site, ok, why, path=path)

    rep.explore(p, env, run, "challenges of several connections", max_paths=200, each=each)


class ClearEnv(AuthEnv):
    def __init__(self, program, rep, route):
        super().__init__(program)
        self.rep, self.route = rep, route
        self.site = f"clear password, {route}"

    def verdict(self, path, ok, exchange):
        d, rep = path.data, self.rep
        last = d.get("i", 0) >= len(d["plan"]) - 1
        if not last:
            return
        c = d.get("checked")
        kind = self.kind
        if c is None:
            if ok:
                rep.ob("clear", self.site, False, "authentication succeeds without check()", path=path)
            else:
                rep.ob("clear", self.site, False if kind == "terminated" and not d.get("decode_failed") else True, "a password is refused without check()", path=path)
            return
        u, pw, v = c
        want = d["password"]
        good = isinstance(pw, Sym) and pw.op == "m" and pw.args[0] == "decode" and pw.args[1] is want and codec_name(pw.args[2]) == "utf-8" and pw.args[3] == "strict"
        if pw == "" and isinstance(want, bytes) and not want:
            good = True
        lost = None if good else False if isinstance(pw, Sym) and pw.op == "m" and pw.args[0] == "decode" else self.differs(path, pw, want)
        rep.ob("clear", self.site + ": password", good or lost, f"check() gets {show(pw)} for {show(want)}", path=path)
        rep.ob("clear", self.site + ": user", u is d["username"], f"check() gets {show(u)}", path=path)
        rep.ob("clear", self.site + ": decision", ok is (v is not None), "authentication succeeds though check() refuses" if ok else "authentication fails though check() accepts", path=path)
        d["judged"] = ok


    def differs(self, path, pw, want):
        """False: check() gets something else than some password that leads here"""
        for w in PASSWORDS if isinstance(want, Sym) else ():
            env = {want: w}
            try:
                if evalterm.holds(path, env) and evalterm.ev(pw, env) != w.decode():
                    return False
            except evalterm.Unknown:
                return None
            except Exception:  # pylint: disable=broad-except
                continue
        return None


PASSWORDS = [b"abcdefghi", b" a  b c\t ", b"ABC'\"\\%_?", "é€ßÄ".encode(), b"\xc3\xa9abcdefg", b"0x1234567", b"--#/**/; ", b"\r\n\x7f\x01abcde"]


def clear_route(rep, p, route):
    env = ClearEnv(p, rep, route)

    def run(path):
        d = path.data
        d["hashes"], d["secrets"] = {}, {}
        d["user"] = env.it.call(p.need(USER), [], dict(name=Sym("atom", "account name", ty="str"), auth_plugin="abstract_mysql_clear_password"), None)
        clear, native = env.new_plugin(path, CLEAR), env.new_plugin(path, NATIVE)
        native = env.new_plugin(path, NATIVE)
        d["plugins"] = [clear, native]
        d["default"] = clear if route in ("optimistic", "change user") else native
        pw = Sym("atom", "password", ty="bytes")
        env.kind = "terminated"
        path.eqs[Sym("len", pw, ty="int")] = 9
        d["free"][pw] = {b"\x00"}
        d["password"] = pw
        d["answer_len"] = 0
        d["answer_text"] = lambda x: cat(pw, b"\x00")
        user = Sym("atom", "user name", ty="str")
        first = dict(plugin="mysql_clear_password", username=user, response=cat(pw, b"\x00"))
        switch = dict(plugin="mysql_native_password", username=user, response=b"")
        d["plan"] = {"optimistic": [first], "switch": [switch], "change user": [first, first], "change user switch": [switch, switch]}[route]
        conn = env.make(path)
        return env.it.await_(env.it.call(env.it.getattr(conn, "start"), [], {}, None))

    def each(res):
        path, d = res.path, res.path.data
        if res.status in ("undecided", "budget"):
            rep.ob("analysis", env.site, None, res.reason or "")
            return
        if d.get("judged"):
            v = d["checked"][2]
            u = d["session"].attrs.get("username")
            rep.ob("identity", env.site, u is v, f"the session's user is {show(u)}", path=path)

    rep.explore(p, env, run, env.site, max_paths=400, each=each)


def nologin(rep, p):
    for how in ("default plugin", "another default plugin", "COM_CHANGE_USER"):
        for plugin, secret, length in [(pl, h, n) for pl in ("mysql_native_password", "mysql_no_login", "other") for h in (None, "", "hash") for n in (0, 20)]:
            env = AuthEnv(p)
            site = f"no-login, {how}, client plugin {plugin}, response of {length} bytes, account with " + {None: "no password", "": "an empty password", "hash": "a password"}[secret]

            def run(path):
                d = path.data
                d["hashes"], d["secrets"] = {}, {}
                h = secret
                if h:
                    h = Sym("atom", "current hash", ty="str")
                    d["hashes"][h] = "good"
                    path.eqs[Sym("len", h, ty="int")] = 40
                d["user"] = env.it.call(p.need(USER), [], dict(name=Sym("atom", "account name", ty="str"), auth_plugin="mysql_no_login", auth_string=h), None)
                no, clear = env.new_plugin(path, NOLOGIN), env.new_plugin(path, CLEAR)
                d["plugins"] = [no, clear]
                d["default"] = no if how == "default plugin" else clear
                user = Sym("atom", "user name", ty="str")
                d["answer_len"] = length
                m = dict(plugin=plugin, username=user, response=env.scramble(path, "response", length))
                d["plan"] = [m]
                if how == "COM_CHANGE_USER":
                    # another account first
                    other = env.it.call(p.need(USER), [], dict(name="other", auth_plugin="abstract_mysql_clear_password"), None)
                    d["accounts"] = [other, d["user"]]
                    pw = Sym("atom", "password", ty="bytes")
                    path.eqs[Sym("len", pw, ty="int")] = 9
                    d["free"][pw] = {b"\x00"}
                    d["plan"] = [dict(plugin="mysql_clear_password", username=Sym("atom", "other user", ty="str"), response=cat(pw, b"\x00")), m]
                conn = env.make(path)
                return env.it.await_(env.it.call(env.it.getattr(conn, "start"), [], {}, None))

            def verdict(path, ok, exchange):
                d = path.data
                if d.get("i", 0) >= len(d["plan"]) - 1:
                    rep.ob("nologin", site, not ok, "the no-login plugin accepts", path=path)
                    d["judged"] = True

            def idp(path, name, f, args, kwargs, node):
                d = path.data
                if name == "get_user" and "accounts" in d:
                    k = args[1] if len(args) > 1 else kwargs.get("username")
                    return d["accounts"][0] if k is d["plan"][0]["username"] else d["accounts"][1]
                return AuthEnv.idp_call(env, path, name, f, args, kwargs, node)

            env.verdict, env.idp_call = verdict, idp

            def each(res):
                if "judged" not in res.path.data and res.status in ("undecided", "budget"):
                    rep.ob("nologin", site, None, res.reason or res.status)

            rep.explore(p, env, run, site, max_paths=200, each=each)


def parse(rep, p):
    """Fields of the handshake response and COM_CHANGE_USER"""
    from .wire import Wire

    it = p.interp
    caps = p.need("mysql_mimic.types.Capabilities")
    for fname, lenenc, n in [("parse_handshake_response", f, n) for f in (True, False) for n in (0, 1, 20, 21, 250)] + [("parse_handshake_response", True, 251)] + [("parse_com_change_user", None, n) for n in (0, 1, 20, 21, 250)]:
        env = Wire(p)
        site = f"{fname}, response of {n} bytes" + (", length-encoded" if lenenc else "")
        f = p.need("mysql_mimic.packets." + fname)

        def run(path):
            d = path.data
            m = caps.enum_members
            bits = 0
            for k in ("CLIENT_PROTOCOL_41", "CLIENT_SECURE_CONNECTION", "CLIENT_PLUGIN_AUTH", "CLIENT_CONNECT_WITH_DB"):
                bits |= m[k].value
            if lenenc:
                bits |= m["CLIENT_PLUGIN_AUTH_LENENC_CLIENT_DATA"].value
            user, db, plugin = (env.text(path, x, 5, free=b"\x00") for x in ("user name", "database", "plugin"))
            resp = env.data(path, "auth response", n)
            head = bytes([n]) if n < 251 else b"\xfc" + n.to_bytes(2, "little")
            c = it.call(caps, [bits], {}, None)
            if fname == "parse_com_change_user":
                pkt = cat(user, b"\x00", head, resp, db, b"\x00", (45).to_bytes(2, "little"), plugin, b"\x00")
            else:
                pkt = cat(bits.to_bytes(4, "little"), (1 << 24).to_bytes(4, "little"), b"\x2d", bytes(23), user, b"\x00", head, resp, db, b"\x00", plugin, b"\x00")
            d["want"] = dict(username=user, auth_response=resp, database=db, client_plugin=plugin)
            kw = dict(capabilities=c, data=pkt)
            if fname == "parse_com_change_user":
                kw["client_charset"] = p.need(CHARSET).enum_members["utf8mb4"]
            return it.call(f, [], kw, None)

        def each(res):
            path = res.path
            if res.status == "raise":
                rep.ob("response.parse", site, False, f"a valid packet is refused: {show(res.exc.value)}", where=res.exc.where, path=path)
                return
            if res.status != "ok" or not isinstance(res.value, Obj):
                rep.ob("response.parse", site, None, res.reason or repr(res.value))
                return
            path.data["where"] = f.qual
            for k, want in path.data["want"].items():
                got = res.value.attrs.get(k)
                same = got == want if k == "auth_response" else env.decodes(got, want)
                rep.ob("response.parse", f"{site}: {k}", same, f"{show(got)} instead of {show(want)}", path=path)

        rep.explore(p, env, run, site, max_paths=100, each=each)
