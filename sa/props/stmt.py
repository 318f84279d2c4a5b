"""A logged-in client that sends statements as packets of known layout"""
from __future__ import annotations

import struct

from .talk import *
from .wire import Wire

QUERY_ATTRIBUTES = 1 << 27
PARAM_COUNT = 0x08  # flag of COM_STMT_EXECUTE
TINY, SHORT, LONG, FLOAT, DOUBLE, NULL, LONGLONG, INT24, YEAR, VARCHAR = 1, 2, 3, 4, 5, 6, 8, 9, 13, 15
BLOBS, VAR_STRING, STRING = (249, 250, 251, 252), 253, 254
BOOL = 244
WIDTH = {TINY: 1, SHORT: 2, LONG: 4, LONGLONG: 8, INT24: 4, YEAR: 2, FLOAT: 4, DOUBLE: 8, BOOL: 1}
TEXTS = (VARCHAR, *BLOBS, VAR_STRING, STRING)


def lenenc(n):
    if n < 251:
        return bytes([n])
    if n < 1 << 16:
        return b"\xfc" + n.to_bytes(2, "little")
    if n < 1 << 24:
        return b"\xfd" + n.to_bytes(3, "little")
    return b"\xfe" + n.to_bytes(8, "little")


class Value:
    """A value on the wire.  `expect` is what it denotes; ("text", bytes) for texts"""

    def __init__(self, type_, unsigned, wire, expect, what, null=False):
        self.type, self.unsigned, self.wire, self.expect, self.what, self.null = type_, unsigned, wire, expect, what, null


def null(type_=VAR_STRING):
    return lambda env, path, k: Value(type_, False, b"", None, f"NULL (type {type_})", True)


def null_type():
    return lambda env, path, k: Value(NULL, False, b"", None, "a value of type NULL", True)


def text(data=None, n=None, type_=VAR_STRING):
    """Text: known, or unknown bytes of a known number"""

    def make(env, path, k):
        x = data if data is not None else env.data(path, f"value {k}", n)
        l = len(data) if data is not None else n
        return Value(type_, False, cat(lenenc(l), x), ("text", x), f"a text of {l} bytes" if data is None or len(data) > 20 else f"the text {data!r}")

    return make


def integer(type_, unsigned, value=None):
    w = WIDTH[type_]

    def make(env, path, k):
        if value is not None:
            return Value(type_, unsigned, (value % (1 << 8 * w)).to_bytes(w, "little"), value, f"the {'un' if unsigned else ''}signed {8 * w}-bit integer {value} (type {type_})")
        x = env.data(path, f"value {k}", w)
        return Value(type_, unsigned, x, Sym("unle", w, not unsigned, x, ty="int"), f"{'an un' if unsigned else 'a '}signed {8 * w}-bit integer (type {type_})")

    return make


def floating(type_, value=None):
    w = WIDTH[type_]

    def make(env, path, k):
        if value is not None:
            b = struct.pack("<f" if w == 4 else "<d", value)
            return Value(type_, False, b, struct.unpack("<f" if w == 4 else "<d", b)[0], f"the float {value!r} (type {type_})")
        x = env.data(path, f"value {k}", w)
        return Value(type_, False, x, Sym("unf", w, x, ty="float"), f"a float of {w} bytes")

    return make


def boundaries(type_, unsigned):
    n = 8 * WIDTH[type_]
    if unsigned:
        return [0, 1, (1 << n - 1) - 1, 1 << n - 1, (1 << n - 1) + 1, (1 << n) - 1]
    return [0, 1, -1, (1 << n - 1) - 1, -(1 << n - 1), -(1 << n - 1) + 1]


class Stmt(Talk, Wire):
    """`cmds` are functions that make a packet"""

    max_loop = 2000
    max_steps = 20_000_000
    kmax = 1
    results = ("none",)
    summarise_text = False
    max_faults = 0
    client_charset, server_charset = "utf8mb4", "utf16"

    def __init__(self, program):
        super().__init__(program)

    def start(self, path):
        Talk.start(self, path)
        path.data.update(free={}, queries=[], prepared=[], written=[])
        self.live = 10**6

    def parse_call(self, path, name, f, args, kwargs, node):
        if path.data["phase"] == "commands":
            return NotImplemented
        return super().parse_call(path, name, f, args, kwargs, node)

    opaque_functions = ()

    def command(self, path, cmd):
        path.data["written"] = []

    def packet(self, path, cmd, i):
        return cmd(self, path)

    def var_get(self, path, k):
        if k == "character_set_client":
            return self.client_charset
        if k in ("character_set_results", "character_set_server"):
            return self.server_charset
        return super().var_get(path, k)

    def decide(self, path, sym):
        if path.data["phase"] == "commands":
            if sym.op == "hasflag":
                return self.cap(path, sym)
            r = self.text_fact(path, sym)
            if r is None:
                r = Wire.decide(self, path, sym)
            return r
        return super().decide(path, sym)

    def text_fact(self, path, sym):
        """Facts about unknown texts: none of them is empty, they're all different"""
        if sym.op in ("nonempty", "truthy"):
            x = sym.args[0]
            if isinstance(x, Sym) and x.op == "m" and x.args[0] == "decode":
                return True
        if sym.op == "eq" or sym.op == "cmp" and sym.args[0] == "==":
            x, y = sym.args[-2:]
            if all(isinstance(t, str) or isinstance(t, Sym) and t.op == "m" and t.args[0] == "decode" for t in (x, y)):
                return x is y
        return None

    def wrote(self, path, data, drain, node):
        if path.data["phase"] == "commands":
            path.data["written"].append(data)
            if path.data.get("preparing"):
                path.data["preparing"] = False
                if isinstance(data, bytes) and data[:1] == b"\0" and len(data) >= 12:
                    path.data["prepared"].append((data[1:5], int.from_bytes(data[7:9], "little")))
                else:
                    path.data["prepared"].append(None)

    def app_event(self, path, name, args, kwargs):
        super().app_event(path, name, args, kwargs)
        if name == "handle_query":
            a = list(args)
            sql = kwargs.get("sql", a[0] if a else None)
            attrs = kwargs.get("attrs", a[1] if len(a) > 1 else None)
            # copies: what the application sees at this time
            if isinstance(attrs, ADict):
                attrs = ADict(attrs.d, attrs.open)
            path.data["queries"].append((path.data["i"], sql, attrs))

    # -- packets

    def param_block(self, path, vals, names):
        """Null bitmap, flag, types (and names, None: the client doesn't send any), values"""
        n = len(vals)
        if not n:
            return b""
        bm = bytearray((n + 7) // 8)
        for i, v in enumerate(vals):
            if v.null and v.type != NULL:
                bm[i // 8] |= 1 << i % 8
            elif v.type == NULL:
                bm[i // 8] |= 1 << i % 8
        out = [bytes(bm), b"\x01"]
        for i, v in enumerate(vals):
            out.append(bytes([v.type, 0x80 if v.unsigned else 0]))
            if names is not None:
                nm = names[i]
                l = len(nm) if isinstance(nm, bytes) else path.eqs[Sym("len", nm, ty="int")]
                out.append(cat(lenenc(l), nm))
        out.extend(v.wire for v in vals if v.wire is not None)
        return cat(*out)

    def com_query(self, sql, vals=(), names=(), attributes=True):
        def make(env, path):
            if not attributes:
                return cat(b"\x03", sql)
            return cat(b"\x03", lenenc(len(vals)), b"\x01", env.param_block(path, vals, names), sql)

        return make

    def com_prepare(self, sql):
        def make(env, path):
            path.data["preparing"] = True
            return cat(b"\x16", sql)

        return make

    def com_long(self, k, i, data):
        def make(env, path):
            return cat(b"\x18", env.statement(path, k), i.to_bytes(2, "little"), data)

        return make

    def com_execute(self, k, vals, names=None, attributes=False, flag=None, cursor=0):
        """names: of all parameters, if the client has negotiated query attributes"""

        def make(env, path):
            n = path.data["prepared"][k][1] if path.data["prepared"][k] else 0
            fl = flag if flag is not None else attributes
            out = [b"\x17", env.statement(path, k), bytes([cursor | (PARAM_COUNT if fl else 0)]), b"\x01\0\0\0"]
            if n > 0 or attributes and fl:
                if attributes:
                    out.append(lenenc(len(vals)))
                out.append(env.param_block(path, vals, names if attributes else None))
            return cat(*out)

        return make

    def com_fetch(self, k, n):
        return lambda env, path: cat(b"\x1c", env.statement(path, k), n.to_bytes(4, "little"))

    def com_simple(self, code, k):
        return lambda env, path: cat(bytes([code]), env.statement(path, k))

    def statement(self, path, k):
        p = path.data["prepared"]
        if k >= len(p) or p[k] is None:
            raise Undecided("the statement wasn't prepared")
        return p[k][0]

    # -- results

    def errors(self, path):
        return [d for d in path.data["written"] if isinstance(d, (bytes, Sym)) and first_byte(d) == 0xFF]

    def same(self, got, want):
        """Is it this value?  True, False, None (not known)"""
        if isinstance(want, tuple) and want and want[0] == "text":
            return self.decodes(got, want[1], codec="utf-8")
        if want is None:
            return True if got is None else None if isinstance(got, Sym) else False
        if isinstance(want, Sym):
            if got is want:
                return True
            if not isinstance(got, Sym):
                return False
            if got.op == want.op:
                return False
            return None
        if isinstance(got, Sym):
            return None
        if isinstance(want, float):
            return isinstance(got, float) and struct.pack("<d", got) == struct.pack("<d", want)
        if isinstance(want, int):
            return isinstance(got, int) and not isinstance(got, AV) and got == want
        return got == want
