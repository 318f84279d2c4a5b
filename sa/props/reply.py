"""What a client makes of the packets it gets"""
from __future__ import annotations

from .common import *


class Unknown(Exception):
    """What follows isn't known"""


class Bad(Exception):
    """Definitely not what the protocol prescribes"""


class Rd:
    """Reader over the parts of an abstract byte string"""

    def __init__(self, pkt):
        self.q = [x for x in parts(pkt) if not (isinstance(x, bytes) and not x)]
        self.q.reverse()

    def done(self):
        return not self.q

    def peek(self):
        if not self.q:
            return None
        x = self.q[-1]
        return x[0] if isinstance(x, bytes) else x

    def fixed(self, n):
        """n bytes: constant bytes, or a term"""
        out = []
        while n:
            if not self.q:
                raise Bad("the packet is too short")
            x = self.q.pop()
            if isinstance(x, bytes):
                out.append(x[:n])
                if len(x) > n:
                    self.q.append(x[n:])
                    return out
                n -= len(x)
            elif isinstance(x, Sym) and x.op in ("le", "be", "pack"):
                w = x.args[0] if isinstance(x.args[0], int) else None
                if w is None:
                    raise Unknown(show(x))
                if w > n:
                    raise Bad(f"{show(x)} doesn't fit")
                out.append(x)
                n -= w
            else:
                raise Unknown(show(x))
        return out

    def uint(self, n):
        """Little endian number: int, term, or None"""
        q = self.fixed(n)
        if all(isinstance(x, bytes) for x in q):
            return int.from_bytes(b"".join(q), "little")
        if len(q) == 1 and q[0].op == "le":
            return q[0].args[-1]
        return None

    def lenenc_int(self):
        x = self.peek()
        if isinstance(x, int):
            if x < 0xFB:
                return self.uint(1)
            if x in (0xFC, 0xFD, 0xFE):
                self.uint(1)
                return self.uint({0xFC: 2, 0xFD: 3, 0xFE: 8}[x])
            raise Bad(f"{x:#x} isn't a length-encoded integer")
        if isinstance(x, Sym) and x.op == "le" and x.args[0] == 1:
            return self.uint(1)
        raise Unknown(show(x) if x is not None else "end")

    def lenenc_str(self):
        """Contents of a length-encoded string (bytes or a term)"""
        if self.done():
            raise Bad("the packet is too short")
        n = self.lenenc_int()
        if isinstance(n, int):
            q = self.fixed(n)
            return cat(*q) if q else b""
        if isinstance(n, Sym) and n.op == "len":
            want = n.args[0]
            w = parts(want)
            for y in w:
                if not self.q:
                    raise Bad("the packet is too short")
                x = self.q.pop()
                if x is not y and x != y:
                    if isinstance(x, bytes) and isinstance(y, bytes) and x.startswith(y):
                        self.q.append(x[len(y):])
                        continue
                    raise Bad(f"the length is that of {show(want)}, but {show(x)} follows")
            return want
        raise Unknown(show(n))

    def rest(self):
        q = self.q[::-1]
        self.q = []
        return cat(*q) if q else b""


def attempt(fn, *args):
    """(True, value) or (None, reason) or (False, reason)"""
    try:
        return True, fn(*args)
    except Unknown as e:
        return None, str(e)
    except Bad as e:
        return False, str(e)


def ok_packet(pkt):
    """(affected rows, insert id, status, warnings)"""
    r = Rd(pkt)
    h = r.uint(1)
    a, i = r.lenenc_int(), r.lenenc_int()
    s, w = r.uint(2), r.uint(2)
    return dict(header=h, affected=a, insert_id=i, status=s, warnings=w, info=r.rest())


def eof_packet(pkt):
    r = Rd(pkt)
    h = r.uint(1)
    w, s = r.uint(2), r.uint(2)
    if not r.done():
        raise Bad("more than an EOF packet")
    return dict(header=h, warnings=w, status=s)


def err_packet(pkt):
    r = Rd(pkt)
    r.uint(1)
    code = r.uint(2)
    x = r.q[-1] if r.q else b""
    if x == b"" or isinstance(x, Sym) and x.op == "m" and x.args[0] == "encode":
        raise Bad("no SQL state")
    state = r.fixed(6)
    if all(isinstance(x, bytes) for x in state):
        state = b"".join(state)
        if state[:1] != b"#":
            raise Bad(f"no SQL state: {state!r}")
    return dict(code=code, state=state, message=r.rest())


def column_definition(pkt, field_list=False):
    r = Rd(pkt)
    out = {}
    for n in ("catalog", "schema", "table", "org_table", "name", "org_name"):
        out[n] = r.lenenc_str()
    n = r.lenenc_int()
    if n != 0x0C:
        raise Bad(f"the fixed-length part of a column definition is announced with {show(n)} bytes")
    out["charset"] = r.uint(2)
    out["length"] = r.uint(4)
    out["type"] = r.uint(1)
    out["flags"] = r.uint(2)
    out["decimals"] = r.uint(1)
    r.fixed(2)
    if field_list:
        if r.peek() == 0xFB:
            r.uint(1)
            out["default"] = None
        else:
            out["default"] = r.lenenc_str()
    if not r.done():
        raise Bad("a column definition with extra bytes")
    return out


def text_row(pkt, n):
    r = Rd(pkt)
    out = []
    for _ in range(n):
        if r.peek() == 0xFB:
            r.uint(1)
            out.append(None)
        else:
            out.append(r.lenenc_str())
    if not r.done():
        raise Bad(f"a row with more than {n} values")
    return out


def prepare_ok(pkt):
    r = Rd(pkt)
    r.uint(1)
    i = r.uint(4)
    c, p = r.uint(2), r.uint(2)
    r.fixed(1)
    w = r.uint(2)
    if not r.done():
        raise Bad("a prepare response with extra bytes")
    return dict(id=i, columns=c, params=p)


OK_ONLY = {0x02, 0x0E, 0x1F, 0x0D, 0x11, 0x1A}
NO_REPLY = {0x18, 0x19}


class Reply:
    """The response to one command, as a client that decodes it strictly sees it"""

    def __init__(self, cmd, deprecate_eof, report):
        self.cmd, self.deprecate, self.report = cmd, deprecate_eof, report
        self.state = "start"
        self.n = 0  # packets
        self.cols = 0
        self.rows = 0
        self.err = False
        self.lost = None  # why it can't be followed any further
        self.final = None
        self.packets = []
        self.pending = 0

    def bad(self, msg):
        self.report(False, msg)
        self.lost = msg

    def unknown(self, msg):
        self.lost = self.lost or str(msg)

    def got(self, pkt):
        self.n += 1
        self.packets.append(pkt)
        if self.lost:
            return
        if self.state == "done":
            self.bad(f"packet {show(pkt)[:100]} is sent although the response was complete")
            return
        if self.cmd in NO_REPLY:
            self.bad(f"packet {show(pkt)[:100]} is sent for a command that has no response")
            return
        b = Rd(pkt).peek()
        if b == 0xFF:
            ok, v = attempt(err_packet, pkt)
            if ok is False:
                self.bad(f"malformed ERR packet: {v}")
                return
            self.err = True
            self.final = v if ok else None
            self.state = "done"
            return
        getattr(self, "in_" + self.state)(pkt, b)

    def in_start(self, pkt, b):
        c = self.cmd
        if c in (0x03, 0x17):
            if b == 0:
                self.ok(pkt)
            elif b == 0xFB:
                self.unknown("LOCAL INFILE")
            elif b == 0xFE:
                self.bad("the response starts with EOF")
            else:
                ok, n = attempt(Rd(pkt).lenenc_int)
                if ok is False:
                    self.bad(f"{n}: neither OK, ERR nor a column count")
                    return
                self.cols = n
                self.ncols = n if isinstance(n, int) else None
                if self.ncols is None:
                    self.unknown("column count")
                    return
                self.left = n
                self.state = "columns"
        elif c == 0x16:
            if b != 0:
                self.bad(f"{show(pkt)[:80]} in response to COM_STMT_PREPARE") if isinstance(b, int) else self.unknown("prepare")
                return
            ok, v = attempt(prepare_ok, pkt)
            if ok is False:
                self.bad(f"malformed response to COM_STMT_PREPARE: {v}")
                return
            if not ok or not isinstance(v["params"], int) or not isinstance(v["columns"], int):
                self.unknown("number of parameters")
                return
            self.prepared = v
            self.left, self.then = v["params"], v["columns"]
            if self.left:
                self.state = "params"
            elif self.then:
                self.left, self.then = self.then, 0
                self.state = "params"
            else:
                self.state = "done"
        elif c == 0x1C:
            self.state = "rows"
            self.ncols = None
            self.in_rows(pkt, b)
        elif c == 0x04:
            self.state = "fields"
            self.in_fields(pkt, b)
        elif c in OK_ONLY:
            if b == 0:
                self.ok(pkt)
            elif c == 0x11 and b in (0xFE, 0x01):
                pass  # the exchange goes on
            elif isinstance(b, int):
                self.bad(f"{show(pkt)[:80]} isn't OK or ERR")
            else:
                self.unknown(show(b))
        else:
            # not a supported command
            if isinstance(b, int):
                self.bad(f"{show(pkt)[:80]} in response to an unsupported command")
            else:
                self.unknown(show(b))

    def ok(self, pkt):
        ok, v = attempt(ok_packet, pkt)
        if ok is False:
            self.bad(f"malformed OK packet: {v}")
            return
        self.final = v if ok else None
        self.state = "done"

    def definition(self, pkt, b, field_list=False):
        ok, v = attempt(column_definition, pkt, field_list)
        if ok is False:
            self.bad(f"{show(pkt)[:60]} instead of a column definition: {v}")
        return ok

    def in_columns(self, pkt, b):
        if self.definition(pkt, b) is False:
            return
        self.left -= 1
        if not self.left:
            self.state = "meta eof" if not self.deprecate else "rows"

    def in_params(self, pkt, b):
        if self.definition(pkt, b) is False:
            return
        self.left -= 1
        if not self.left:
            if not self.deprecate:
                self.state = "params_eof"
            else:
                self.after_params()

    def after_params(self):
        if self.then:
            self.left, self.then = self.then, 0
            self.state = "params"
        else:
            self.state = "done"

    def in_params_eof(self, pkt, b):
        if b != 0xFE:
            self.bad(f"{show(pkt)[:60]} instead of EOF after the parameters") if isinstance(b, int) else self.unknown("EOF")
            return
        self.after_params()

    def terminator(self, pkt):
        """The packet that ends a list of rows or columns (first byte 0xFE)"""
        if self.deprecate:
            ok, v = attempt(ok_packet, pkt)
            what = "OK"
        else:
            ok, v = attempt(eof_packet, pkt)
            what = "EOF"
        if ok is False:
            self.bad(f"{show(pkt)[:60]} isn't a well-formed {what} packet: {v}")
            return None
        self.final = v if ok else None
        return v if ok else {}

    def __getattr__(self, name):
        if name == "in_meta eof":
            return self.meta_eof
        raise AttributeError(name)

    def meta_eof(self, pkt, b):
        if b != 0xFE:
            self.bad(f"{show(pkt)[:60]} instead of EOF after the column definitions") if isinstance(b, int) else self.bad("no EOF after the column definitions")
            return
        v = self.terminator(pkt)
        if v is None:
            return
        s = v.get("status")
        if not isinstance(s, int):
            s = getattr(s, "value", s)
        if not isinstance(s, int):
            self.unknown("status flags")
            return
        self.meta_status = s
        # with a cursor, the rows have to be fetched
        self.state = "done" if s & 0x40 and self.cmd == 0x17 else "rows"

    def in_rows(self, pkt, b):
        if b == 0xFE:
            if self.cmd == 0x03 and self.ncols and attempt(ok_packet if self.deprecate else eof_packet, pkt)[0] is False and attempt(text_row, pkt, self.ncols)[0] is True:
                # a text so long that its length takes eight bytes
                self.rows += 1
                return
            v = self.terminator(pkt)
            if v is not None:
                self.state = "done"
                s = v.get("status")
                s = getattr(s, "value", s)
                if self.cmd == 0x17 and not self.deprecate and isinstance(s, int) and s & 0x40:
                    self.bad(f"{show(pkt)[:60]} announces a cursor after the EOF behind the column definitions didn't")
            return
        if not isinstance(b, int) and not (isinstance(b, Sym) and b.op == "le"):
            self.rows += 1
            return
        if self.cmd == 0x03:
            ok, v = attempt(text_row, pkt, self.ncols) if self.ncols is not None else (None, "")
            if ok is False:
                self.bad(f"{show(pkt)[:60]} isn't a row of {self.ncols} values: {v}")
                return
        elif isinstance(b, int) and b != 0:
            self.bad(f"{show(pkt)[:60]} isn't a binary row")
            return
        self.rows += 1

    def in_fields(self, pkt, b):
        if b == 0xFE:
            if self.terminator(pkt) is not None:
                self.state = "done"
            return
        if self.definition(pkt, b, True) is False:
            return
        self.rows += 1

    @property
    def complete(self):
        if self.lost:
            return None
        if self.cmd in NO_REPLY or self.cmd == 0x01:
            return True
        return self.state == "done"

    def missing(self):
        return {
            "start": "there's no response",
            "columns": f"{getattr(self, 'left', '?')} column definitions are missing",
            "params": f"{getattr(self, 'left', '?')} definitions are missing",
            "params_eof": "the EOF after the definitions is missing",
            "meta eof": "the EOF after the column definitions is missing",
            "rows": "the rows aren't terminated",
            "fields": "the columns aren't terminated",
        }.get(self.state, self.state)
