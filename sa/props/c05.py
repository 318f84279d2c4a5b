"""C05: clients decode exactly the values that the application returned"""
from __future__ import annotations

import datetime as dt
import decimal
import itertools
import re
import struct

from .reply import Bad, Rd, Unknown, attempt, column_definition, eof_packet, ok_packet
from .stmt import *

# What an application may hand over as its rows
SOURCES = """
import collections

async def agen(rows):
    for r in rows:
        yield r

def gen(rows):
    for r in rows:
        yield r

class AIter:
    def __init__(self, rows):
        self.rows, self.i = rows, 0

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.i >= len(self.rows):
            raise StopAsyncIteration
        self.i += 1
        return self.rows[self.i - 1]

class AIterable:
    def __init__(self, rows):
        self.rows = rows

    def __aiter__(self):
        return AIter(self.rows)

class Rows:
    def __init__(self, rows):
        self.rows = rows

    def __iter__(self):
        return iter(self.rows)

    def __len__(self):
        return len(self.rows)

    def __getitem__(self, i):
        return self.rows[i]
"""

# MySQL's ids of types
T = dict(DECIMAL=0, TINY=1, SHORT=2, LONG=3, FLOAT=4, DOUBLE=5, NULL=6, TIMESTAMP=7, LONGLONG=8, INT24=9, DATE=10, TIME=11, DATETIME=12, YEAR=13,
         VARCHAR=15, BIT=16, BOOL=244, JSON=245, NEWDECIMAL=246, ENUM=247, SET=248, TINY_BLOB=249, MEDIUM_BLOB=250, LONG_BLOB=251, BLOB=252, VAR_STRING=253,
         STRING=254, GEOMETRY=255)
NAME = {v: k for k, v in T.items()}
INTS = {1: 1, 2: 2, 3: 4, 8: 8, 9: 4, 13: 2, 244: 1}
STRINGS = {0, 15, 16, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}
DATES = {7, 10, 12}
# Default collation ids, and what they're called here
CHARSETS = {"utf8mb4": ({45, 46, 224, 255} | set(range(256, 324)), "utf-8"), "utf8": ({33, 83} | set(range(192, 215)), "utf-8"), "latin1": ({5, 8, 15, 31, 47, 48, 49, 94}, "latin-1"),
            "utf16": ({54, 55} | set(range(101, 124)), "utf-16-be"), "utf32": ({60, 61} | set(range(160, 183)), "utf-32-be"), "ascii": ({11, 65}, "ascii"),
            "cp1251": ({14, 23, 50, 51, 52}, "cp1251"), "gbk": ({28, 87}, "gbk"), "big5": ({1, 84}, "big5"), "greek": ({25, 70}, "iso8859-7")}


class Col:
    """A column, as the application declares it"""

    def __init__(self, name, type_=None, charset=None):
        self.name, self.type, self.charset = name, type_, charset

    def __repr__(self):
        return f"{self.type or 'inferred'}" + (f" in {self.charset}" if self.charset else "")


class Result:
    def __init__(self, what, cols, rows, shape="tuple", source="list", row="tuple"):
        self.what, self.cols, self.rows, self.shape, self.source, self.row = what, cols, rows, shape, source, row


class Results(Stmt):
    """An application that returns known results"""

    summarise_encoders = False
    encode_fails = False
    rows_fail = False
    host_values = True
    max_steps = 10**9
    max_loop = 10**6
    kmax = 10**6
    server_charset = "utf8mb4"

    def __init__(self, program):
        super().__init__(program)
        self.app = program.load_text("application", SOURCES)

    def start(self, path):
        super().start(path)
        path.data.update(replies=[], nresult=0)

    def command(self, path, cmd):
        super().command(path, cmd)
        path.data["replies"].append(path.data["written"])

    def app_result(self, path, name, o):
        if name != "handle_query":
            return super().app_result(path, name, o)
        path.emit("app_done", name=name, result=o)
        i = path.data["nresult"]
        path.data["nresult"] += 1
        return self.build(path, path.data["results"][i])

    def build(self, path, r):
        it = self.it
        rc = self.p.need("mysql_mimic.results.ResultColumn")
        types = self.p.need("mysql_mimic.types.ColumnType").enum_members
        charsets = self.p.need(CHARSET).enum_members
        cols = []
        for c in r.cols:
            if c.type is None:
                cols.append(c.name)
                continue
            kw = dict(name=c.name, type=types[c.type])
            if c.charset:
                kw["character_set"] = charsets[c.charset]
            cols.append(it.call(rc, [], kw, None))
        rows = [AList(x) if r.row == "list" else tuple(x) for x in r.rows]
        if r.source == "list":
            rows = AList(rows)
        elif r.source == "tuple":
            rows = tuple(rows)
        else:
            rows = it.call(self.app[r.source], [AList(rows)], {}, None)
        cols = tuple(cols) if r.row == "list" else AList(cols)
        if r.shape == "tuple":
            return (rows, cols)
        return it.call(self.p.need("mysql_mimic.results.ResultSet"), [], dict(rows=rows, columns=cols), None)


# -- a client


def known(b):
    if not isinstance(b, bytes):
        raise Unknown(show(b)[:80])
    return b


def client_columns(pkts, eof):
    """The definitions, and what follows"""
    pkts = list(pkts)
    if not pkts:
        raise Bad("there's no response")
    head = Rd(pkts.pop(0))
    b = head.peek()
    if b == 0xFF:
        raise Bad(f"the response is an error: {show(head.rest())[:120]}")
    if b == 0:
        return None, pkts
    n = head.lenenc_int()
    if not isinstance(n, int):
        raise Unknown("number of columns")
    if not head.done():
        raise Bad("extra bytes after the number of columns")
    if len(pkts) < n:
        raise Bad(f"{n} columns are announced, {len(pkts)} packets follow")
    cols = [column_definition(x) for x in pkts[:n]]
    pkts = pkts[n:]
    if eof:
        if not pkts:
            raise Bad("no EOF after the columns")
        eof_packet(pkts.pop(0))
    return cols, pkts


def rows_of(pkts, eof, read):
    """Rows up to the terminator"""
    out = []
    for i, x in enumerate(pkts):
        b = Rd(x).peek()
        if b == 0xFE and (not isinstance(x, bytes) or len(x) < (9 if eof else 0xFFFFFF)):
            if i != len(pkts) - 1:
                raise Bad("packets after the end of the rows")
            (eof_packet if eof else ok_packet)(x)
            return out, True
        if b == 0xFF:
            raise Bad(f"an error instead of a row: {show(Rd(x).rest())[:120]}")
        out.append(read(x))
    return out, False


def text_cells(x, cols):
    r = Rd(x)
    out = []
    for c in cols:
        if r.peek() == 0xFB:
            r.uint(1)
            out.append(None)
        else:
            out.append(("text", r.lenenc_str()))
    if not r.done():
        raise Bad(f"a row with more than {len(cols)} values")
    return out


def binary_cells(x, cols):
    r = Rd(x)
    n = len(cols)
    if r.uint(1) != 0:
        raise Bad("not a binary row")
    bm = r.fixed((n + 9) // 8)
    if not all(isinstance(b, bytes) for b in bm):
        raise Unknown("null bitmap")
    bm = b"".join(bm)
    if bm[0] & 3 or any(bm[(i + 2) // 8] >> (i + 2) % 8 & 1 for i in range(n, 8 * len(bm) - 2)):
        raise Bad(f"null bitmap {bm.hex()} of {n} columns")
    out = []
    for i, c in enumerate(cols):
        if bm[(i + 2) // 8] >> (i + 2) % 8 & 1:
            out.append(None)
            continue
        t = c["type"]
        if t in INTS:
            out.append(("int", r.fixed(INTS[t]), INTS[t], bool(c["flags"] & 0x20)))
        elif t == 4:
            out.append(("float", r.fixed(4)))
        elif t == 5:
            out.append(("double", r.fixed(8)))
        elif t in DATES or t == 11:
            l = r.uint(1)
            if not isinstance(l, int):
                raise Unknown("length of a date")
            if l not in ((0, 8, 12) if t == 11 else (0, 4, 7, 11)):
                raise Bad(f"a {NAME[t]} of {l} bytes")
            out.append(("time" if t == 11 else "date", l, [r.uint(k) for k in (((1, 4, 1, 1, 1) if l else ()) if t == 11 else (2, 1, 1) if l else ())
                                                           + ((1, 1, 1) if t != 11 and l > 4 else ()) + ((4,) if l > 8 else ())]))
        elif t in STRINGS:
            out.append(("text", r.lenenc_str()))
        else:
            raise Bad(f"a value of type {t}")
    if not r.done():
        raise Bad("a row with extra bytes")
    return out


def value(cell, col, kind):
    """A cell as a value: ("int", i) ("float", f) ("bytes", b) ("date", ...) ("time", microseconds) None"""
    if cell is None:
        return None
    t = col["type"]
    how = cell[0]
    if how == "int":
        b = cell[1]
        if not all(isinstance(x, bytes) for x in b):
            raise Unknown("an integer")
        return ("int", int.from_bytes(b"".join(b), "little", signed=not cell[3]))
    if how in ("float", "double"):
        b = cell[1]
        if not all(isinstance(x, bytes) for x in b):
            raise Unknown("a float")
        return ("float", struct.unpack("<f" if how == "float" else "<d", b"".join(b))[0])
    if how == "date":
        f = [known_int(x) for x in cell[2]]
        f += [0] * (7 - len(f))
        if t == 10 and any(f[3:]):
            raise Bad(f"a DATE with a time: {f}")
        if any(f) and not (1 <= f[1] <= 12 and 1 <= f[2] <= 31 and f[3] < 24 and f[4] < 60 and f[5] < 60 and f[6] < 10**6):
            raise Bad(f"the date {f}")
        return ("date", tuple(f))
    if how == "time":
        f = [known_int(x) for x in cell[2]] or [0] * 5
        us = f[5] if len(f) > 5 else 0
        if f[0] not in (0, 1) or f[2] > 23 or f[3] > 59 or f[4] > 59 or us >= 10**6:
            raise Bad(f"the duration {f}")
        x = (((f[1] * 24 + f[2]) * 60 + f[3]) * 60 + f[4]) * 10**6 + us
        return ("time", -x if f[0] else x)
    b = known(cell[1])
    if t in STRINGS:
        return ("bytes", b)
    try:
        s = b.decode("ascii")
    except UnicodeDecodeError:
        raise Bad(f"{NAME.get(t, t)} {b!r}")
    if t in INTS:
        if not re.fullmatch(r"-?[0-9]+", s):
            raise Bad(f"{NAME[t]} {s!r}")
        return ("int", int(s))
    if t in (4, 5):
        if not re.fullmatch(r"-?[0-9]+(\.[0-9]+)?(e[-+]?[0-9]+)?", s):
            raise Bad(f"{NAME[t]} {s!r}")
        return ("float", float(s))
    if t in DATES:
        m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)" + ("" if t == 10 else r"(?: (\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?)?"), s)
        if not m:
            raise Bad(f"{NAME[t]} {s!r}")
        g = list(m.groups()) + [None] * 4
        return ("date", tuple(int(x or 0) for x in g[:6]) + (int((g[6] or "").ljust(6, "0")),))
    if t == 11:
        m = re.fullmatch(r"(-?)(\d{2,3}|\d{2,}):(\d\d):(\d\d)(?:\.(\d{1,6}))?", s)
        if not m or int(m[3]) > 59 or int(m[4]) > 59:
            raise Bad(f"TIME {s!r}")
        x = ((int(m[2]) * 60 + int(m[3])) * 60 + int(m[4])) * 10**6 + int((m[5] or "").ljust(6, "0"))
        return ("time", -x if m[1] else x)
    raise Bad(f"a value of type {t}")


def known_int(x):
    if not isinstance(x, int):
        raise Unknown("a date")
    return x


def same(got, want, col, charset, declared=None):
    """Is it the value that the application returned?"""
    if want is None or got is None:
        return want is None and got is None
    k, x = got
    if isinstance(want, bool):
        want = int(want)
    if k == "int":
        return isinstance(want, (int, float, decimal.Decimal)) and x == want
    if k == "float":
        if not isinstance(want, (int, float)):
            return False
        if col["type"] == 4 and declared == "FLOAT":
            f = lambda v: struct.unpack("<f", struct.pack("<f", v))[0]
            return f(x) == f(want)
        return x == want and str(x) == str(float(want))
    if k == "date":
        if isinstance(want, dt.datetime):
            return x == (want.year, want.month, want.day, want.hour, want.minute, want.second, want.microsecond)
        return isinstance(want, dt.date) and x == (want.year, want.month, want.day, 0, 0, 0, 0)
    if k == "time":
        return isinstance(want, dt.timedelta) and x == want // dt.timedelta(microseconds=1)
    if isinstance(want, bytes):
        return x == want
    ids, codec = CHARSETS[charset or "utf8mb4"]
    if col["charset"] not in ids:
        raise Bad(f"the column is announced in character set {col['charset']}, not {charset or 'utf8mb4'}")
    try:
        s = x.decode(codec)
    except UnicodeDecodeError:
        return False
    if isinstance(want, str):
        return s == want
    if isinstance(want, (int, decimal.Decimal)):
        try:
            return decimal.Decimal(s) == want
        except decimal.DecimalException:
            return False
    if isinstance(want, float):
        try:
            return float(s) == want
        except ValueError:
            return False
    if isinstance(want, dt.datetime):
        return s.replace("T", " ") in (str(want), want.isoformat(" ", "microseconds"), want.isoformat(" ", "seconds"))
    if isinstance(want, dt.date):
        return s == want.isoformat()
    if isinstance(want, dt.timedelta):
        return value(("text", x), dict(type=11), "text")[1] == want // dt.timedelta(microseconds=1)
    return None


def brief(v):
    s = show(v) if isinstance(v, AV) else repr(v)
    return s if len(s) < 80 else f"{s[:60]}... ({len(s)} characters)"


# -- what's checked


def judge(rep, rule, site, r, cols, rows, read, charset, path):
    """Compare what the client decodes with what the application returned"""
    def bad(msg):
        rep.ob(rule, site, False, msg, path=path)

    if len(cols) != len(r.cols):
        return bad(f"{len(cols)} columns are sent, the application returned {len(r.cols)}")
    for i, (c, w) in enumerate(zip(cols, r.cols)):
        n = c["name"]
        try:
            got = known(n).decode(CHARSETS[charset][1])
        except UnicodeDecodeError:
            got = n
        if got != w.name:
            return bad(f"column {i + 1} is called {brief(got)}, the application called it {brief(w.name)}")
    if len(rows) != len(r.rows):
        return bad(f"{len(rows)} rows are sent, the application returned {len(r.rows)}")
    for j, (row, want) in enumerate(zip(rows, r.rows)):
        for i, (cell, w) in enumerate(zip(row, want)):
            v = value(cell, cols[i], read)
            ok = same(v, w, cols[i], r.cols[i].charset, r.cols[i].type)
            if ok is None:
                raise Unknown("a value of another kind")
            if not ok:
                return bad(f"row {j + 1}, column {i + 1} ({NAME.get(cols[i]['type'], cols[i]['type'])}): a client gets {'NULL' if v is None else brief(v[1])}, the application returned {'NULL' if w is None else brief(w)}")
    rep.ob(rule, site, True)


def one(rep, p, r, env=None, eof=False, cursor=None, charset="utf8mb4", only=None):
    """The text and the binary protocol, and a cursor"""
    env = env or Results(p)
    env.server_charset = charset
    cmds = [env.com_query(b"SELECT 1", attributes=False), env.com_prepare(b"SELECT 1"), env.com_execute(0, [])]
    ways = [("text protocol", 0), ("binary protocol", 2)]
    nq = 2
    if cursor:
        n = 2
        cmds += [env.com_execute(0, [], cursor=1)]
        for k in range((len(r.rows) // cursor) + 2):
            cmds.append(env.com_fetch(0, cursor))
        ways.append(("cursor", 3))

    def run(path):
        path.data["caps_on"] = 0 if eof else DEPRECATE_EOF
        path.data["results"] = [r] * 3
        return env.run(path, cmds)

    def each(res):
        if res.status in ("undecided", "budget") or res.status == "raise":
            for w, _ in ways:
                rep.ob("cells", f"{r.what}: {w}", None, res.reason or f"the connection fails: {res.exc!r}")
            return
        reps = res.path.data["replies"]
        for w, i in ways:
            site = f"{r.what}: {w}"
            try:
                if i >= len(reps):
                    raise Unknown("the conversation ends early")
                cols, rest = client_columns(reps[i], eof)
                if cols is None:
                    if r.cols:
                        raise Bad("the response is OK, not a result")
                    rep.ob("cells", site, True)
                    continue
                read = text_cells if w == "text protocol" else binary_cells
                for c in cols:
                    for k in ("type", "flags", "charset"):
                        if not isinstance(c[k], int):
                            raise Unknown(f"{k} of a column")
                if w == "cursor":
                    rows = []
                    over = False
                    for q in reps[i + 1:]:
                        if over or not q:
                            break
                        x, end = rows_of(q, eof, lambda y: read(y, cols))
                        if not end:
                            raise Bad("the rows that were fetched aren't terminated")
                        rows += x
                        s = (eof_packet if eof else ok_packet)(q[-1])["status"]
                        s = getattr(s, "value", s)
                        if not isinstance(s, int):
                            raise Unknown("status flags")
                        over = bool(s & LAST_ROW_SENT)
                else:
                    rows, end = rows_of(rest, eof, lambda y: read(y, cols))
                    if not end:
                        raise Bad("the rows aren't terminated")
                judge(rep, "cells", site, r, cols, rows, w, charset, res.path)
            except Unknown as e:
                rep.ob("cells", site, None, str(e))
            except Bad as e:
                rep.ob("cells", site, False, str(e), path=res.path)

    rep.explore(p, env, run, r.what, max_paths=4, budget_s=120, each=each)


D, DT, TD, DEC = dt.date, dt.datetime, dt.timedelta, decimal.Decimal


def ints(n, more=()):
    m = 1 << 8 * n - 1
    return [0, 1, -1, 2, m - 1, -m, m // 2, -m // 2 - 1, 127, -128, *more]


LENGTHS = [0, 1, 2, 31, 250, 251, 252, 255, 256, 300]
LONG = [65535, 65536, 65537, 70_000]
FUNNY = ["NULL", "null", "0", " x ", "it's", 'say "hi"', "back\\slash", "a\0b", "\n\r\t", "%s ? `", "\x7f", "1e5", "trail\0", "trail \0\0", "\0", "\r\n", "\ta "]
MULTI = {"utf8mb4": ["é", "日本語", "😀", "a😀é" * 50, "é" * 125, "é" * 126, "日" * 84, "\ufb01\ufffd", "ÿþ"], "utf8": ["é", "日本語", "é" * 126], "latin1": ["é", "ÿûþ", "û" * 251, "é" * 250],
         "utf16": ["é", "日本語", "😀", "a" * 125, "a" * 126, "þÿ", "\ufeffx"], "utf32": ["é", "日本語", "😀", "a" * 63, "\ufeffx"], "ascii": ["abc"],
         "cp1251": ["я", "Привет", "ы" * 251], "gbk": ["中文", "中" * 126], "big5": ["中文"], "greek": ["αβγ"]}
DATES_ = [D(1, 1, 1), D(9999, 12, 31), D(2000, 2, 29), D(1969, 12, 31), D(2024, 10, 9), D(256, 1, 1), D(255, 12, 31), D(2023, 1, 10)]
TIMES_ = [DT(2024, 2, 29), DT(1, 1, 1), DT(2024, 1, 2, 3), DT(2024, 1, 2, 0, 4), DT(2024, 1, 2, 0, 0, 5), DT(2024, 1, 2, 3, 4, 5), DT(2024, 1, 2, 0, 0, 0, 1), DT(2024, 1, 2, 0, 0, 0, 999999),
          DT(9999, 12, 31, 23, 59, 59, 999999), DT(2024, 1, 2, 3, 4, 5, 100000), DT(2024, 1, 2, 3, 4, 5, 10), DT(2024, 1, 2, 23, 0, 0, 70000), DT(1000, 10, 10, 10, 10, 10)]
DURATIONS = [TD(0), TD(seconds=1), TD(seconds=59), TD(minutes=1), TD(minutes=59, seconds=59), TD(hours=1), TD(hours=9, minutes=5), TD(hours=23, minutes=59, seconds=59), TD(hours=24), TD(hours=25, minutes=1),
             TD(hours=47, seconds=1), TD(days=2), TD(hours=99, minutes=59), TD(hours=100), TD(days=34, hours=22, minutes=59, seconds=59), TD(microseconds=1), TD(milliseconds=500), TD(seconds=1, microseconds=10),
             TD(hours=30, microseconds=999999)]
DURATIONS += [-x for x in DURATIONS[1:]]
TEXTS_ = ["x" * n for n in LENGTHS] + FUNNY
BYTES_ = [b"y" * n for n in LENGTHS] + [b"\xfb", b"\xff\xfe", b"\0", bytes(range(256)), b"\xfe" * 9, b"\xfc\xfd", b"'\\\"", b"\xc3\xa9", b"trail\0\0", b"a ", b" a"]
FLOATS = [0.0, 1.0, -1.5, 0.1, 2.25, 1e-3, 123456.75, 1e10, 16777216.0, 3.0e38, -3.4028234663852886e38, 1e-40, 7, -3]
DOUBLES = [0.0, -0.0, 1.0, -1.5, 0.1, 1 / 3, -2 / 3, 1e15, 1e16, 1e22, 1.7976931348623157e308, -5e-324, 2.2250738585072014e-308, 123456789.123456789, 9007199254740993.0, 7, -3]
DECIMALS = [DEC("0"), DEC("-123.4500"), DEC("99999999999999999999999999999999999.99"), DEC("0.000001"), 5, -7, "1.10"]

TYPED = {
    "TINY": ints(1) + [True, False], "SHORT": ints(2, [True]), "INT24": ints(3, [True]), "LONG": ints(4, [False, True]), "LONGLONG": ints(8, [1 << 62, -(1 << 53) - 1, True, False]), "YEAR": [0, 1901, 2024, 2155],
    "BOOL": [True, False, 1, 0], "FLOAT": FLOATS, "DOUBLE": DOUBLES, "DECIMAL": DECIMALS, "NEWDECIMAL": DECIMALS,
    "DATE": DATES_, "DATETIME": TIMES_ + [D(2024, 1, 2)], "TIMESTAMP": TIMES_, "TIME": DURATIONS,
    "VARCHAR": TEXTS_ + BYTES_[-8:] + MULTI["utf8mb4"] + [5, -7], "VAR_STRING": TEXTS_ + MULTI["utf8mb4"], "STRING": TEXTS_ + BYTES_[-8:] + MULTI["utf8mb4"],
    "BLOB": BYTES_ + ["text", "é"], "TINY_BLOB": BYTES_, "MEDIUM_BLOB": BYTES_, "LONG_BLOB": BYTES_, "BIT": [b"\0", b"\x01", b"\xff\x00"],
    "JSON": ['{"a": [1, null]}', "null", '"é😀"'], "ENUM": ["a", "é", ""], "SET": ["a,b", ""], "GEOMETRY": BYTES_,
}
INFERRED = {
    "bool": [True, False], "int": ints(8, [1 << 62, 300, -70000]), "float": DOUBLES[:-2], "str": TEXTS_ + MULTI["utf8mb4"], "bytes": BYTES_, "date": DATES_, "datetime": TIMES_, "timedelta": DURATIONS,
    "Decimal": [x for x in DECIMALS if isinstance(x, DEC)], "int and bool": [5, True, False, -3], "bool, then int": [True, 2, -128, 127, False],
}


def framed(what, col, values, **kw):
    """Between two other columns, among NULLs"""
    cols = [Col("left", "VARCHAR"), col, Col("right", "LONGLONG")]
    rows = []
    for i, v in enumerate(values):
        rows.append(("<", v, i))
        if i % 5 == 3:
            rows.append((None if i % 2 else "-", None, None if i % 3 else -i))
    return Result(what, cols, rows, **kw)


def typed(rep, p, names):
    env = Results(p)
    for t in names:
        one(rep, p, framed(f"values of type {t}", Col("value", t), TYPED[t]), env)
        one(rep, p, Result(f"the only column is of type {t}", [Col("value", t)], [(v,) for v in [None] + TYPED[t][:6] + [None]]), env)
    rep.visited |= p.interp.visited


def inferred(rep, p, names):
    env = Results(p)
    for t in names:
        r = framed(f"inferred: values of type {t}", Col("value"), INFERRED[t])
        one(rep, p, r, env)
        falsy = [v for v in INFERRED[t] if not v]
        if falsy:
            one(rep, p, Result(f"inferred: nothing but {falsy[0]!r}", [Col("a"), Col("b")], [(falsy[0], None), (None, falsy[0])]), env)
        # and all of them inferred, the first values as late as possible
        rows = [(None, None, None)] + [("l", None, None)] + [(None, v, i) for i, v in enumerate(INFERRED[t])] + [(None, None, None)]
        one(rep, p, Result(f"inferred after NULLs: values of type {t}", [Col("a"), Col("b"), Col("c")], rows, source="AIterable"), env)
        # bare names next to typed columns
        one(rep, p, Result(f"inferred next to typed columns: values of type {t}", [Col("n"), Col("value"), Col("t", "VARCHAR")], [(None, v, "t") for v in INFERRED[t]], source="agen"), env)
    rep.visited |= p.interp.visited


def charsets(rep, p, names):
    env = Results(p)
    for c in names:
        vals = MULTI[c] + ["", "abc", "x" * 251]
        for t in ("VARCHAR", "STRING", "BLOB", "ENUM") if c in ("utf8mb4", "utf16", "latin1") else ("VARCHAR",):
            one(rep, p, framed(f"{t} in {c}", Col("value", t, c), vals), env)
        n = MULTI[c][0]
        one(rep, p, Result(f"names in {c}", [Col("plain", "LONGLONG"), Col(n, "VARCHAR"), Col(n * 3, "DATE"), Col(n), Col("x" * 300, "TINY")], [(1, "x", D(2024, 1, 2), 5, 1)]), env, charset=c)
    one(rep, p, Result("columns of different character sets", [Col(c, "VARCHAR", c) for c in MULTI], [tuple(MULTI[c][k % len(MULTI[c])] for c in MULTI) for k in range(4)]), env)
    rep.visited |= p.interp.visited


def long(rep, p):
    env = Results(p)
    one(rep, p, framed("long strings", Col("value", "VARCHAR"), ["z" * n for n in LONG] + ["é" * 32767, "é" * 32768]), env)
    one(rep, p, framed("long bytes", Col("value", "BLOB"), [b"z" * n for n in LONG]), env)
    one(rep, p, framed("long strings, inferred", Col("value"), ["z" * n for n in LONG]), env)
    rep.visited |= p.interp.visited


SAMPLE = ["s", 5, 1.5, D(2024, 1, 2), b"b", TD(hours=-30), DT(2024, 1, 2, 3, 4, 5), True]
SAMPLE_T = ["VARCHAR", "LONGLONG", "DOUBLE", "DATE", "BLOB", "TIME", "DATETIME", "TINY"]


def nulls(rep, p, sizes, declared):
    """NULL patterns"""
    env = Results(p)
    for n in sizes:
        vals = [SAMPLE[i % len(SAMPLE)] for i in range(n)]
        cols = [Col(f"c{i}", SAMPLE_T[i % len(SAMPLE)] if declared else None) for i in range(n)]
        if n <= 3:
            pats = list(itertools.product((0, 1), repeat=n))
        else:
            pats = [[0] * n, [1] * n, [i % 2 for i in range(n)], [1 - i % 2 for i in range(n)]]
            some = range(n) if n <= 24 else [0, 1, 5, 6, 7, 8, 13, 14, 15, 16, n - 10, n - 3, n - 2, n - 1]
            pats += [[int(i == j) for i in range(n)] for j in some] + [[int(i != j) for i in range(n)] for j in some]
        rows = [tuple(None if x else v for v, x in zip(vals, pat)) for pat in pats]
        one(rep, p, Result(f"NULLs in {n} {'typed' if declared else 'inferred'} columns", cols, rows), env)
        if not declared:
            # no column is known before the last row
            rows = [tuple(v if i == n - 1 - j else None for i, v in enumerate(vals)) for j in range(n)] if n <= 24 else rows[::-1]
            one(rep, p, Result(f"inference of {n} columns, from the last to the first", cols, rows), env)
    rep.visited |= p.interp.visited


def shapes(rep, p, shape, declared):
    """Ways of handing over a result"""
    env = Results(p)
    rows = [(None, "a", None), (1, "b", None), (None, None, D(2024, 1, 2)), (3, "d", D(2024, 1, 3)), (4, None, None)]
    types = ["LONGLONG", "STRING", "DATE"]
    cols = {"typed": [Col("x", t) for t in types], "names": [Col("x"), Col("y"), Col("x")], "mixed": [Col("x"), Col("y", "STRING"), Col("x")]}[declared]
    for source in ("list", "tuple", "agen", "gen", "AIter", "AIterable", "Rows"):
        for row in ("tuple", "list"):
            for k, rs in (("no rows", []), ("one row", rows[1:2]), ("five rows", rows)):
                if row == "list" and k != "five rows":
                    continue
                what = f"{'a tuple' if shape == 'tuple' else 'a ResultSet'}, {declared}, {k} of {source} ({row}s)"
                one(rep, p, Result(what, cols, rs, shape, source, row), env, cursor=2 if k == "five rows" else None, eof=row == "list")
    rep.visited |= p.interp.visited


def sizes(rep, p, which):
    env = Results(p)
    if which == "columns":
        for n in (250, 251, 252, 256, 300):
            one(rep, p, Result(f"{n} columns", [Col(f"c{i}", "LONGLONG" if i % 2 else "VARCHAR") for i in range(n)], [tuple(i if i % 2 else str(i) for i in range(n)), tuple(None if i % 3 else i if i % 2 else str(i) for i in range(n))]), env)
        for shape in ("tuple", "result"):
            one(rep, p, Result(f"no columns ({shape})", [], [], shape), env)
    elif which == "names":
        one(rep, p, Result("columns of the same name", [Col("a"), Col("a"), Col("b"), Col("a"), Col("b", "DATE")], [(None, None, 1, "x", None), (5, None, None, "y", D(2024, 1, 2)), (6, 2.5, 3, None, None)]), env)
        one(rep, p, Result("typed columns of the same name", [Col("a", "LONGLONG"), Col("a", "VARCHAR"), Col("a", "DATE")], [(1, "x", D(2024, 1, 2)), (None, "y", None)]), env)
        one(rep, p, Result("odd names", [Col("", "LONGLONG"), Col("a b"), Col("`q`", "VARCHAR"), Col("n" * 251), Col("A"), Col("a")], [(1, 2, "x", 3, "u", "l")]), env)
    else:
        what, n, declared, source = which
        cols = [Col("n", "LONGLONG" if declared else None), Col("late", "VARCHAR" if declared else None), Col("never", "VARCHAR" if declared else None)]
        rows = [(i, "x" if i >= n - 2 else None, None) for i in range(n)]
        one(rep, p, Result(what, cols, rows, source=source), env)
    rep.visited |= p.interp.visited


class Any(Results):
    """One cell, of which only the type is known"""

    split_lengths = True

    def build(self, path, r):
        path.data["cell"] = r.rows[0][1]
        return super().build(path, r)

    def decide(self, path, sym):
        if sym.op == "isnone" and sym.args[0] is path.data.get("cell"):
            return False
        if sym.op == "isinstance" and sym.args[0] is path.data.get("cell") and sym.args[0].ty is dt.date and sym.args[1] is dt.datetime:
            return False
        if path.data["phase"] == "commands" and any(x is path.data.get("cell") for x in terms(sym)):
            return None
        return super().decide(path, sym)


def zero(path, v):
    """Is this number 0?  True, False, None"""
    v = path.resolve(v)
    if not isinstance(v, Sym):
        return v == 0
    k = path.known_cmp("==", v, 0)
    if k is None:
        lo, hi = path.interval(v)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
    return k


def any_value(rep, p, kind, types):
    env = Any(p)
    for t in types:
        ty = {"int": "int", "str": "str", "bytes": "bytes", "datetime": dt.datetime, "date": dt.date}[kind]
        v = Sym("atom", f"the {kind}", ty=ty)
        for cs in ("utf8mb4", "utf16") if kind == "str" and t else (None,):
            r = Result(f"any {kind} in {'an inferred' if t is None else 'a ' + t} column" + (f" in {cs}" if cs else ""), [Col("l", "LONGLONG"), Col("v", t, cs if t else None), Col("r", "LONGLONG")], [(1, v, 2)])
            for way, binary in (("text protocol", False), ("binary protocol", True)):
                one_any(rep, p, env, r, v, kind, t, cs, way, binary)
    rep.visited |= p.interp.visited


def one_any(rep, p, env, r, v, kind, t, cs, way, binary):
    site = f"{r.what}: {way}"
    cmds = [env.com_prepare(b"SELECT 1"), env.com_execute(0, [])] if binary else [env.com_query(b"SELECT 1", attributes=False)]

    def run(path):
        path.data["caps_on"] = DEPRECATE_EOF
        path.data["results"] = [r]
        return env.run(path, cmds)

    def each(res):
        path = res.path
        if res.status != "ok" and res.status != "stop":
            rep.ob("cells.any", site, None, res.reason or res.status)
            return
        try:
            cols, rest = client_columns(path.data["replies"][len(cmds) - 1], False)
            rows, end = rows_of(rest, False, lambda x: (binary_cells if binary else text_cells)(x, cols))
            if len(rows) != 1 or not end:
                raise Bad(f"{len(rows)} rows")
            ok = exactly(path, rows[0][1], v, kind, cols[1], CHARSETS[cs or "utf8mb4"][1], binary)
            if value(rows[0][0], cols[0], way) != ("int", 1) or value(rows[0][2], cols[2], way) != ("int", 2):
                raise Bad("the value shifts its neighbours")
            rep.ob("cells.any", site, ok, f"{show(rows[0][1])[:80]} is sent", path=path)
        except Unknown as e:
            rep.ob("cells.any", site, None, str(e))
        except Bad as e:
            b = str(e)
            # (an integer that's too big for its column may be refused)
            rep.ob("cells.any", site, None if "an error" in b else False, b, path=path)

    rep.explore(p, env, run, r.what, max_paths=400, budget_s=60, each=each)


DATE_PARTS = ("year", "month", "day", "hour", "minute", "second", "microsecond")


def exactly(path, cell, v, kind, col, codec, binary):
    if kind == "int" and cell is not None:
        if cell[0] == "int":
            (x,) = cell[1] if len(cell[1]) == 1 else (None,)
            return True if isinstance(x, Sym) and x.op == "le" and x.args[0] == cell[2] and x.args[-1] is v and bool(x.args[1]) != cell[3] else None
        s = Sym("str", v, ty="str")
        x = cell[1]
        return True if isinstance(x, Sym) and x.op == "m" and x.args[0] == "encode" and x.args[1] is s else None
    if kind == "bytes":
        return True if cell is not None and cell[1] is v else None
    if kind == "str":
        x = cell[1] if cell is not None else None
        if isinstance(x, Sym) and x.op == "m" and x.args[0] == "encode" and x.args[1] is v and isinstance(x.args[2], str):
            import codecs

            try:
                return codecs.lookup(x.args[2]).name == codecs.lookup(codec).name and x.args[3] == "strict" or None
            except LookupError:
                return None
        return None
    if kind in ("date", "datetime") and cell is not None and cell[0] == "text":
        x = cell[1]
        return True if isinstance(x, Sym) and x.op == "m" and x.args[0] == "encode" and x.args[1] is Sym("str", v, ty="str") else None
    if kind in ("date", "datetime") and cell is not None and cell[0] == "date":
        f = cell[2]
        names = ("year", "month", "day") + (("hour", "minute", "second", "microsecond") if kind == "datetime" else ())
        for i, n in enumerate(names):
            a = Sym("attr", v, n, ty="int")
            if i < len(f):
                if f[i] is a or path.resolve(a) == f[i]:
                    continue
                if isinstance(f[i], int):
                    return False if zero(path, a) is False and f[i] == 0 else None
                return None
            z = zero(path, a)
            if z is None:
                # (through a chain of equal fields)
                seen = [a]
                for x in seen:
                    for m in DATE_PARTS:
                        y = Sym("attr", v, m, ty="int")
                        if y not in seen and path.known_cmp("==", x, y) is True:
                            seen.append(y)
                if any(zero(path, y) is True for y in seen):
                    z = True
            if z is not True:
                return None if z is None else False
        return True if not any(x for x in f[len(names):]) else None
    return None


def check(rep):
    p = Program()
    rep.rule("cells", "a client that decodes the text protocol, the binary protocol, or what it fetches from a cursor, gets the columns, the names, the rows and the values that the application returned")
    rep.assumptions.append("values: boundaries of every type, and of the lengths of their encodings; the packets are those that the interpreted source hands to the stream")
    rep.rule("cells.any", "the same for values that aren't known: any integer, string, byte string or date, whatever the length of its encoding")
    T_ = list(TYPED)
    jobs = [(typed, rep, p, T_[i::4]) for i in range(4)]
    I_ = list(INFERRED)
    jobs += [(inferred, rep, p, I_[i::3]) for i in range(3)]
    C_ = list(MULTI)
    jobs += [(charsets, rep, p, C_[i::2]) for i in range(2)]
    jobs += [(long, rep, p)]
    for d in (True, False):
        jobs += [(nulls, rep, p, range(1, 10), d), (nulls, rep, p, (13, 14, 15, 16, 17), d), (nulls, rep, p, (62, 63) if not rep.thorough else (21, 22, 23, 61, 62, 63, 70), d)]
    for s in ("tuple", "result"):
        for d in ("typed", "names", "mixed") if s == "tuple" else ("typed",):
            jobs.append((shapes, rep, p, s, d))
    jobs += [(sizes, rep, p, "columns"), (sizes, rep, p, "names")]
    for n in (999, 1000, 1001, 1002, 1100) if rep.thorough else (1000, 1002):
        for s in ("list", "agen"):
            jobs.append((sizes, rep, p, (f"{n} rows of {s}, inferred", n, False, s)))
    jobs.append((sizes, rep, p, ("1100 rows, typed", 1100, True, "list")))
    jobs += [(any_value, rep, p, "int", ["TINY", "SHORT", "INT24", "LONG", "LONGLONG", "YEAR", None]), (any_value, rep, p, "str", ["VARCHAR", "BLOB", "STRING", "JSON", None]),
             (any_value, rep, p, "bytes", ["BLOB", "VARCHAR", "BIT", None]), (any_value, rep, p, "datetime", ["DATETIME", "TIMESTAMP", None]), (any_value, rep, p, "date", ["DATE", "DATETIME", None])]
    rep.parallel(jobs)
