"""Packets of known layout, made of unknown fields"""
from __future__ import annotations

from .conn import *


class Wire(Client):
    max_loop = 600
    max_steps = 2_000_000

    def __init__(self, program):
        self.p = program
        self.it = program.interp

    def start(self, path):
        path.data.setdefault("free", {})

    def data(self, path, name, n, free=b""):
        """Unknown bytes (of a known number), some of which don't occur"""
        if not n:
            return b""
        x = Sym("atom", name, ty="bytes")
        path.eqs[Sym("len", x, ty="int")] = n
        path.data["free"][x] = {bytes([c]) for c in free}
        return x

    text = data

    def decodes(self, got, want, codec=None):
        """Is it the text of these bytes?  True, False (something else), None (not known)"""
        if isinstance(want, bytes) and isinstance(got, str):
            if all(c < 128 for c in want):
                return got == want.decode("latin-1")
            try:
                return got == want.decode(codec) if codec else None
            except (UnicodeError, LookupError):
                return None
        if not isinstance(got, Sym):
            return False
        if got.op == "dec" or got.op == "m" and got.args[0] == "decode":
            src = got.args[1]
            if src is not want:
                return None if isinstance(src, Sym) and src.op == "slice" and isinstance(src.args[0], Sym) and src.args[0].op == "cat" else False
            if got.op == "dec":
                return True
            c = got.args[2]
            if isinstance(c, str) and codec_name(c) in {"utf-8", codec_name(codec)}:
                return got.args[3] == "strict"
            return None
        return None

    def decide(self, path, sym):
        if sym.op == "cmp" and sym.args[0] == "==":
            for x, y in ((sym.args[1], sym.args[2]), (sym.args[2], sym.args[1])):
                if isinstance(x, Sym) and isinstance(y, (bytes, int)) and not isinstance(y, bool):
                    base = x.args[0] if x.op in ("slice", "item") else x
                    c = bytes([y]) if isinstance(y, int) and 0 <= y < 256 else y
                    n = self.it.length(x) if x.ty == "bytes" else 1
                    if isinstance(c, bytes) and len(c) == 1 and n == 1 and c in path.data["free"].get(base, ()):
                        return False
        return None
