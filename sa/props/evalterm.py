"""Values of extracted terms, at given values of their unknowns"""
from __future__ import annotations

import re

from ..values import *


class Unknown(Exception):
    """The term has parts that aren't understood"""


METHODS = {
    "replace", "lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "find", "rfind", "index", "count", "split", "rsplit", "partition", "rpartition", "join",
    "translate", "zfill", "ljust", "rjust", "center", "removeprefix", "removesuffix", "isdigit", "isalpha", "isalnum", "isspace", "isascii", "isprintable", "encode", "decode",
    "splitlines", "expandtabs", "casefold", "title", "capitalize", "swapcase", "hex", "is_integer", "bit_length", "format", "isnumeric", "isdecimal", "isidentifier",
}
OPS = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "//": lambda a, b: a // b, "%": lambda a, b: a % b, "/": lambda a, b: a / b,
    "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b, "**": lambda a, b: a**b,
}
CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "in": lambda a, b: a in b, "not in": lambda a, b: a not in b, "is": lambda a, b: a is b, "is not": lambda a, b: a is not b}


def ev(t, env):
    if isinstance(t, tuple):
        return tuple(ev(x, env) for x in t)
    if not isinstance(t, Sym):
        if isinstance(t, AV):
            if isinstance(t, EnumV):
                raise Unknown(repr(t))
            raise Unknown(repr(t))
        return t
    if t in env:
        return env[t]
    op, a = t.op, t.args
    if op == "cat":
        xs = [ev(x, env) for x in a]
        out = xs[0]
        for x in xs[1:]:
            out = out + x
        return out
    if op == "m" and isinstance(a[0], str) and a[0] in METHODS:
        o = ev(a[1], env)
        args, kw = [], {}
        for x in a[2:]:
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "=":
                kw[x[1]] = ev(x[2], env)
            else:
                args.append(ev(x, env))
        if not isinstance(o, (str, bytes, int, float)):
            raise Unknown(a[0])
        return getattr(o, a[0])(*args, **kw)
    if op in ("str", "repr", "int", "float", "abs", "ascii", "bool", "ord", "chr", "hex", "bin", "oct"):
        return {"str": str, "repr": repr, "int": int, "float": float, "abs": abs, "ascii": ascii, "bool": bool, "ord": ord, "chr": chr, "hex": hex, "bin": bin, "oct": oct}[op](*[ev(x, env) for x in a])
    if op == "len":
        return len(ev(a[0], env))
    if op == "nonempty":
        return len(ev(a[0], env)) > 0
    if op in ("truthy",):
        return bool(ev(a[0], env))
    if op == "not":
        return not ev(a[0], env)
    if op == "isnone":
        return ev(a[0], env) is None
    if op == "cmp" and a[0] in CMP:
        return CMP[a[0]](ev(a[1], env), ev(a[2], env))
    if op == "eq":
        return ev(a[0], env) == ev(a[1], env)
    if op == "in":
        return ev(a[0], env) in ev(a[1], env)
    if op in OPS and len(a) == 2:
        return OPS[op](ev(a[0], env), ev(a[1], env))
    if op == "slice":
        return ev(a[0], env)[slice(*[ev(x, env) for x in a[1:]])]
    if op == "item":
        return ev(a[0], env)[ev(a[1], env)]
    if op == "fmt" and isinstance(a[0], str):
        args = [ev(x, env) for x in a[1:] if not (isinstance(x, tuple) and x[:1] == ("=",))]
        kw = {x[1]: ev(x[2], env) for x in a[1:] if isinstance(x, tuple) and x[:1] == ("=",)}
        return a[0].format(*args, **kw)
    if op == "call" and isinstance(a[0], str) and a[0].startswith("re."):
        f = getattr(re, a[0][3:], None)
        if a[0] in ("re.sub", "re.escape", "re.findall", "re.split"):
            return f(*[ev(x, env) for x in a[1:]])
        if a[0] in ("re.match", "re.search", "re.fullmatch"):
            return f(*[ev(x, env) for x in a[1:]]) is not None
    raise Unknown(show(t)[:80])


def holds(path, env):
    """Are the decisions of the path about these unknowns right for these values?  None: not known"""
    unknowns = set(env)
    res = True
    for t, v in path.truths.items():
        if not isinstance(t, Sym) or not _mentions(t, unknowns):
            continue
        try:
            if bool(ev(t, env)) != bool(v):
                return False
        except Unknown:
            res = None
        except Exception:  # pylint: disable=broad-except
            res = None
    return res


def _mentions(t, unknowns):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Sym) and x not in seen:
            if x in unknowns:
                return True
            seen.add(x)
            stack.extend(x.args)
    return False
