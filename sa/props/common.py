"""Things that several checks need"""
from __future__ import annotations

import codecs

from ..engine import INF, Client, MissingEntry, Path, Program, explore, loc
from ..interp import Interp
from ..values import *


def mk(path, cls, label=None, **attrs):
    """An object of a class of the program, with some attributes given and the rest unknown"""
    return Obj(cls, dict(attrs), label=label, open_=True)


def qual(f):
    f = f.func if isinstance(f, Bound) else f
    return getattr(f, "qual", None)


def method_of(program, f, base, name):
    """Is f the method `name` of class `base` or of one of its subclasses?"""
    return isinstance(f, Func) and f.name == name and f.owner is not None and any(getattr(c, "qual", "") == base for c in f.owner.mro())


def parts(v):
    """Parts of a byte string"""
    if isinstance(v, ABuf):
        v = cat(*v.parts)
    if isinstance(v, Sym) and v.op == "cat":
        return list(v.args)
    return [v]


def terms(v, seen=None):
    """All subterms"""
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if isinstance(x, Sym):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)


def mentions(v, what):
    return any(x is what for x in terms(v))


def mutable_ints(o, seen=None):
    """(object, attribute) of integers that are reachable from an object"""
    seen = {} if seen is None else seen
    if not isinstance(o, AV) or id(o) in seen:
        return
    seen[id(o)] = o
    if isinstance(o, Obj):
        for k, v in list(o.attrs.items()):
            if isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Sym):
                yield o, k, v
            else:
                yield from mutable_ints(v, seen)
    elif isinstance(o, AList):
        for v in o.items:
            yield from mutable_ints(v, seen)


def codec_name(c):
    try:
        return codecs.lookup(c).name
    except (LookupError, TypeError):
        return c
