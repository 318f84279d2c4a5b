"""Abstract values.

Constants (int, str, bytes, bool, None, float, host tuples of values and host classes) stand for
themselves.  Everything else is an AV.
"""
from __future__ import annotations

import datetime
import decimal
import weakref
from typing import Any


class AV:
    """Base class of abstract values"""


class Sym(AV):
    """A Herbrand term: an unknown value, identified by how it was obtained (value number)"""

    __slots__ = ("op", "args", "ty", "_h")
    table = weakref.WeakValueDictionary()

    def __new__(cls, op, *args, ty=None):
        key = (op, tuple(_ck(a) for a in args))
        s = cls.table.get(key)
        if s is None:
            s = object.__new__(cls)
            s.op, s.args, s.ty = op, args, ty
            s._h = hash(key)
            cls.table[key] = s
        elif ty is not None and s.ty is None:
            s.ty = ty
        return s

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def _ck(a):
    # 1 == True == 1.0 for the host, but not for us
    if isinstance(a, (bool, int, float)):
        return (type(a).__name__, a)
    if isinstance(a, tuple):
        return tuple(_ck(x) for x in a)
    return a


def atom(name, ty=None):
    return Sym("atom", name, ty=ty)


class EnumV(AV):
    """Member of an enum class of the program (or a combination of flags)"""

    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        if isinstance(o, EnumV):
            if self.cls is o.cls:
                return self.value == o.value
            return self.cls.is_int and o.cls.is_int and self.value == o.value
        return self.cls.is_int and not isinstance(o, AV) and self.value == o

    def __hash__(self):
        return hash(self.value)

    def __repr__(self):
        return f"{self.cls.name}.{self.name or self.value}"


class UClass(AV):
    def __init__(self, name, bases, ns, module, qual, node=None):
        self.name, self.bases, self.ns = name, bases, ns
        self.module, self.qual, self.node = module, qual, node
        self.fields = None  # dataclass fields: [(name, has_default, default node/value)]
        self.enum_members = None
        self.is_int = False
        self.is_flag = False
        self._mro = None

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases:
                for c in (b.mro() if isinstance(b, (UClass, ExtClass)) else list(b.__mro__) if isinstance(b, type) else []):
                    if c in out and c is not object:
                        out.remove(c) if c in out else None
                    if c not in out:
                        out.append(c)
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, UClass) and name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


class ExtClass(AV):
    """A class of a library, of which only its place in the hierarchy is known"""

    cache: dict = {}

    def __init__(self, path, bases=()):
        self.path, self.bases = path, tuple(bases)
        self.name = path.rsplit(".", 1)[-1]

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ExtClass):
                out.extend(c for c in b.mro() if c not in out)
        return out

    def __repr__(self):
        return f"<ext class {self.name}>"


class Obj(AV):
    """An object that was allocated on this path"""

    def __init__(self, cls, attrs=None, label=None, open_=False):
        self.cls = cls
        self.open = open_  # attributes that aren't known are unknown values
        self.attrs = attrs if attrs is not None else {}
        self.label = label

    def __repr__(self):
        n = getattr(self.cls, "name", None) or getattr(self.cls, "__name__", "?")
        return f"<{self.label or n}>"


class AList(AV):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return repr(self.items)


class ADict(AV):
    def __init__(self, d=None, open_=None):
        self.d = dict(d or {})
        self.open = open_  # a term: there may be other, unknown, keys

    def __repr__(self):
        return f"dict{self.d}"


class ASet(AV):
    def __init__(self, items=()):
        self.items = []
        for i in items:
            if i not in self.items:
                self.items.append(i)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.items))


class ABuf(AV):
    """bytearray: a sequence of byte strings"""

    def __init__(self, parts=()):
        self.parts = list(parts)

    def __repr__(self):
        return f"bytearray{self.parts}"


class Func(AV):
    def __init__(self, node, module, env, name, qual, defaults, kw_defaults, owner=None):
        self.node, self.module, self.env = node, module, env
        self.name, self.qual = name, qual
        self.defaults, self.kw_defaults = defaults, kw_defaults
        self.owner = owner  # class
        self.is_async = node.__class__.__name__ == "AsyncFunctionDef"
        self.is_gen = False
        self.kind = None  # property, classmethod, staticmethod
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound(AV):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))

    def __repr__(self):
        return f"<bound {self.func!r} of {self.self_!r}>"


class Prim(AV):
    """A function that's modelled by the analyser"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<prim {self.name}>"


class Ext(AV):
    """Something of a library, identified by its path"""

    cache: dict = {}

    def __new__(cls, path):
        e = cls.cache.get(path)
        if e is None:
            e = object.__new__(cls)
            e.path = path
            cls.cache[path] = e
        return e

    def __repr__(self):
        return f"<ext {self.path}>"


class Mod(AV):
    def __init__(self, name):
        self.name = name
        self.ns = {}
        self.file = None
        self.loaded = False

    def __repr__(self):
        return f"<module {self.name}>"


class Gen(AV):
    """Generator (sync or async) of the program"""

    def __init__(self, host, func, is_async):
        self.host, self.func, self.is_async = host, func, is_async
        self.done = False
        self.started = False

    def __repr__(self):
        return f"<generator {self.func.qual if self.func else '?'}>"


class Coro(AV):
    def __init__(self, run, func, args=()):
        self.run, self.func, self.args = run, func, args
        self.used = False

    def __repr__(self):
        return f"<coroutine {getattr(self.func, 'qual', self.func)}>"


class Task(AV):
    def __init__(self, coro, label="task"):
        self.coro, self.label = coro, label
        self.cancel_pending = 0
        self.cancelling = 0
        self.done = False
        self.ctx = None

    def __repr__(self):
        return f"<{self.label}>"


class Iter(AV):
    """Iterator over a known finite or a k-limited sequence (host generator of values)"""

    def __init__(self, host, src=None, is_async=False):
        self.host, self.src, self.is_async = host, src, is_async

    def __repr__(self):
        return f"<iterator over {self.src!r}>"


class SuperV(AV):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class RangeV(AV):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step


# immutable values of the host that stand for themselves, when a client hands them to the program
HOST_VALUES = (datetime.date, datetime.time, datetime.timedelta, datetime.tzinfo, decimal.Decimal)
CONST = (int, str, bytes, bool, type(None), float, complex, type(Ellipsis), *HOST_VALUES)


def is_const(v) -> bool:
    if isinstance(v, CONST):
        return True
    if isinstance(v, tuple):
        return all(is_const(x) for x in v)
    return isinstance(v, type)


class Raise(Exception):
    """An exception of the analysed program"""

    def __init__(self, value, node=None):
        super().__init__()
        self.value, self.node = value, node
        self.where = None

    def __repr__(self):
        return f"Raise({self.value!r})"


class Undecided(Exception):
    """The analysis lost track on this path"""


class Cut(Exception):
    """The path is longer than the bound (the explored prefix remains valid)"""


class Stop(Exception):
    """The client has seen enough of this path"""


def show(v: Any, depth: int = 4) -> str:
    if isinstance(v, Sym):
        if v.op == "atom":
            return str(v.args[0])
        if depth <= 0:
            return v.op + "(..)"
        a = [show(x, depth - 1) for x in v.args]
        if v.op == "attr":
            return f"{a[0]}.{v.args[1]}"
        if v.op == "item" and len(a) == 2:
            return f"{a[0]}[{a[1]}]"
        if v.op == "cmp":
            return f"({a[1]} {v.args[0]} {a[2]})"
        if v.op in ("+", "-", "*", "//", "%", "&", "|", "^", "<<", ">>") and len(a) == 2:
            return f"({a[0]} {v.op} {a[1]})"
        if v.op == "call":
            return f"{v.args[0] if isinstance(v.args[0], str) else a[0]}({', '.join(a[1:])})"
        return f"{v.op}({', '.join(a)})"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x, depth - 1) for x in v) + ")"
    return repr(v)


def _join_le(out, q):
    """le(2, x & 0xffff) le(1, x >> 16)  ==  le(3, x)  (same for other sizes)"""
    if isinstance(q, Sym) and q.op == "le" and out and isinstance(out[-1], Sym) and out[-1].op == "le":
        (n1, s1, a), (n2, s2, b) = out[-1].args, q.args
        if not s1 and not s2 and isinstance(a, Sym) and isinstance(b, Sym) and a.op == "&" and b.op == ">>":
            if a.args[1] == 256**n1 - 1 and b.args[1] == 8 * n1 and a.args[0] is b.args[0]:
                out[-1] = Sym("le", n1 + n2, False, a.args[0])
                return True
        if not s1 and not s2 and isinstance(a, Sym) and isinstance(b, Sym) and a.op in ("%", "&") and b.op in ("//", ">>"):
            low = a.args[1] == (256**n1 if a.op == "%" else 256**n1 - 1)
            high = b.args[1] == (256**n1 if b.op == "//" else 8 * n1)
            if low and high and a.args[0] is b.args[0]:
                out[-1] = Sym("le", n1 + n2, False, a.args[0])
                return True
    return False


def cat(*parts):
    """Concatenation of byte strings / strings, in normal form"""
    out = []
    for p in parts:
        if isinstance(p, Sym) and p.op == "cat":
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, (bytes, str)):
                if not q:
                    continue
                if out and type(out[-1]) is type(q):
                    out[-1] = out[-1] + q
                    continue
            if _join_le(out, q):
                continue
            out.append(q)
    if not out:
        return b"" if not any(isinstance(p, str) for p in parts) else ""
    if len(out) == 1:
        return out[0]
    ty = "str" if any(isinstance(p, str) or (isinstance(p, Sym) and p.ty == "str") for p in out) else "bytes"
    return Sym("cat", *out, ty=ty)
