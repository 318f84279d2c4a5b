"""Abstract semantics of Python statements and expressions (see engine.py)"""
from __future__ import annotations

import ast
import builtins
import datetime
import decimal
import operator
import time
import types as pytypes

from . import models
from .engine import INF, LIMIT, Frame
from .values import *

BRK, CNT = ("break",), ("continue",)

BINOPS = {
    ast.Add: ("+", operator.add),
    ast.Sub: ("-", operator.sub),
    ast.Mult: ("*", operator.mul),
    ast.Div: ("/", operator.truediv),
    ast.FloorDiv: ("//", operator.floordiv),
    ast.Mod: ("%", operator.mod),
    ast.Pow: ("**", operator.pow),
    ast.LShift: ("<<", operator.lshift),
    ast.RShift: (">>", operator.rshift),
    ast.BitOr: ("|", operator.or_),
    ast.BitAnd: ("&", operator.and_),
    ast.BitXor: ("^", operator.xor),
}

MAX_CONST = 1 << 16  # don't build bigger constants than this


def own_yields(nodes):
    """Yield nodes of a piece of code, not of the functions that are nested in it"""
    out = []

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return
        for c in ast.iter_child_nodes(n):
            go(c)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            out.append(n)

    for n in nodes:
        go(n)
    return out


def cache_key(a):
    """What a cache of the host tells apart; TypeError for what it may compare in ways unknown here"""
    if isinstance(a, tuple):
        return tuple(cache_key(x) for x in a)
    if is_const(a):
        return (type(a), a)
    if isinstance(a, EnumV):
        return (id(a.cls), a.value)
    if isinstance(a, Obj) and isinstance(a.cls, UClass):
        if a.cls.lookup("__eq__")[1] is not None or a.cls.lookup("__hash__")[1] is not None or a.cls.fields is not None:
            raise TypeError
        return id(a)
    if isinstance(a, (Obj, AList, ADict, ASet, ABuf)):
        raise TypeError
    return id(a)


def rejoined(s):
    """The number whose little-endian bytes this is the sum of"""
    base, have, todo = None, set(), [s]
    while todo:
        x = todo.pop()
        if x.op in ("+", "|") and all(isinstance(y, Sym) for y in x.args):
            todo += x.args
            continue
        sh = 0
        if x.op in ("<<", "*") and isinstance(x.args[0], Sym) and isinstance(x.args[1], int):
            sh = x.args[1] if x.op == "<<" else {1 << 8 * i: 8 * i for i in range(1, 8)}.get(x.args[1])
            x = x.args[0]
        if x.op != "item" or not isinstance(x.args[0], Sym) or x.args[0].op != "le" or x.args[0].args[1] or sh is None:
            return None
        if base is not None and x.args[0] is not base and x.args[0] != base or x.args[1] in have or sh != 8 * x.args[1]:
            return None
        base = x.args[0]
        have.add(x.args[1])
    return base.args[2] if len(have) == base.args[0] else None


class Interp:
    def __init__(self, program):
        self.p = program
        self._gen = {}
        self._sy = {}
        self.visited = set()

    @property
    def path(self):
        return self.p.path

    # ------------------------------------------------------------------ classes

    def subclass(self, c, d):
        if c is d or d is object:
            return True
        if isinstance(c, EnumV) or isinstance(d, EnumV):
            return False
        if isinstance(d, tuple):
            return any(self.subclass(c, x) for x in d)
        if isinstance(c, type):
            if isinstance(d, type):
                try:
                    return issubclass(c, d)
                except TypeError:
                    return False
            return False
        if isinstance(c, UClass):
            if any(b is d for b in c.mro()):
                return True
            if isinstance(d, type):
                if c.is_int and issubclass(int, d):
                    return True
                if any(isinstance(b, type) and issubclass(b, d) for b in c.mro() if b is not object):
                    return True
                # structural ABCs
                names = {
                    "Iterable": ("__iter__",),
                    "AsyncIterable": ("__aiter__",),
                    "AsyncIterator": ("__aiter__", "__anext__"),
                    "Iterator": ("__iter__", "__next__"),
                    "Callable": ("__call__",),
                    "Sized": ("__len__",),
                }.get(d.__name__)
                return bool(names) and d.__module__ == "collections.abc" and all(c.lookup(n)[0] is not None for n in names)
            return False
        if isinstance(c, ExtClass):
            return d in c.mro()
        return False

    def unrelated(self, c, d):
        """No value is an instance of both"""
        if self.subclass(c, d) or self.subclass(d, c):
            return False
        if isinstance(c, type) and isinstance(d, type):
            solid = (str, bytes, int, float, type(None), list, tuple, dict, set, bytearray)
            if c in solid and d in solid:
                return True
            if c in solid or d in solid:
                x, y = (c, d) if c in solid else (d, c)
                return y.__module__ in ("datetime", "decimal")
            if bool in (c, d):
                return (d if c is bool else c).__module__ in ("datetime", "decimal")
            return {c.__name__, d.__name__} <= {"date", "datetime", "timedelta", "time"}
        if isinstance(c, ExtClass) and isinstance(d, ExtClass):
            return not any(self.subclass(x, c) and self.subclass(x, d) for x in models.ext_classes())
        if isinstance(c, UClass) and isinstance(d, UClass):
            return not any(self.subclass(x, c) and self.subclass(x, d) for x in self.all_classes())
        if isinstance(c, type) and c in (str, bytes, int, float, type(None), list, tuple, dict, set) and isinstance(d, (UClass, ExtClass)):
            return not (isinstance(d, UClass) and self.subclass(d, c))
        if isinstance(d, type) and d in (str, bytes, int, float, type(None), list, tuple, dict, set) and isinstance(c, (UClass, ExtClass)):
            return True
        return False

    def all_classes(self):
        for m in self.p.mods.values():
            for v in m.ns.values():
                if isinstance(v, UClass):
                    yield v

    def class_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, EnumV):
            return v.cls
        if isinstance(v, bool):
            return bool
        if isinstance(v, tuple):
            return tuple
        if isinstance(v, AList):
            return list
        if isinstance(v, ADict):
            return dict
        if isinstance(v, ASet):
            return set
        if isinstance(v, ABuf):
            return bytearray
        if isinstance(v, Func):
            return pytypes.FunctionType
        if isinstance(v, Bound):
            return pytypes.MethodType
        if isinstance(v, Gen):
            return pytypes.AsyncGeneratorType if v.is_async else pytypes.GeneratorType
        if isinstance(v, Coro):
            return pytypes.CoroutineType
        if isinstance(v, Iter):
            return pytypes.AsyncGeneratorType if v.is_async else pytypes.GeneratorType
        if isinstance(v, (UClass, ExtClass)):
            return type
        if isinstance(v, Mod):
            return pytypes.ModuleType
        if isinstance(v, RangeV):
            return range
        if isinstance(v, Prim):
            return pytypes.BuiltinFunctionType
        if isinstance(v, Sym):
            if isinstance(v.ty, (UClass, ExtClass, type)):
                return v.ty
            return {"str": str, "bytes": bytes, "int": int, "bool": bool, "float": float}.get(v.ty)
        if isinstance(v, AV):
            return None
        return type(v)

    def isinstance_(self, v, t):
        if isinstance(t, AList):
            t = tuple(t.items)
        if isinstance(t, tuple):
            out = False
            for x in t:
                r = self.isinstance_(v, x)
                if r is True:
                    return True
                if r is not False:
                    if self.truth(r):
                        return True
            return out
        v = self.path.resolve(v)
        if isinstance(t, Sym) and t.op == "|":
            return self.isinstance_(v, t.args)
        if isinstance(t, Ext):
            t = models.ext_class_of(t)
        if t is object:
            return True
        if isinstance(v, (Sym,)):
            c = self.class_of(v)
            if c is not None:
                if self.subclass(c, t):
                    return True
                if self.unrelated(c, t) or (c in (str, bytes, float, bool)):
                    return False
            if not isinstance(t, (type, UClass, ExtClass)):
                return Sym("isinstance", v, t, ty="bool")
            s = Sym("isinstance", v, t, ty="bool")
            k = self.path.known(s)
            return s if k is None else k
        c = self.class_of(v)
        if c is None or not isinstance(t, (type, UClass, ExtClass)):
            return Sym("isinstance", v, t, ty="bool")
        return self.subclass(c, t)

    # ------------------------------------------------------------------ truth & comparison

    def truth(self, v) -> bool:
        v = self.path.resolve(v)
        if isinstance(v, Sym):
            v = self.norm_bool(v)
            if not isinstance(v, Sym):
                return bool(v)
            return self.path.decide(v)
        if isinstance(v, EnumV):
            return bool(v.value) if v.cls.is_int else True
        if isinstance(v, (AList, ASet)):
            return bool(v.items)
        if isinstance(v, ADict):
            if v.d:
                return True
            if v.open is not None:
                return self.path.decide(Sym("nonempty", v.open, ty="bool"))
            return False
        if isinstance(v, ABuf):
            return self.truth(self.compare("<", 0, self.length(v)))
        if isinstance(v, Obj):
            for n in ("__bool__", "__len__"):
                f, _ = v.cls.lookup(n) if isinstance(v.cls, UClass) else (None, None)
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}, None))
            h = models.obj_truth(self, v)
            if h is not None:
                return self.truth(h)
            return True
        if isinstance(v, RangeV):
            return self.truth(self.compare("<", v.start, v.stop))
        if isinstance(v, AV):
            return True
        return bool(v)

    def norm_bool(self, v):
        """Normal form of flag tests"""
        if v.op == "&" and any(isinstance(x, EnumV) and x.cls.is_flag for x in v.args):
            a, b = v.args
            if isinstance(a, EnumV):
                a, b = b, a
            if isinstance(b, EnumV) and b.value and b.value & (b.value - 1) == 0:
                return self.hasflag(a, b)
        return v

    def hasflag(self, flags, f):
        flags = self.path.resolve(flags)
        fv = f.value if isinstance(f, EnumV) else f
        if isinstance(flags, EnumV):
            flags = flags.value
        if isinstance(flags, int):
            return (flags & fv) == fv
        if fv == 0:
            return True
        if isinstance(flags, Sym):
            if flags.op == "&":
                r = self.hasflag(flags.args[0], f)
                if r is False:
                    return False
                q = self.hasflag(flags.args[1], f)
                if q is False:
                    return False
                if r is True:
                    return q
                if q is True:
                    return r
                return Sym("and", r, q, ty="bool")
            if flags.op == "|":
                r = self.hasflag(flags.args[0], f)
                if r is True:
                    return True
                q = self.hasflag(flags.args[1], f)
                if q is True:
                    return True
                if r is False:
                    return q
                if q is False:
                    return r
                return Sym("or", r, q, ty="bool")
            if flags.op == "enum":
                return self.hasflag(flags.args[1], f)
        return Sym("hasflag", flags, fv, ty="bool")

    def eq(self, a, b):
        """a == b as a bool or a term"""
        a, b = self.path.resolve(a), self.path.resolve(b)
        if a is b:
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and isinstance(y, EnumV) and y.cls.is_flag and x.op == "&":
                    if y in x.args and y.value and y.value & (y.value - 1) == 0:
                        return self.norm_bool(x)
                if isinstance(x, Sym) and x.op == "&" and isinstance(y, int) and y == 0:
                    n = self.norm_bool(x)
                    if n is not x:
                        return (not n) if isinstance(n, bool) else Sym("not", n, ty="bool")
                if isinstance(x, Sym) and isinstance(y, (Obj, AList, ADict, ASet, Func, UClass, ExtClass, Gen)):
                    c = self.class_of(x)
                    if c is not None and isinstance(c, type):
                        return False
            if isinstance(b, Sym) and not isinstance(a, Sym):
                a, b = b, a
            if isinstance(b, bool) and isinstance(a, Sym) and a.ty == "bool":
                return a if b else Sym("not", a, ty="bool")
            k = self.path.known_cmp("==", a, b)
            return Sym("cmp", "==", a, b, ty="bool") if k is None else k
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, AList) and isinstance(b, AList):
            x, y = self.items(a), self.items(b)
            if len(x) != len(y):
                return False
            terms = []
            for p, q in zip(x, y):
                r = self.eq(p, q)
                if r is False:
                    return False
                if r is not True:
                    terms.append(r)
            if not terms:
                return True
            return terms[0] if len(terms) == 1 else Sym("and", *terms, ty="bool")
        if isinstance(a, Obj) and isinstance(a.cls, UClass):
            f, _ = a.cls.lookup("__eq__")
            if f is not None:
                return self.call(Bound(f, a), [b], {}, None)
            if a.cls.fields is not None and isinstance(b, Obj) and b.cls is a.cls:
                return self.eq(tuple(a.attrs.get(n) for n, *_ in a.cls.fields), tuple(b.attrs.get(n) for n, *_ in a.cls.fields))
            return False
        if isinstance(a, ABuf) or isinstance(b, ABuf):
            return self.eq(cat(*a.parts) if isinstance(a, ABuf) else a, cat(*b.parts) if isinstance(b, ABuf) else b)
        if isinstance(a, ADict) and isinstance(b, ADict):
            if a.open is None and b.open is None:
                if set(a.d) != set(b.d):
                    return False
                return self.eq(tuple(a.d.values()), tuple(b.d[k] for k in a.d))
            return Sym("cmp", "==", a, b, ty="bool")
        if isinstance(a, (ASet, RangeV)) or isinstance(b, (ASet, RangeV)):
            if isinstance(a, ASet) and isinstance(b, ASet):
                return len(a.items) == len(b.items) and all(x in b.items for x in a.items)
            return Sym("cmp", "==", a, b, ty="bool")
        try:
            return bool(a == b)
        except Exception:  # pylint: disable=broad-except
            return False

    def compare(self, op, a, b):
        """bool or term"""
        a, b = self.path.resolve(a), self.path.resolve(b)
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return self.not_(self.eq(a, b))
        if op == ">":
            return self.compare("<", b, a)
        if op == "<=":
            return self.not_(self.compare("<", b, a))
        if op == ">=":
            return self.not_(self.compare("<", a, b))
        if op == "<":
            x = a.value if isinstance(a, EnumV) else a
            y = b.value if isinstance(b, EnumV) else b
            if not isinstance(x, AV) and not isinstance(y, AV) and is_const(x) and is_const(y):
                try:
                    return x < y
                except TypeError:
                    self.throw(TypeError, "unorderable")
            if isinstance(x, Sym) or isinstance(y, Sym):
                k = self.path.known_cmp("<", x, y)
                return Sym("cmp", "<", x, y, ty="bool") if k is None else k
            return Sym("cmp", "<", x, y, ty="bool")
        if op == "is":
            return self.is_(a, b)
        if op == "is not":
            return self.not_(self.is_(a, b))
        if op == "in":
            return self.contains(b, a)
        if op == "not in":
            return self.not_(self.contains(b, a))
        raise Undecided("comparison " + op)

    def is_(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if y is None:
                if isinstance(x, Sym):
                    s = Sym("isnone", x, ty="bool")
                    k = self.path.known(s)
                    return s if k is None else k
                return x is None
            if isinstance(y, bool) and isinstance(x, Sym):
                if x.ty == "bool":
                    return x if y else Sym("not", x, ty="bool")
                if x.ty is not None:
                    return False
                s = Sym("is", x, y, ty="bool")
                k = self.path.truths.get(s)
                return s if k is None else k
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            x, y = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(y, EnumV):
                return self.eq(x, y)
            c = self.class_of(x)
            d = self.class_of(y)
            if c is not None and d is not None and self.unrelated(c, d):
                return False
            s = Sym("is", x, y, ty="bool")
            k = self.path.truths.get(s)
            if k is not None:
                return k
            k = self.path.truths.get(Sym("is", y, x, ty="bool"))
            return s if k is None else k
        if isinstance(a, AV) or isinstance(b, AV):
            return False
        return a is b or (is_const(a) and type(a) is type(b) and a == b)

    def not_(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, Sym) and v.op == "not":
            return v.args[0]
        if isinstance(v, Sym) and v.ty == "bool":
            return Sym("not", v, ty="bool")
        return not self.truth(v)

    def contains(self, c, x):
        c, x = self.path.resolve(c), self.path.resolve(x)
        if isinstance(c, EnumV) and c.cls.is_flag or isinstance(c, Sym) and isinstance(x, EnumV) and x.cls.is_flag:
            if isinstance(x, Sym):
                return Sym("in", x, c, ty="bool")
            return self.hasflag(c, x)
        if isinstance(c, (tuple, AList, ASet)):
            return self.among(x, self.items(c))
        if isinstance(c, ADict):
            r = self.among(x, list(c.d))
            if r is False and c.open is not None:
                return Sym("in", x, c.open, ty="bool")
            if r is not True and c.open is not None:
                return Sym("in", x, c.open, ty="bool") if not self.truth(r) else True
            return r
        if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes, int)) and not isinstance(x, AV):
            try:
                return x in c
            except TypeError:
                self.throw(TypeError, "in")
        if isinstance(c, UClass) and c.enum_members is not None:
            if isinstance(x, EnumV):
                return x.cls is c
            if not isinstance(x, AV):
                return any(m.value == x for m in c.enum_members.values())
            return Sym("in", x, c, ty="bool")
        if isinstance(c, RangeV):
            if all(isinstance(q, int) for q in (c.start, c.stop, c.step)) and isinstance(x, int):
                return x in range(c.start, c.stop, c.step)
            if c.step == 1:
                a = self.compare("<=", c.start, x)
                b = self.compare("<", x, c.stop)
                if a is False or b is False:
                    return False
                if a is True:
                    return b
                return a if b is True else Sym("and", a, b, ty="bool")
        if isinstance(c, Obj) and isinstance(c.cls, UClass):
            f, _ = c.cls.lookup("__contains__")
            if f is not None:
                return self.call(Bound(f, c), [x], {}, None)
        if isinstance(c, Obj):
            h = models.obj_items(self, c)
            if h is not None:
                return self.among(x, h)
        if isinstance(c, (Gen, Iter)):
            for y in self.iterate(c):
                r = self.eq(y, x)
                if r is True or (r is not False and self.truth(r)):
                    return True
            return False
        s = Sym("in", x, c, ty="bool")
        k = self.path.truths.get(s)
        return s if k is None else k

    def among(self, x, items):
        """x in items; one decision per group of constants"""
        if not isinstance(x, AV):
            if any(not isinstance(y, AV) and x == y or isinstance(y, EnumV) and y == x for y in items):
                return True
        if any(y is x for y in items):
            return True
        maybe = []
        for y in items:
            r = self.eq(x, y)
            if r is True:
                return True
            if r is not False:
                maybe.append((y, r))
        if not maybe:
            return False
        if len(maybe) == 1:
            return maybe[0][1]
        if len(maybe) > 8 and all(not isinstance(y, Sym) for y, _ in maybe):
            return Sym("oneof", x, tuple(y for y, _ in maybe), ty="bool")
        return Sym("or", *[r for _, r in maybe], ty="bool")

    # ------------------------------------------------------------------ sequences

    def items(self, v):
        """Items of a sequence of known length"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (AList, ASet)):
            return list(v.items)
        if isinstance(v, ADict):
            if v.open is not None:
                return list(self.iterate(v))
            return list(v.d)
        if isinstance(v, (str, bytes)):
            return list(v)
        return list(self.iterate(v))

    def length(self, v):
        v = self.path.resolve(v)
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, (AList, ASet)):
            return len(v.items)
        if isinstance(v, ADict):
            if v.open is not None:
                return Sym("len", v.open, len(v.d), ty="int")
            return len(v.d)
        if isinstance(v, ABuf):
            return self.total(v.parts)
        if isinstance(v, RangeV):
            if all(isinstance(q, int) for q in (v.start, v.stop, v.step)):
                return len(range(v.start, v.stop, v.step))
            if v.step == 1:
                return self.binop("-", v.stop, v.start)
            return Sym("len", v, ty="int")
        if isinstance(v, UClass) and v.enum_members is not None:
            return len(v.enum_members)
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__len__") if isinstance(v.cls, UClass) else (None, None)
            if f is not None:
                return self.call(Bound(f, v), [], {}, None)
            h = models.obj_items(self, v)
            if h is not None:
                return len(h)
        if isinstance(v, Sym):
            if v.op == "cat":
                return self.total(v.args)
            if v.op == "le":
                return v.args[0]
            if v.op in ("zeros", "fixed"):
                return v.args[0]
            if v.op == "bytesof":
                return len(v.args[0])
            if v.op == "slice":
                l = self.slice_len(v)
                if l is not None:
                    return l
            l = Sym("len", v, ty="int")
            return self.path.resolve(l)
        if isinstance(v, (Func, Gen, Iter, Coro)) or v is None or isinstance(v, (int, float)):
            self.throw(TypeError, "object has no len()")
        return Sym("len", v, ty="int")

    def slice_len(self, v):
        x, lo, hi = v.args[0], v.args[1], v.args[2]
        n = self.length(x)
        lo = lo or 0
        a, b = self.path.interval(n)
        if isinstance(lo, int) and lo >= 0:
            if hi is None and a >= lo:
                return self.binop("-", n, lo)
            if isinstance(hi, int) and hi >= lo and a >= hi:
                return hi - lo
            if isinstance(hi, int) and lo == 0 and hi >= b:
                return n
        return None

    def total(self, parts):
        n, syms = 0, []
        for p in parts:
            l = self.length(p)
            if isinstance(l, int):
                n += l
            else:
                syms.append(l)
        out = None
        for s in syms:
            out = s if out is None else self.binop("+", out, s)
        if out is None:
            return n
        return self.binop("+", out, n) if n else out

    def more(self, src, i):
        """Is there an i-th item in an unknown sequence?"""
        l = self.path.resolve(Sym("len", src, ty="int"))
        if isinstance(l, int):
            return i < l
        if i >= self.path.client.kmax:
            k = self.path.known_cmp("<", i, l)
            if k is None:
                self.path.assume(Sym("cmp", "<", i, l, ty="bool"), False)
                k = False
            elif k:
                raise Cut(f"more than {self.path.client.kmax} items of {show(src)}")
            return k
        r = self.compare("<", i, l)
        t = self.truth(r)
        if not t:
            self.path.set_interval(l, i, i)
            self.path.eqs[l] = i
        return t

    def iterate(self, v, node=None):
        """Host iterator over an iterable"""
        v = self.path.resolve(v)
        if isinstance(v, (str, bytes, tuple)):
            yield from list(v)
            return
        if isinstance(v, AList):
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
            return
        if isinstance(v, ASet):
            yield from list(v.items)
            return
        if isinstance(v, ADict):
            yield from list(v.d)
            if v.open is not None:
                i = 0
                src = Sym("keys", v.open)
                while self.more(src, i):
                    yield Sym("elem", src, i)
                    i += 1
            return
        if isinstance(v, ABuf):
            yield from self.iterate(cat(*v.parts))
            return
        if isinstance(v, RangeV):
            if all(isinstance(q, int) for q in (v.start, v.stop, v.step)):
                n = len(range(v.start, v.stop, v.step))
                for k, i in enumerate(range(v.start, v.stop, v.step)):
                    if k > max(self.path.client.max_loop, 64) and n > 4096:
                        raise Cut("long range")
                    yield i
                return
            if v.step == 1:
                i = 0
                n = self.binop("-", v.stop, v.start)
                while True:
                    n = self.path.resolve(n)
                    if isinstance(n, int):
                        if i >= n:
                            return
                    elif i >= self.path.client.kmax:
                        k = self.path.known_cmp("<", i, n)
                        if k is None:
                            self.path.assume(Sym("cmp", "<", i, n, ty="bool"), False)
                        elif k:
                            raise Cut("more than kmax iterations of a range")
                        return
                    elif not self.truth(self.compare("<", i, n)):
                        self.path.set_interval(n, i, i)
                        return
                    self.path.client.iteration(self.path, v, i, node)
                    yield self.binop("+", v.start, i) if v.start != 0 else i
                    i += 1
            if isinstance(v.step, int) and v.step > 1 and isinstance(v.start, int):
                for i in range(self.path.client.max_loop):
                    at, n = v.start + i * v.step, self.path.resolve(v.stop)
                    if not self.truth(self.compare("<", at, n)):
                        return
                    self.path.client.iteration(self.path, v, i, node)
                    yield at
                raise Cut("long range")
            raise Undecided("range with symbolic step")
        if isinstance(v, UClass) and v.enum_members is not None:
            seen = []
            for m in list(v.enum_members.values()):
                if m not in seen:
                    seen.append(m)
                    yield m
            return
        if isinstance(v, Gen):
            if v.is_async:
                self.throw(TypeError, "async generator is not iterable")
            while True:
                try:
                    yield self.resume(v, None)
                except StopIteration:
                    return
        if isinstance(v, Iter):
            if v.is_async:
                self.throw(TypeError, "async iterator is not iterable")
            # what's left stays there, whatever happens to the one who takes this
            for x in v.host:
                yield x
            return
        if isinstance(v, Obj):
            f = None
            if isinstance(v.cls, UClass):
                f, _ = v.cls.lookup("__iter__")
            if f is not None:
                it = self.call(Bound(f, v), [], {}, node)
                if it is not v:
                    yield from self.iterate(it, node)
                    return
            if isinstance(v.cls, UClass) and v.cls.lookup("__next__")[0] is not None:
                n = 0
                while True:
                    if n > self.path.client.max_loop:
                        raise Cut("iterator")
                    try:
                        x = self.call(self.getattr(v, "__next__"), [], {}, node)
                    except Raise as r:
                        if self.subclass(self.class_of(r.value), StopIteration):
                            return
                        raise
                    yield x
                    n += 1
            h = models.obj_items(self, v)
            if h is not None:
                yield from h
                return
        if isinstance(v, Sym):
            if v.ty == "bytes":
                xs = models.byte_list(self, v)
                if xs is not None:
                    yield from xs
                    return
            if v.op == "cat" and v.ty == "bytes":
                raise Undecided("iteration over symbolic bytes")
            i = 0
            while self.more(v, i):
                self.path.client.iteration(self.path, v, i, node)
                yield self.path.client.element(self.path, v, i)
                i += 1
            self.path.client.exhausted(self.path, v, i, node)
            return
        if v is None or isinstance(v, (int, float, Func, Bound, Coro)):
            self.throw(TypeError, f"{v!r} is not iterable")
        if isinstance(v, Obj) and v.open:
            src = Sym("items", v)
            i = 0
            while self.more(src, i):
                yield Sym("elem", src, i)
                i += 1
            return
        raise Undecided(f"iteration over {v!r}")

    def aiterate(self, v, node=None):
        """Host iterator over an async iterable (suspends where the program would)"""
        v = self.path.resolve(v)
        if isinstance(v, Gen):
            if not v.is_async:
                self.throw(TypeError, "async for requires an object with __aiter__")
            while True:
                try:
                    x = self.resume(v, None)
                except StopIteration:
                    return
                yield x
        if isinstance(v, Iter):
            if v.is_async:
                for x in v.host:
                    yield x
                return
        if isinstance(v, Obj) and isinstance(v.cls, UClass):
            f, _ = v.cls.lookup("__aiter__")
            if f is not None:
                it = self.call(Bound(f, v), [], {}, node)
                if it is not v:
                    yield from self.aiterate(it, node)
                    return
            if v.cls.lookup("__anext__")[0] is not None:
                n = 0
                while n <= self.path.client.max_loop:
                    try:
                        x = self.await_(self.call(self.getattr(v, "__anext__"), [], {}, node), node)
                    except Raise as r:
                        if self.subclass(self.class_of(r.value), StopAsyncIteration):
                            return
                        raise
                    yield x
                    n += 1
                raise Cut("async iterator")
        if isinstance(v, Sym) or isinstance(v, Obj) and v.open:
            i = 0
            while True:
                self.path.client.pull(self.path, v, i, node)
                self.suspend(("pull", v, i), node)
                if not self.more(v, i):
                    self.path.client.exhausted(self.path, v, i, node)
                    return
                self.path.client.iteration(self.path, v, i, node)
                yield self.path.client.element(self.path, v, i)
                i += 1
        self.throw(TypeError, f"'async for' requires an object with __aiter__: {v!r}")

    # ------------------------------------------------------------------ arithmetic

    def binop(self, op, a, b):
        a, b = self.path.resolve(a), self.path.resolve(b)
        if isinstance(a, EnumV) or isinstance(b, EnumV):
            x = a.value if isinstance(a, EnumV) else a
            y = b.value if isinstance(b, EnumV) else b
            cls = a.cls if isinstance(a, EnumV) else b.cls
            if cls.is_int or cls.is_flag:
                if not isinstance(x, AV) and not isinstance(y, AV):
                    r = self.fold(op, x, y)
                    if cls.is_flag and op in "&|^" and isinstance(r, int):
                        return models.flag_value(cls, r)
                    return r
                if cls.is_flag and op in "&|^":
                    if op == "&" and x == 0 or op == "&" and y == 0:
                        return models.flag_value(cls, 0)
                    if op == "|" and not isinstance(x, AV) and x == 0:
                        return b
                    if op == "|" and not isinstance(y, AV) and y == 0:
                        return a
                    # keep the members, for flag tests
                    return Sym(op, a, b, ty=cls)
                return self.binop(op, x, y)
        if not isinstance(a, AV) and not isinstance(b, AV) and is_const(a) and is_const(b):
            return self.fold(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, AList) and isinstance(b, AList) and op == "+":
            return AList(a.items + b.items)
        if op == "*" and isinstance(a, (AList, tuple)) and isinstance(b, int):
            if b * len(self.items(a)) > MAX_CONST:
                raise Undecided("huge list")
            return AList(a.items * b) if isinstance(a, AList) else a * b
        if op == "*" and isinstance(b, (AList, tuple)) and isinstance(a, int):
            return self.binop(op, b, a)
        if op == "*" and (isinstance(a, (AList, tuple, bytes, str)) and isinstance(b, Sym) and b.ty == "int" or isinstance(b, (AList, tuple, bytes, str)) and isinstance(a, Sym) and a.ty == "int"):
            self.path.emit("alloc", size=b if isinstance(b, Sym) else a)
        if isinstance(a, AList) and op == "*" and isinstance(b, Sym):
            return Sym("repeat", tuple(a.items), b)
        if isinstance(a, (UClass, ExtClass, type)) and op == "|" or isinstance(b, (UClass, ExtClass, type)) and op == "|":
            return (a if isinstance(a, tuple) else (a,)) + (b if isinstance(b, tuple) else (b,))
        if isinstance(a, Sym) and a.op == "typing" or isinstance(b, Sym) and b.op == "typing" or isinstance(a, Ext) or isinstance(b, Ext):
            return Sym("typing", "|")
        if isinstance(a, ASet) and isinstance(b, ASet):
            if op == "|":
                return ASet(a.items + b.items)
            if op == "&":
                return ASet([x for x in a.items if x in b.items])
            if op == "-":
                return ASet([x for x in a.items if x not in b.items])
        if isinstance(a, ADict) and isinstance(b, ADict) and op == "|":
            return ADict({**a.d, **b.d}, a.open or b.open)
        if isinstance(a, ABuf):
            a = cat(*a.parts)
        if isinstance(b, ABuf):
            b = cat(*b.parts)
        if isinstance(a, Obj):
            r = self.dunder(a, op, b)
            if r is not NotImplemented:
                return r
        if op == "%" and isinstance(a, (str, bytes)):
            r = models.percent(self, a, b)
            if r is not NotImplemented:
                return r
        if op == "%" and isinstance(a, str):
            return Sym("fmt%", a, self.freeze(b), ty="str")
        if op == "+":
            if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
                return cat(a, b)
            if isinstance(a, Sym) and (a.ty in ("bytes", "str") or a.op in ("cat", "le")):
                return cat(a, b)
            if isinstance(b, Sym) and (b.ty in ("bytes", "str") or b.op in ("cat", "le")):
                return cat(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.arith(op, a, b)
        if isinstance(a, (AList, ADict, tuple, Func, UClass)) or a is None or b is None:
            self.throw(TypeError, f"unsupported operand: {a!r} {op} {b!r}")
        return Sym("op" + op, a, b)

    def arith(self, op, a, b):
        ty = None
        for x in (a, b):
            if isinstance(x, Sym) and x.ty == "bytes" or isinstance(x, bytes):
                ty = "bytes"
        if ty is None and all(isinstance(x, int) or isinstance(x, Sym) and x.ty == "int" for x in (a, b)):
            ty = "int" if op != "/" else "float"
        if op in ("+", "-", "|", "^", "<<", ">>") and isinstance(b, int) and b == 0:
            return a
        if op in ("+", "|", "^") and isinstance(a, int) and a == 0:
            return b
        if op in ("*", "//") and isinstance(b, int) and b == 1 or op == "*" and isinstance(a, int) and a == 1:
            return a if op == "//" or isinstance(b, int) and b == 1 else b
        if op in ("*", "&") and (a == 0 if isinstance(a, int) else b == 0 if isinstance(b, int) else False) and ty == "int":
            return 0
        # constants to the right, sums flattened
        if op in ("+", "*", "&", "|", "^") and isinstance(a, int) and ty == "int":
            a, b = b, a
        if isinstance(b, int) and not isinstance(b, bool) and isinstance(a, Sym):
            if op == "-":
                op, b = "+", -b
            if op == "+" and a.op == "+" and isinstance(a.args[1], int):
                return self.arith("+", a.args[0], a.args[1] + b)
        if op == "-":
            if a is b:
                return 0
            # (x + c) - x, (x + y) - y
            if isinstance(a, Sym) and a.op == "+":
                x, y = a.args
                if isinstance(y, int):
                    return self.arith("+", self.binop("-", x, b), y)
                if x is b:
                    return y
                if y is b:
                    return x
            if isinstance(b, Sym) and b.op == "+" and isinstance(b.args[1], int):
                return self.arith("+", self.binop("-", a, b.args[0]), -b.args[1])
        if op in ("+", "|") and isinstance(a, Sym) and isinstance(b, Sym):
            # A number that's put together of its bytes
            n = rejoined(Sym(op, a, b, ty=ty))
            if n is not None:
                return n
        if op == "+" and isinstance(a, Sym) and isinstance(b, Sym):
            # (x - y) + y
            if a.op == "-" and a.args[1] is b:
                return a.args[0]
            if b.op == "-" and b.args[1] is a:
                return b.args[0]
            if isinstance(b, Sym) and b.op == "+" and isinstance(b.args[1], int):
                return self.arith("+", self.arith("+", a, b.args[0]), b.args[1])
            if isinstance(a, Sym) and a.op == "+" and isinstance(a.args[1], int):
                return self.arith("+", self.arith("+", a.args[0], b), a.args[1])
        if not isinstance(a, AV) and not isinstance(b, AV):
            return self.fold(op, a, b)
        if op == "%" and isinstance(b, int) and b > 0:
            lo, hi = self.path.interval(a)
            if lo >= 0 and hi < b:
                return a
        if op == "&" and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
            lo, hi = self.path.interval(a)
            if lo >= 0 and hi <= b:
                return a
        if op in ("&", ">>") and isinstance(a, Sym) and a.op == "unle" and not a.args[1] and isinstance(b, int) and isinstance(a.args[2], Sym) and a.args[2].op == "cat":
            # the bytes of a little-endian number
            n, part = a.args[0], a.args[2]
            cut = None
            if op == "&" and b > 0 and (b & (b + 1)) == 0 and b.bit_length() % 8 == 0:
                cut = (0, min(b.bit_length() // 8, n))
            elif op == ">>" and b % 8 == 0 and b // 8 < n:
                cut = (b // 8, n)
            if cut is not None:
                x = self.getslice(part, slice(cut[0] or None, cut[1] if cut[1] < n else None))
                if isinstance(x, bytes) and len(x) == cut[1] - cut[0]:
                    return int.from_bytes(x, "little")
                if isinstance(x, Sym) and x.op == "le" and not x.args[1] and x.args[0] == cut[1] - cut[0]:
                    return x.args[2]
        if op == ">>" and isinstance(b, int) and isinstance(a, Sym):
            lo, hi = self.path.interval(a)
            if lo >= 0 and hi < (1 << b):
                return 0
            # (x & (m << k)) >> k
            if a.op == "&" and isinstance(a.args[1], int) and a.args[1] & ((1 << b) - 1) == 0:
                return self.arith("&", self.arith(">>", a.args[0], b), a.args[1] >> b)
        if isinstance(a, Sym) and a.op == "pow2" and op == "*":
            pass
        s = Sym(op, a, b, ty=ty)
        lo, hi = self.path.interval(s)
        if lo == hi and lo not in (INF, -INF):
            return int(lo)
        return s

    def fold(self, op, a, b):
        fn = next(f for o, f in BINOPS.values() if o == op)
        if op == "*" and (isinstance(a, (str, bytes, tuple)) or isinstance(b, (str, bytes, tuple))):
            n = a if isinstance(a, int) else b
            s = b if isinstance(a, int) else a
            if isinstance(n, int) and n * len(s) > MAX_CONST:
                if isinstance(s, bytes):
                    return Sym("rep", s, n, ty="bytes")
                raise Undecided("huge constant")
        if op == "**" and isinstance(b, int) and b > 4096 or op == "<<" and isinstance(b, int) and b > 4096:
            raise Undecided("huge power")
        try:
            return fn(a, b)
        except Exception as e:  # pylint: disable=broad-except
            self.throw(type(e), str(e))

    def dunder(self, a, op, b):
        name = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "&": "and", "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift"}.get(op)
        if name and isinstance(a.cls, UClass):
            f, _ = a.cls.lookup(f"__{name}__")
            if f is not None:
                return self.call(Bound(f, a), [b], {}, None)
        return NotImplemented

    def freeze(self, v):
        """Something hashable for use in a term"""
        if isinstance(v, AList):
            return ("list",) + tuple(self.freeze(x) for x in v.items)
        if isinstance(v, ADict):
            return ("dict",) + tuple((self.freeze(k), self.freeze(x)) for k, x in v.d.items()) + ((v.open,) if v.open is not None else ())
        if isinstance(v, ASet):
            return ("set",) + tuple(self.freeze(x) for x in v.items)
        if isinstance(v, ABuf):
            return cat(*v.parts)
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        return v

    # ------------------------------------------------------------------ exceptions

    def throw(self, cls, *args, node=None):
        v = Obj(cls, {"args": tuple(args)})
        r = Raise(v, node)
        r.where = self.path.where() if self.path else None
        raise r

    # ------------------------------------------------------------------ tasks

    def suspend(self, what, node=None):
        p = self.path
        p.client.suspend(p, what, node)
        t = p.data.get("task")
        if t is not None and t.cancel_pending:
            t.cancel_pending = 0
            self.throw(models.CancelledError, node=node)

    def await_(self, v, node=None):
        p = self.path
        v = p.resolve(v)
        if isinstance(v, Coro):
            if v.used:
                self.throw(RuntimeError, "cannot reuse already awaited coroutine")
            v.used = True
            return v.run()
        if isinstance(v, Task):
            if v.done:
                if isinstance(v.done, Raise):
                    raise v.done
                return getattr(v, "result", None)
            prev = p.data.get("task")
            p.data["task"] = v
            v.waiter = prev
            # a task has variables of its context of its own
            mine = p.data.get("ctx")
            p.data["ctx"] = v.ctx if v.ctx is not None else dict(mine or {})
            try:
                v.result = self.await_(v.coro, node)
                v.done = True
                return v.result
            except Raise as r:
                v.done = r
                raise
            finally:
                p.data["task"] = prev
                p.data["ctx"] = mine if mine is not None else {}
        if isinstance(v, Obj) and isinstance(v.cls, UClass):
            f, _ = v.cls.lookup("__await__")
            if f is not None:
                raise Undecided("__await__")
        if v is None or isinstance(v, (int, str, bytes, tuple, AList, ADict, Func, Gen)):
            self.throw(TypeError, f"object can't be used in 'await' expression: {v!r}")
        r = p.client.await_unknown(p, v, node)
        if r is not NotImplemented:
            return r
        self.suspend(("await", v), node)
        return Sym("await", v, p.fresh())

    # ------------------------------------------------------------------ generators

    def resume(self, g, value, exc=None):
        """Host StopIteration when it's exhausted"""
        p = self.path
        if g.done:
            raise StopIteration
        fr = g.frame
        if fr in p.stack:
            self.throw(ValueError, "generator already executing")
        p.stack.append(fr)
        try:
            if exc is not None:
                if not g.started:
                    g.done = True
                    raise exc
                out = g.host.throw(exc)
            elif not g.started:
                g.started = True
                out = next(g.host)
            else:
                out = g.host.send(value)
            return out
        except StopIteration as e:
            g.done = True
            g.value = e.value
            raise
        except Raise:
            g.done = True
            raise
        finally:
            p.stack.pop()

    def gen_next(self, g, value=None, exc=None):
        """next()/send()/asend() with the exception of the analysed language"""
        try:
            return self.resume(g, value, exc)
        except StopIteration:
            self.throw(StopAsyncIteration if g.is_async else StopIteration, *(() if g.is_async or getattr(g, "value", None) is None else (g.value,)))

    # ------------------------------------------------------------------ calls

    def call(self, f, args, kwargs, node=None):
        p = self.path
        f = p.resolve(f)
        if isinstance(f, Bound):
            if isinstance(f.func, Prim):
                return f.func.fn(self, [f.self_] + list(args), kwargs, node)
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, Prim):
            return f.fn(self, list(args), kwargs, node)
        if isinstance(f, UClass):
            r = p.client.call(p, f, args, kwargs, node)
            if r is not NotImplemented:
                return r
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__")[0] if isinstance(f.cls, UClass) else None
            if m is not None:
                return self.call(Bound(m, f), args, kwargs, node)
        if isinstance(f, type):
            return models.call_type(self, f, list(args), kwargs, node)
        if isinstance(f, (Ext, ExtClass)):
            r = models.call_ext(self, f, list(args), kwargs, node)
            if r is not NotImplemented:
                return r
        if f is None or isinstance(f, (int, str, bytes, tuple, AList, ADict, EnumV)):
            self.throw(TypeError, f"{f!r} is not callable")
        if isinstance(f, Sym) and f.op == "attr":
            r = models.call_method(self, f.args[0], f.args[1], list(args), kwargs, node)
            if r is not NotImplemented:
                return r
        r = p.client.call_unknown(p, f, list(args), kwargs, node)
        if r is not NotImplemented:
            return r
        return models.default_call(self, f, args, kwargs)

    def bind(self, f, args, kwargs, node=None):
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        star = kwargs.pop("**", None)
        if len(args) > len(names):
            if a.vararg is None:
                self.throw(TypeError, f"{f.name}() takes {len(names)} positional arguments but {len(args)} were given", node=node)
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[: len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        ponly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if k in names and k not in ponly or k in kwonly:
                if k in out:
                    self.throw(TypeError, f"{f.name}() got multiple values for argument '{k}'", node=node)
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.throw(TypeError, f"{f.name}() got an unexpected keyword argument '{k}'", node=node)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j < 0:
                    if star is not None:
                        out[n] = Sym("item", star, n)
                        continue
                    self.throw(TypeError, f"{f.name}() missing argument '{n}'", node=node)
                out[n] = f.defaults[j]
        for n in kwonly:
            if n not in out:
                if n not in f.kw_defaults:
                    self.throw(TypeError, f"{f.name}() missing argument '{n}'", node=node)
                out[n] = f.kw_defaults[n]
        if a.kwarg is not None:
            out[a.kwarg.arg] = ADict(extra, star)
        return out

    def call_func(self, f, args, kwargs, node=None):
        p = self.path
        if "cached" in f.attrs:
            return self.call_cached(f, args, kwargs, node)
        return self.call_func2(f, args, kwargs, node)

    def call_cached(self, f, args, kwargs, node):
        """functools.lru_cache: what was computed once for equal arguments is returned again"""
        p = self.path
        cache = p.data.setdefault("lru", {}).setdefault(f, {})
        try:
            key = (tuple(cache_key(p.resolve(a)) for a in args), tuple((n, cache_key(p.resolve(a))) for n, a in kwargs.items()))
        except TypeError:
            return self.call_func2(f, args, kwargs, node)
        if key in cache:
            r = cache.pop(key)
            cache[key] = r  # the most recent one is last
            return r[0]
        v = self.call_func2(f, args, kwargs, node)
        size = f.attrs["cached"]
        if size is not None and len(cache) >= size:
            for k in list(cache)[: len(cache) - size + 1]:
                del cache[k]
        if size is None or size > 0:
            cache[key] = (v, args, kwargs)
        return v

    def call_func2(self, f, args, kwargs, node=None):
        p = self.path
        if f.is_async and not f.is_gen:
            def run():
                r = p.client.call(p, f, args, kwargs, node)
                if r is not NotImplemented:
                    return r
                return self.run_func(f, args, kwargs, node)

            return Coro(run, f, (args, kwargs))
        r = p.client.call(p, f, args, kwargs, node)
        if r is not NotImplemented:
            return r
        return self.run_func(f, args, kwargs, node)

    def run_func(self, f, args, kwargs, node=None):
        """Interpret the body of a function"""
        p = self.path
        self.visited.add(f.qual)
        loc = self.bind(f, args, kwargs, node)
        fr = Frame(f.module, f, f.env)
        fr.locals = loc
        fr.self_cls = f.owner
        fr.line = getattr(f.node, "lineno", 0)
        if isinstance(f.node, ast.Lambda):
            p.stack.append(fr)
            try:
                return self.ev(f.node.body, fr)
            finally:
                p.stack.pop()
        if f.is_gen:
            fr.yields = {}
            g = Gen(self.gen_body(f, fr), f, f.is_async)
            g.frame = fr
            return g
        if len(p.stack) > p.client.max_depth:
            raise Cut("call depth")
        p.stack.append(fr)
        try:
            sig = None
            for _ in self.exec_block_sig(f.node.body, fr, out := []):
                raise Undecided("yield outside of a generator")
            sig = out[0]
            if sig is not None and sig[0] == "return":
                return sig[1]
            return None
        except Raise as r:
            if r.where is None:
                r.where = p.where()
            raise
        finally:
            p.stack.pop()

    def gen_body(self, f, fr):
        out = []
        yield from self.exec_block_sig(f.node.body, fr, out)
        if out[0] is not None and out[0][0] == "return":
            return out[0][1]
        return None

    def exec_block_sig(self, body, fr, out):
        sig = yield from self.exec_block(body, fr)
        out.append(sig)

    def instantiate(self, c, args, kwargs, node=None):
        if c.enum_members is not None:
            return self.enum_lookup(c, args[0] if args else kwargs.get("value"), node)
        r = models.instantiate_special(self, c, args, kwargs, node)
        if r is not NotImplemented:
            return r
        new, owner = c.lookup("__new__")
        o = Obj(c)
        if new is not None and isinstance(new, Func):
            o = self.call(new, [c] + list(args), kwargs, node)
            if not (isinstance(o, Obj) and o.cls is c):
                return o
        init, owner = c.lookup("__init__")
        if init is not None:
            self.call(Bound(init, o), args, kwargs, node)
        elif c.fields is not None:
            models.dataclass_init(self, c, o, args, kwargs, node)
        elif any(isinstance(b, type) and issubclass(b, BaseException) for b in c.mro()):
            o.attrs["args"] = tuple(args)
        elif args or kwargs:
            if all(b is object or isinstance(b, UClass) for b in c.mro()):
                self.throw(TypeError, f"{c.name}() takes no arguments", node=node)
            o.attrs["__args__"] = tuple(args)
        return o

    def enum_lookup(self, c, v, node=None):
        v = self.path.resolve(v)
        if isinstance(v, EnumV):
            if v.cls is c:
                return v
            v = v.value
        if isinstance(v, Sym):
            r = self.path.client.enum_value(self.path, c, v, node)
            if r is not NotImplemented:
                return r
            if v.ty is c:
                return v
            return Sym("enum", c, v, ty=c)
        for m in c.enum_members.values():
            if not isinstance(m.value, AV) and m.value == v and isinstance(m.value, bool) == isinstance(v, bool):
                return m
        if c.is_flag and isinstance(v, int):
            return models.flag_value(c, v)
        self.throw(ValueError, f"{v!r} is not a valid {c.name}", node=node)

    # ------------------------------------------------------------------ attributes

    def getattr(self, o, name, node=None):
        p = self.path
        o = p.resolve(o)
        r = p.client.attr(p, o, name)
        if r is not NotImplemented:
            return r
        if isinstance(o, Obj):
            if isinstance(o.cls, UClass):
                v, owner = o.cls.lookup(name)
                if isinstance(v, Func) and v.kind == "property":
                    if "cached_property" in v.attrs:
                        if name not in o.attrs:
                            r = self.call(v, [o], {}, node)
                            p.mutate(o)
                            o.attrs[name] = r
                        return o.attrs[name]
                    return self.call(v, [o], {}, node)
                if name in o.attrs:
                    return o.attrs[name]
                if v is not None or owner is not None:
                    return self.bind_attr(v, o, o.cls)
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    return models.dict_of(o)
                if o.cls.fields is not None and name in {n for n, *_ in o.cls.fields}:
                    pass
            elif name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return o.cls
            r = models.obj_attr(self, o, name)
            if r is not NotImplemented:
                return r
            if o.open or isinstance(o.cls, UClass) and any(isinstance(b, ExtClass) for b in o.cls.mro()) or isinstance(o.cls, ExtClass):
                return Sym("attr", o, name)
            g = o.cls.lookup("__getattr__")[0] if isinstance(o.cls, UClass) else None
            if g is not None:
                return self.call(Bound(g, o), [name], {}, node)
            self.throw(AttributeError, f"{o!r} has no attribute {name}", node=node)
        if isinstance(o, EnumV):
            if name in ("name", "_name_"):
                return o.name
            if name in ("value", "_value_"):
                return o.value
            v, owner = o.cls.lookup(name)
            if owner is not None and not isinstance(v, EnumV):
                if isinstance(v, Func) and v.kind == "property":
                    return self.call(v, [o], {}, node)
                return self.bind_attr(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if o.cls.is_int:
                return self.getattr(o.value, name, node)
            if v is not None:
                return v
            self.throw(AttributeError, name, node=node)
        if isinstance(o, UClass):
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__module__":
                return o.module.name if o.module else ""
            if name == "__dict__":
                return ADict(o.ns)
            if name == "__members__" and o.enum_members is not None:
                return ADict(o.enum_members)
            if o.enum_members is not None and name in o.enum_members:
                return o.enum_members[name]
            v, owner = o.lookup(name)
            if owner is not None:
                if isinstance(v, Func):
                    if v.kind == "classmethod":
                        return Bound(v, o)
                    return v
                return v
            r = models.class_attr(self, o, name)
            if r is not NotImplemented:
                return r
            if any(isinstance(b, ExtClass) for b in o.mro()):
                return Sym("attr", o, name)
            self.throw(AttributeError, f"{o.name}.{name}", node=node)
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            sub = self.p.mods.get(o.name + "." + name)
            if sub is not None:
                return sub
            if o.name + "." + name in self.p.trees:
                return self.p.load(o.name + "." + name)
            self.throw(AttributeError, f"module {o.name} has no attribute {name}", node=node)
        if isinstance(o, SuperV):
            mro = o.self_.cls.mro() if isinstance(o.self_, Obj) else o.self_.mro() if isinstance(o.self_, UClass) else o.cls.mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if isinstance(c, UClass) and name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Func) and v.kind == "property":
                        return self.call(v, [o.self_], {}, node)
                    return self.bind_attr(v, o.self_, o.self_.cls if isinstance(o.self_, Obj) else o.self_)
            return models.super_attr(self, o, name)
        if isinstance(o, Func):
            if name == "cache_clear" and "cached" in o.attrs:
                return Prim("cache_clear", lambda it, a, k, n: it.path.data.get("lru", {}).pop(o, None) and None)
            if name in ("__name__", "__qualname__"):
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            if name == "__wrapped__":
                return o
            if name in ("cache_clear", "cache_info"):
                return Prim(name, lambda it, a, k, n: None)
            if name == "__doc__":
                return ast.get_docstring(o.node)
            self.throw(AttributeError, name, node=node)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name, node)
        if isinstance(o, Ext):
            r = models.ext_attr(self, o, name)
            if r is not NotImplemented:
                return r
            return models.ext(o.path + "." + name)
        if isinstance(o, ExtClass):
            if name == "__name__":
                return o.name
            return Sym("attr", o, name)
        if isinstance(o, Sym):
            k = (o, name)
            sa = p.data.get("symattrs")
            if sa and k in sa:
                return sa[k]
            c = o.ty if isinstance(o.ty, UClass) else next((c for c in p.classes.get(o, ((), ()))[0] if isinstance(c, UClass)), None)
            if c is not None and not (c.enum_members is not None and name in ("name", "value")):
                v, owner = c.lookup(name)
                if owner is not None:
                    if isinstance(v, Func) and v.kind == "property":
                        return self.call(v, [o], {}, node)
                    return self.bind_attr(v, o, c)
            ty = None
            if c is not None and c.enum_members is not None and name == "name":
                ty = "str"
            if c is not None and c.is_int and name == "value":
                ty = "int"
            return models.sym_attr(self, o, name, ty)
        if isinstance(o, AV) or isinstance(o, tuple) or is_const(o):
            m = models.method(self, o, name)
            if m is not NotImplemented:
                return m
        if isinstance(o, type):
            return models.type_attr(self, o, name)
        self.throw(AttributeError, f"{o!r} has no attribute {name}", node=node)

    def bind_attr(self, v, o, cls):
        if isinstance(v, Func):
            if v.kind == "staticmethod":
                return v
            if v.kind == "classmethod":
                return Bound(v, cls)
            return Bound(v, o)
        if isinstance(v, Prim) and getattr(v, "method", False):
            return Bound(v, o)
        return v

    def setattr(self, o, name, value, node=None):
        p = self.path
        o = p.resolve(o)
        p.client.set_attr(p, o, name, value, node)
        if isinstance(o, Obj):
            if isinstance(o.cls, UClass):
                v, _ = o.cls.lookup(name)
                if isinstance(v, Func) and v.kind == "property":
                    st = v.attrs.get("setter")
                    if st is None:
                        self.throw(AttributeError, f"property '{name}' has no setter", node=node)
                    self.call(st, [o, value], {}, node)
                    return
                if isinstance(v, Func) is False and o.cls.lookup("__setattr__")[0] is not None:
                    self.call(Bound(o.cls.lookup("__setattr__")[0], o), [name, value], {}, node)
                    return
            p.mutate(o, node, name)
            o.attrs[name] = value
            return
        if isinstance(o, UClass):
            p.mutate(o, node, name)
            o.ns[name] = value
            return
        if isinstance(o, Mod):
            p.mutate(o, node, name)
            o.ns[name] = value
            return
        if isinstance(o, Func):
            o.attrs[name] = value
            return
        if isinstance(o, Sym):
            p.data.setdefault("symattrs", {})[(o, name)] = value
            p.emit("set_sym_attr", obj=o, name=name, value=value)
            return
        if isinstance(o, (Ext, ExtClass)):
            p.emit("shared_write", obj=o, name=o.path, what=name)
            return
        if isinstance(o, Task) or isinstance(o, Gen):
            return
        self.throw(AttributeError, f"{o!r} has no attribute {name}", node=node)

    # ------------------------------------------------------------------ subscripts

    def getitem(self, o, k, node=None):
        if isinstance(o, Obj) and "__getitem__" in o.attrs:
            return self.call(o.attrs["__getitem__"], [k], {}, node)
        p = self.path
        o, k = p.resolve(o), p.resolve(k)
        if isinstance(o, Obj):
            if isinstance(o.cls, UClass):
                f, _ = o.cls.lookup("__getitem__")
                if f is not None:
                    return self.call(Bound(f, o), [k], {}, node)
            r = models.obj_getitem(self, o, k, node)
            if r is not NotImplemented:
                return r
        if isinstance(k, slice):
            return self.getslice(o, k, node)
        if isinstance(o, ADict):
            return self.dict_get(o, k, node=node)
        if isinstance(k, EnumV) and k.cls.is_int:
            k = k.value
        if isinstance(o, (tuple, AList, str, bytes)):
            seq = o.items if isinstance(o, AList) else o
            if isinstance(k, int):
                try:
                    return seq[k]
                except IndexError:
                    self.throw(IndexError, "index out of range", node=node)
            if isinstance(k, Sym):
                if len(seq) == 0:
                    self.throw(IndexError, "index out of range", node=node)
                return Sym("item", self.freeze(o), k)
            self.throw(TypeError, "indices must be integers", node=node)
        if isinstance(o, ABuf):
            return self.getitem(cat(*o.parts) if o.parts else b"", k, node)
        if isinstance(o, UClass):
            if o.enum_members is not None:
                if isinstance(k, str):
                    if k in o.enum_members:
                        return o.enum_members[k]
                    self.throw(KeyError, k, node=node)
                if isinstance(k, Sym):
                    r = p.client.enum_name(p, o, k, node)
                    if r is not NotImplemented:
                        return r
                    if k.op == "attr" and k.args[1] == "name" and isinstance(k.args[0], Sym) and k.args[0].ty is o:
                        return k.args[0]
                    return Sym("enumname", o, k, ty=o)
            return o  # generic alias
        if isinstance(o, (type, ExtClass)):
            return o
        if isinstance(o, Ext):
            return models.ext_getitem(self, o, k)
        if isinstance(o, Sym):
            if o.op == "cat" and isinstance(k, int) and k >= 0:
                q = o.args[0]
                if isinstance(q, (bytes, str)) and k < len(q):
                    return q[k]
            if isinstance(k, int) and not isinstance(k, bool) and o.ty == "bytes" and o.op in ("cat", "bytesof", "slice"):
                xs = models.byte_list(self, o)
                if xs is not None:
                    if -len(xs) <= k < len(xs):
                        return xs[k]
                    self.throw(IndexError, "index out of range", node=node)
            r = p.client.item(p, o, k, node)
            if r is not NotImplemented:
                return r
            return Sym("item", o, self.freeze(k), ty="int" if o.ty == "bytes" else None)
        if isinstance(o, RangeV) and isinstance(k, int):
            return self.binop("+", o.start, self.binop("*", k, o.step))
        if o is None or isinstance(o, (int, float, Gen, Iter, Func)):
            self.throw(TypeError, f"{o!r} is not subscriptable", node=node)
        return Sym("item", o, self.freeze(k))

    def getslice(self, o, k, node=None):
        p = self.path
        lo, hi, st = p.resolve(k.start), p.resolve(k.stop), p.resolve(k.step)
        lo = lo.value if isinstance(lo, EnumV) else lo
        hi = hi.value if isinstance(hi, EnumV) else hi
        const = all(x is None or isinstance(x, int) for x in (lo, hi, st))
        if isinstance(o, ABuf):
            o = cat(*o.parts)
        if isinstance(o, (tuple, str, bytes)) and const:
            return o[slice(lo, hi, st)]
        if isinstance(o, AList) and const:
            return AList(o.items[slice(lo, hi, st)])
        if isinstance(o, AList):
            n = len(o.items)
            # case split on where the bound lies
            def pos(x, dflt):
                if x is None:
                    return dflt
                if isinstance(x, int):
                    return x
                for i in range(n):
                    if self.truth(self.compare("<=", x, i)):
                        return i
                return n
            if st is None:
                return AList(o.items[slice(pos(lo, 0), pos(hi, n))])
            raise Undecided("slice of a list with symbolic bounds")
        if isinstance(o, Sym):
            if st is not None and st != 1:
                return Sym("slice", o, lo, hi, st, ty=o.ty)
            if lo == 0:
                lo = None
            if lo is None and hi is None:
                return o
            if o.op == "bytesof" and const:
                return models.from_byte_list(self, list(o.args[0])[slice(lo, hi)])
            if o.ty == "bytes" and const and ((lo or 0) < 0 or (hi or 0) < 0):
                n = p.resolve(self.length(o))
                if isinstance(n, int):
                    lo, hi, _ = slice(lo, hi).indices(n)
                    return self.getslice(o, slice(lo or None, max(lo, hi)), node)
            if o.op == "cat" and isinstance(hi, int) and hi < 0 and (lo is None or lo == 0):
                # drop what's at the end
                parts, n = list(o.args), -hi
                while parts and n:
                    l = self.length(parts[-1])
                    if isinstance(l, int) and l <= n:
                        n -= l
                        parts.pop()
                    elif isinstance(parts[-1], (bytes, str)):
                        parts[-1] = parts[-1][:-n]
                        n = 0
                    else:
                        break
                if not n:
                    return cat(*parts) if parts else (b"" if o.ty == "bytes" else "")
            if o.op == "cat" and (lo is None or isinstance(lo, int) and lo >= 0):
                # cut at a boundary of the parts
                parts, skip = list(o.args), lo or 0
                while parts and skip:
                    l = self.length(parts[0])
                    if isinstance(l, int) and l <= skip:
                        skip -= l
                        parts.pop(0)
                    elif isinstance(parts[0], (bytes, str)):
                        parts[0] = parts[0][skip:]
                        skip = 0
                    elif isinstance(l, int) and parts[0].op in ("atom", "slice", "bytesof"):
                        parts[0] = self.getslice(parts[0], slice(skip, None))
                        skip = 0
                    else:
                        break
                if not skip:
                    if hi is None:
                        return cat(*parts) if parts else (b"" if o.ty == "bytes" else "")
                    if isinstance(hi, int) and hi >= (lo or 0):
                        n, out = hi - (lo or 0), []
                        while parts and n:
                            l = self.length(parts[0])
                            if isinstance(l, int) and l <= n:
                                out.append(parts.pop(0))
                                n -= l
                            elif isinstance(parts[0], (bytes, str)):
                                out.append(parts[0][:n])
                                n = 0
                            elif isinstance(l, int) and parts[0].op == "le" and not parts[0].args[1] and 0 <= p.interval(parts[0].args[2])[0] and p.interval(parts[0].args[2])[1] < 256**n:
                                # the rest of a number is 0
                                out.append(Sym("le", n, False, parts[0].args[2], ty="bytes"))
                                n = 0
                            elif isinstance(l, int) and parts[0].op in ("atom", "slice", "bytesof"):
                                out.append(self.getslice(parts[0], slice(None, n)))
                                n = 0
                            else:
                                break
                        if not n:
                            return cat(*out) if out else (b"" if o.ty == "bytes" else "")
            if const and (lo is None or lo >= 0) and (hi is None or hi >= 0) and o.ty in ("bytes", "str"):
                n = p.interval(self.length(o))[1]
                if lo is not None and lo >= n:
                    return b"" if o.ty == "bytes" else ""
                if hi is not None and hi >= n:
                    hi = None
                    if lo is None:
                        return o
            if p.client.split_slices and o.ty == "bytes" and const:
                n = self.length(o)
                b = lo if lo is not None else hi
                if (lo is None or hi is None) and b >= 0:
                    if self.truth(self.compare("<=", n, b)):
                        return b"" if lo is not None else o
            if o.op == "slice" and len(o.args) == 3 and (o.args[2] is None) and isinstance(lo or 0, int) and (lo or 0) >= 0:
                # x[a:][b:c]
                a = o.args[1]
                if isinstance(a, int) and a >= 0 and (hi is None or isinstance(hi, int) and hi >= 0):
                    return Sym("slice", o.args[0], a + (lo or 0), None if hi is None else a + hi, ty=o.ty)
            return Sym("slice", o, lo, hi, ty=o.ty)
        if isinstance(o, (tuple, str, bytes)):
            if isinstance(o, (str, bytes)) and not o:
                return o
            return Sym("slice", o, lo, hi, ty="str" if isinstance(o, str) else "bytes" if isinstance(o, bytes) else None)
        if isinstance(o, RangeV) and const:
            if all(isinstance(q, int) for q in (o.start, o.stop, o.step)):
                r = range(o.start, o.stop, o.step)[slice(lo, hi, st)]
                return RangeV(r.start, r.stop, r.step)
        raise Undecided(f"slice of {o!r}")

    MISSING = object()

    def dict_get(self, d, k, default=MISSING, node=None):
        """d[k] with a case split on which key it is"""
        p = self.path
        k = p.resolve(k)
        key = self.freeze(k)
        if isinstance(key, Obj) and key not in d.d:
            pass
        try:
            if key in d.d:
                return d.d[key]
        except TypeError:
            self.throw(TypeError, "unhashable", node=node)
        cands = []
        for k2 in d.d:
            if isinstance(key, Sym) or isinstance(k2, Sym) or isinstance(key, tuple):
                r = self.eq(key, k2)
                if r is True:
                    return d.d[k2]
                if r is not False:
                    cands.append((k2, r))
        if cands:
            h = p.client.dict_lookup(p, d, key, [c for c, _ in cands], node)
            if h is not NotImplemented:
                return h
            if len(cands) > 12:
                m = Sym("in", key, Sym("keys", d), ty="bool")
                if self.truth(m):
                    return Sym("lookup", d, key)
            else:
                for k2, r in cands:
                    if self.truth(r):
                        return d.d[k2]
        if d.open is not None:
            if self.truth(Sym("in", key, d.open, ty="bool")):
                return Sym("item", d.open, key)
        f = getattr(d, "factory", None)
        if default is not self.MISSING:
            return default
        if f is not None:
            v = self.call(f, [], {}, node)
            self.path.mutate(d, node, key)
            d.d[key] = v
            return v
        self.throw(KeyError, k, node=node)

    def setitem(self, o, k, v, node=None):
        p = self.path
        o, k = p.resolve(o), p.resolve(k)
        if isinstance(k, EnumV) and k.cls.is_int and not isinstance(o, ADict):
            k = k.value
        if isinstance(o, ADict):
            p.mutate(o, node, k)
            key = self.freeze(k)
            if isinstance(key, Sym) and key not in o.d:
                for k2 in list(o.d):
                    if isinstance(k2, Sym) or p.known_cmp("==", key, k2) is not False:
                        if self.truth(self.eq(key, k2)):
                            key = k2
                            break
            o.d[key] = v
            return
        if isinstance(o, AList):
            p.mutate(o, node, k)
            if isinstance(k, int):
                try:
                    o.items[k] = v
                except IndexError:
                    self.throw(IndexError, "index out of range", node=node)
                return
            if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                o.items[k] = self.items(v)
                return
            raise Undecided("list item with a symbolic index")
        if isinstance(o, ABuf):
            p.mutate(o, node, k)
            if isinstance(k, int) and all(isinstance(x, bytes) for x in o.parts):
                b = bytearray(b"".join(o.parts))
                if isinstance(v, int):
                    try:
                        b[k] = v
                    except (IndexError, ValueError) as e:
                        self.throw(type(e), str(e), node=node)
                    o.parts = [bytes(b)]
                    return
            if isinstance(k, slice) and k.start in (None, 0) and k.stop is None and k.step is None:
                v = self.freeze(p.resolve(v))
                o.parts = [v] if not isinstance(v, tuple) else [bytes(self.items(v)[1:])]
                return
            if isinstance(k, slice) and all(isinstance(x, bytes) for x in o.parts) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                w = self.freeze(p.resolve(v))
                if isinstance(w, bytes):
                    b = bytearray(b"".join(o.parts))
                    try:
                        b[k] = w
                    except ValueError as e:
                        self.throw(ValueError, str(e), node=node)
                    o.parts = [bytes(b)]
                    return
            o.parts = [Sym("store", cat(*o.parts), self.freeze(k) if not isinstance(k, slice) else ("slice", k.start, k.stop), v, ty="bytes")]
            return
        if isinstance(o, Obj):
            if isinstance(o.cls, UClass):
                f, _ = o.cls.lookup("__setitem__")
                if f is not None:
                    self.call(Bound(f, o), [k, v], {}, node)
                    return
            if models.obj_setitem(self, o, k, v, node):
                return
        if isinstance(o, (Sym, Ext, ExtClass)):
            p.emit("set_sym_item", obj=o, key=k, value=v)
            return
        self.throw(TypeError, f"{o!r} does not support item assignment", node=node)

    def delitem(self, o, k, node=None):
        o, k = self.path.resolve(o), self.path.resolve(k)
        if isinstance(o, ADict):
            self.dict_get(o, k, node=node)
            self.path.mutate(o, node, k)
            key = self.freeze(k)
            if key in o.d:
                del o.d[key]
            else:
                for k2 in list(o.d):
                    if self.eq(key, k2) is True:
                        del o.d[k2]
            return
        if isinstance(o, AList):
            self.path.mutate(o, node, k)
            if isinstance(k, int) or isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                try:
                    del o.items[k]
                except IndexError:
                    self.throw(IndexError, "index", node=node)
                return
        if isinstance(o, ABuf) and isinstance(k, slice):
            self.path.mutate(o, node, k)
            if k.start in (None, 0) and k.stop is None:
                o.parts = []
            else:
                whole = cat(*o.parts)
                a = self.getslice(whole, slice(None, k.start), node) if k.start not in (None, 0) else b""
                b = self.getslice(whole, slice(k.stop, None), node) if k.stop is not None else b""
                o.parts = [x for x in (a, b) if not (isinstance(x, bytes) and not x)]
            return
        if isinstance(o, (Sym, Ext)):
            return
        raise Undecided(f"del on {o!r}")

    # ------------------------------------------------------------------ names

    def lookup(self, name, fr, node=None):
        f = fr
        while f is not None:
            if not (f is not fr and f.cls) and name in f.locals and name not in (f.globals_ or ()):
                return f.locals[name]
            if f is fr and f.globals_ and name in f.globals_:
                break
            f = f.parent
        ns = fr.module.ns
        if name in ns:
            return ns[name]
        b = models.builtin(name)
        if b is not NotImplemented:
            return b
        if fr.func is not None and name in self.local_names(fr.func):
            self.throw(UnboundLocalError, name, node=node)
        self.throw(NameError, name, node=node)

    def local_names(self, f):
        return {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def assign_name(self, name, v, fr):
        if fr.globals_ and name in fr.globals_:
            self.path.mutate(fr.module, None, name)
            fr.module.ns[name] = v
            return
        if fr.nonlocals and name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.locals:
                    f.locals[name] = v
                    return
                f = f.parent
        if fr.is_module and not self.path.loading:
            self.path.mutate(fr.module, None, name)
        fr.locals[name] = v

    def assign(self, target, v, fr):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, v, fr)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, v, fr)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.ev(target.value, fr), target.attr, v, target)
        elif isinstance(target, ast.Subscript):
            self.setitem(self.ev(target.value, fr), self.ev_index(target.slice, fr), v, target)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, fr)
        else:
            raise Undecided("assignment target")

    def unpack(self, elts, v, fr):
        v = self.path.resolve(v)
        n = len(elts)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        if isinstance(v, Sym) and star is None:
            r = self.path.client.unpack(self.path, v, n)
            if r is NotImplemented:
                r = [self.getitem(v, i) for i in range(n)]
            vals = r
        else:
            vals = self.items(v)
        if star is None:
            if len(vals) != n:
                self.throw(ValueError, f"expected {n} values to unpack, got {len(vals)}")
            for e, x in zip(elts, vals):
                self.assign(e, x, fr)
            return
        if len(vals) < n - 1:
            self.throw(ValueError, "not enough values to unpack")
        tail = n - star - 1
        for e, x in zip(elts[:star], vals[:star]):
            self.assign(e, x, fr)
        self.assign(elts[star].value, AList(vals[star: len(vals) - tail]), fr)
        for e, x in zip(elts[star + 1:], vals[len(vals) - tail:]):
            self.assign(e, x, fr)

    # ------------------------------------------------------------------ expressions

    def ev_index(self, n, fr):
        if isinstance(n, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, fr)
            return slice(g(n.lower), g(n.upper), g(n.step))
        if isinstance(n, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.elts):
            raise Undecided("multi-dimensional slice")
        return self.ev(n, fr)

    def ev(self, n, fr):
        m = getattr(self, "ev_" + n.__class__.__name__, None)
        if m is None:
            raise Undecided(f"expression {n.__class__.__name__}")
        return m(n, fr)

    def ev_Constant(self, n, fr):
        return n.value

    def ev_Name(self, n, fr):
        return self.lookup(n.id, fr, n)

    def ev_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr, n)

    def ev_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.ev_index(n.slice, fr), n)

    def ev_BinOp(self, n, fr):
        return self.binop(BINOPS[type(n.op)][0], self.ev(n.left, fr), self.ev(n.right, fr))

    def ev_UnaryOp(self, n, fr):
        v = self.path.resolve(self.ev(n.operand, fr))
        if isinstance(n.op, ast.Not):
            if isinstance(v, Sym):
                v = self.norm_bool(v)
                if not isinstance(v, Sym):
                    return not v
                k = self.path.known(v)
                return Sym("not", v, ty="bool") if k is None and v.op != "not" else (not self.truth(v))
            return not self.truth(v)
        if isinstance(v, EnumV):
            if isinstance(n.op, ast.Invert) and v.cls.is_flag:
                full = 0
                for m in v.cls.enum_members.values():
                    full |= m.value
                return models.flag_value(v.cls, full & ~v.value)
            v = v.value
        if isinstance(v, (int, float, datetime.timedelta, decimal.Decimal)):
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(n.op)](v)
        if isinstance(v, Sym):
            return Sym({ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "~"}[type(n.op)], v, ty=v.ty)
        self.throw(TypeError, "bad operand", node=n)

    def ev_BoolOp(self, n, fr):
        is_and = isinstance(n.op, ast.And)
        for i, e in enumerate(n.values):
            v = self.ev(e, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if t != is_and:
                # the value is only known by its truth
                return v if not (isinstance(v, Sym) and v.ty == "bool") else t
        return None

    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        names = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
        r = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, fr)
            r = self.compare(names[type(op)], left, right)
            if i < len(n.ops) - 1 and not self.truth(r):
                return False
            left = right
        return r

    def ev_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while f is not None and getattr(f, "yields", None) == "comp":
            f = f.parent
        self.assign_name(n.target.id, v, f)
        return v

    def ev_Lambda(self, n, fr):
        a = n.args
        f = Func(n, fr.module, fr, "<lambda>", f"{self.qual_of(fr)}.<lambda>", [self.ev(d, fr) for d in a.defaults],
                 {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        return f

    def qual_of(self, fr):
        if fr.func is not None:
            return fr.func.qual
        if fr.cls:
            return fr.cls
        return fr.module.name

    def star_items(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.items(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def ev_Tuple(self, n, fr):
        return tuple(self.star_items(n.elts, fr))

    def ev_List(self, n, fr):
        return AList(self.star_items(n.elts, fr))

    def ev_Set(self, n, fr):
        return ASet(self.star_items(n.elts, fr))

    def ev_Dict(self, n, fr):
        d = ADict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.path.resolve(self.ev(v, fr))
                if isinstance(x, ADict):
                    d.d.update(x.d)
                    d.open = d.open or x.open
                else:
                    d.open = x
            else:
                kk = self.freeze(self.path.resolve(self.ev(k, fr)))
                d.d[kk] = self.ev(v, fr)
        return d

    def ev_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.ev_FormattedValue(v, fr))
        return cat(*parts) if parts and any(p != "" for p in parts) else ""

    def ev_FormattedValue(self, n, fr):
        v = self.path.resolve(self.ev(n.value, fr))
        spec = self.ev(n.format_spec, fr) if n.format_spec is not None else ""
        if n.conversion == ord("r"):
            v = models.repr_(self, v)
        elif n.conversion == ord("s"):
            v = models.str_(self, v)
        return models.format_(self, v, spec)

    def ev_Await(self, n, fr):
        return self.await_(self.ev(n.value, fr), n)

    def ev_Yield(self, n, fr):
        f = fr
        while f is not None and f.yields == "comp":
            f = f.parent
        if f is None or f.yields is None or id(n) not in f.yields:
            raise Undecided("yield in an unsupported position")
        return f.yields.pop(id(n))

    ev_YieldFrom = ev_Yield

    def ev_Starred(self, n, fr):
        raise Undecided("starred expression")

    def ev_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f is not None and (f.func is None or f.self_cls is None):
                f = f.parent
            if f is None:
                raise Undecided("super()")
            a = f.func.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperV(f.self_cls, f.locals[first])
        if isinstance(n.func, ast.Name) and n.func.id == "locals" and not n.args:
            return ADict(fr.locals)
        if isinstance(n.func, ast.Name) and n.func.id == "globals" and not n.args:
            return ADict(fr.module.ns)
        fn = self.ev(n.func, fr)
        args = self.star_args(n, fr)
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is not None:
                kwargs[k.arg] = v
            else:
                v = self.path.resolve(v)
                if isinstance(v, ADict):
                    for kk, vv in v.d.items():
                        kwargs[kk] = vv
                    if v.open is not None:
                        kwargs["**"] = v.open
                else:
                    kwargs["**"] = v
        return self.call(fn, args, kwargs, n)

    def star_args(self, n, fr):
        out = []
        for e in n.args:
            if isinstance(e, ast.Starred):
                out.extend(self.items(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    # comprehensions

    def comp_gen(self, gens, fr, emit):
        """Host generator; emit(frame) is evaluated for every combination"""

        def go(i, cf, first):
            if i == len(gens):
                yield emit(cf)
                return
            g = gens[i]
            src = first if i == 0 else self.ev(g.iter, cf)
            it = self.aiterate(src, g.iter) if g.is_async else self.iterate(src, g.iter)
            for x in it:
                self.path.steps += 1
                self.assign(g.target, x, cf)
                if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    yield from go(i + 1, cf, None)

        first = self.ev(gens[0].iter, fr)
        cf = Frame(fr.module, fr.func, fr)
        cf.yields = "comp"
        cf.self_cls = fr.self_cls if hasattr(fr, "self_cls") else None
        cf.line = fr.line
        return go(0, cf, first)

    def ev_ListComp(self, n, fr):
        return AList(self.comp_gen(n.generators, fr, lambda cf: self.ev(n.elt, cf)))

    def ev_SetComp(self, n, fr):
        return ASet(self.comp_gen(n.generators, fr, lambda cf: self.ev(n.elt, cf)))

    def ev_DictComp(self, n, fr):
        d = ADict()
        for k, v in self.comp_gen(n.generators, fr, lambda cf: (self.ev(n.key, cf), self.ev(n.value, cf))):
            self.setitem(d, k, v, n)
        return d

    def ev_GeneratorExp(self, n, fr):
        isa = any(g.is_async for g in n.generators)
        return Iter(self.comp_gen(n.generators, fr, lambda cf: self.ev(n.elt, cf)), None, isa)

    # ------------------------------------------------------------------ statements

    def exec_block(self, body, fr):
        for st in body:
            fr.line = st.lineno
            p = self.path
            p.steps += 1
            if p.steps > p.client.max_steps:
                raise Cut("steps")
            if not p.steps & 255 and time.time() > LIMIT:
                raise Undecided("out of time")
            if fr.yields is not None and fr.yields != "comp":
                ys = self._sy.get(id(st))
                if ys is None:
                    ys = self._sy[id(st)] = self.statement_yields(st)
                for y in ys:
                    yield from self.do_yield(y, fr)
            m = getattr(self, "st_" + st.__class__.__name__, None)
            if m is None:
                raise Undecided(f"statement {st.__class__.__name__}")
            sig = m(st, fr)
            if sig is not None and not isinstance(sig, tuple):
                sig = yield from sig
            if sig is not None:
                return sig
        return None

    def statement_yields(self, st):
        """Yields of the expressions that are evaluated by the statement itself"""
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return []
        if isinstance(st, ast.If):
            return own_yields([st.test])
        if isinstance(st, ast.While):
            return []
        if isinstance(st, (ast.For, ast.AsyncFor)):
            return own_yields([st.iter])
        if isinstance(st, (ast.With, ast.AsyncWith)):
            return own_yields([i.context_expr for i in st.items])
        if isinstance(st, (ast.Try,)):
            return []
        if isinstance(st, ast.Match):
            return own_yields([st.subject])
        return own_yields([st])

    def do_yield(self, y, fr):
        if isinstance(y, ast.Yield):
            v = self.ev(y.value, fr) if y.value is not None else None
            self.path.client.yielded(self.path, fr, v, y)
            fr.yields[id(y)] = yield v
            return
        src = self.ev(y.value, fr)
        if isinstance(src, Gen):
            sent = None
            while True:
                try:
                    x = self.resume(src, sent)
                except StopIteration:
                    fr.yields[id(y)] = getattr(src, "value", None)
                    return
                sent = yield x
        else:
            for x in self.iterate(src, y):
                yield x
            fr.yields[id(y)] = None

    def st_Expr(self, st, fr):
        self.ev(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)
        if fr.cls and isinstance(st.target, ast.Name):
            fr.locals.setdefault("__annotations__", ADict()).d[st.target.id] = st.value is not None
            fr.locals.setdefault("__ann_nodes__", {})[st.target.id] = st.annotation

    def st_AugAssign(self, st, fr):
        t = st.target
        op = BINOPS[type(st.op)][0]
        if isinstance(t, ast.Name):
            cur = self.path.resolve(self.lookup(t.id, fr, t))
            v = self.ev(st.value, fr)
            if self.inplace(cur, op, v, st):
                return
            self.assign_name(t.id, self.binop(op, cur, v), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.path.resolve(self.getattr(o, t.attr, t))
            v = self.ev(st.value, fr)
            if self.inplace(cur, op, v, st):
                return
            self.setattr(o, t.attr, self.binop(op, cur, v), t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            cur = self.path.resolve(self.getitem(o, k, t))
            v = self.ev(st.value, fr)
            if self.inplace(cur, op, v, st):
                return
            self.setitem(o, k, self.binop(op, cur, v), t)

    def inplace(self, cur, op, v, node):
        if op == "+" and isinstance(cur, AList):
            self.path.mutate(cur, node, "+=")
            cur.items.extend(self.items(v))
            return True
        if op == "+" and isinstance(cur, ABuf):
            self.path.mutate(cur, node, "+=")
            models.buf_extend(self, cur, v)
            return True
        if op == "|" and isinstance(cur, ADict):
            v = self.path.resolve(v)
            if isinstance(v, ADict):
                self.path.mutate(cur, node, "|=")
                cur.d.update(v.d)
                return True
        if op == "|" and isinstance(cur, ASet):
            self.path.mutate(cur, node, "|=")
            for x in self.items(v):
                if x not in cur.items:
                    cur.items.append(x)
            return True
        if op == "-" and isinstance(cur, ASet):
            self.path.mutate(cur, node, "-=")
            rm = self.items(v)
            cur.items = [x for x in cur.items if x not in rm]
            return True
        return False

    def st_Return(self, st, fr):
        return ("return", self.ev(st.value, fr) if st.value is not None else None)

    def st_Break(self, st, fr):
        return BRK

    def st_Continue(self, st, fr):
        return CNT

    def st_Global(self, st, fr):
        fr.globals_ = tuple(fr.globals_) + tuple(st.names)

    def st_Nonlocal(self, st, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(st.names)

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), t)
            elif isinstance(t, ast.Attribute):
                o = self.path.resolve(self.ev(t.value, fr))
                if isinstance(o, Obj):
                    self.path.mutate(o, t, t.attr)
                    if t.attr not in o.attrs:
                        self.throw(AttributeError, t.attr, node=t)
                    del o.attrs[t.attr]

    def st_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            self.throw(AssertionError, node=st)

    def st_Raise(self, st, fr):
        if st.exc is None:
            f = fr
            while f is not None:
                if f.exc is not None:
                    raise f.exc
                f = f.parent
            self.throw(RuntimeError, "No active exception to reraise")
        v = self.path.resolve(self.ev(st.exc, fr))
        if isinstance(v, (UClass, type, ExtClass)):
            v = self.call(v, [], {}, st.exc)
        if st.cause is not None:
            c = self.ev(st.cause, fr)
            if isinstance(v, Obj):
                v.attrs["__cause__"] = c
        if not isinstance(v, (Obj, Sym)):
            self.throw(TypeError, "exceptions must derive from BaseException")
        r = Raise(v, st)
        r.where = self.path.where()
        raise r

    def st_If(self, st, fr):
        return self.exec_block(st.body if self.truth(self.ev(st.test, fr)) else st.orelse, fr)

    def st_While(self, st, fr):
        n = 0
        ys = own_yields([st.test]) if fr.yields is not None and fr.yields != "comp" else []
        while True:
            for y in ys:
                yield from self.do_yield(y, fr)
            if not self.truth(self.ev(st.test, fr)):
                break
            lim = self.path.client.loop_limit(self.path, fr, st)
            if n >= lim:
                raise Cut(f"loop at line {st.lineno}")
            self.path.client.loop(self.path, fr, st, n)
            sig = yield from self.exec_block(st.body, fr)
            n += 1
            fr.line = st.lineno
            if sig is BRK:
                return None
            if sig is CNT or sig is None:
                continue
            return sig
        if st.orelse:
            return (yield from self.exec_block(st.orelse, fr))
        return None

    def st_For(self, st, fr, it=None):
        src = self.ev(st.iter, fr)
        if it is None:
            it = self.iterate(src, st.iter)
        n = 0
        big = isinstance(src, (AList, ADict, tuple, ASet, UClass)) or self.path.loading
        for x in it:
            lim = self.path.client.loop_limit(self.path, fr, st)
            if n >= lim and not big:
                raise Cut(f"loop at line {st.lineno}")
            self.path.client.loop(self.path, fr, st, n)
            self.assign(st.target, x, fr)
            sig = yield from self.exec_block(st.body, fr)
            n += 1
            fr.line = st.lineno
            if sig is BRK:
                self.path.client.broke(self.path, src, st)
                return None
            if sig is CNT or sig is None:
                continue
            self.path.client.broke(self.path, src, st)
            return sig
        if st.orelse:
            return (yield from self.exec_block(st.orelse, fr))
        return None

    def st_AsyncFor(self, st, fr):
        src = self.ev(st.iter, fr)
        it = self.aiterate(src, st.iter)
        n = 0
        for x in it:
            lim = self.path.client.loop_limit(self.path, fr, st)
            if n >= lim:
                raise Cut(f"loop at line {st.lineno}")
            self.path.client.loop(self.path, fr, st, n)
            self.assign(st.target, x, fr)
            sig = yield from self.exec_block(st.body, fr)
            n += 1
            fr.line = st.lineno
            if sig is BRK:
                self.path.client.broke(self.path, src, st)
                return None
            if sig is CNT or sig is None:
                continue
            self.path.client.broke(self.path, src, st)
            return sig
        if st.orelse:
            return (yield from self.exec_block(st.orelse, fr))
        return None

    def st_Try(self, st, fr):
        sig = None
        pending = None
        try:
            try:
                sig = yield from self.exec_block(st.body, fr)
                if sig is None and st.orelse:
                    # exceptions of the else block aren't handled here
                    try:
                        sig = yield from self.exec_block(st.orelse, fr)
                    except Raise as r:
                        pending = r
            except Raise as r:
                h = self.handler(st, r, fr)
                if h is None:
                    pending = r
                else:
                    if h.name:
                        self.assign_name(h.name, r.value, fr)
                    prev, fr.exc = fr.exc, r
                    try:
                        self.path.client.handled(self.path, r, h, fr)
                        sig = yield from self.exec_block(h.body, fr)
                    except Raise as r2:
                        pending = r2
                    finally:
                        fr.exc = prev
                        if h.name:
                            fr.locals.pop(h.name, None)
        except GeneratorExit:
            # the analysis drops the generator
            raise
        if st.finalbody:
            prev = fr.exc
            if pending is not None:
                fr.exc = pending
            try:
                fsig = yield from self.exec_block(st.finalbody, fr)
            finally:
                fr.exc = prev
            if fsig is not None:
                return fsig
        if pending is not None:
            raise pending
        return sig

    def handler(self, st, r, fr):
        for h in st.handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, fr)
            if self.truth(self.isinstance_(r.value, t)):
                return h
        return None

    def st_With(self, st, fr):
        return self.do_with(list(st.items), st, fr, False)

    def st_AsyncWith(self, st, fr):
        return self.do_with(list(st.items), st, fr, True)

    def do_with(self, items, st, fr, is_async):
        if not items:
            return (yield from self.exec_block(st.body, fr))
        item = items[0]
        cm = self.path.resolve(self.ev(item.context_expr, fr))
        v = models.cm_enter(self, cm, is_async, st)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, fr)
        try:
            sig = yield from self.do_with(items[1:], st, fr, is_async)
        except Raise as r:
            if models.cm_exit(self, cm, r, is_async, st):
                return None
            raise r
        models.cm_exit(self, cm, None, is_async, st)
        return sig

    def st_Match(self, st, fr):
        v = self.ev(st.subject, fr)
        for c in st.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                return self.exec_block(c.body, fr)
        return None

    def match(self, pt, v, fr):
        if isinstance(pt, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(pt.value, fr)))
        if isinstance(pt, ast.MatchSingleton):
            return self.truth(self.is_(self.path.resolve(v), pt.value))
        if isinstance(pt, ast.MatchAs):
            if pt.pattern is not None and not self.match(pt.pattern, v, fr):
                return False
            if pt.name:
                self.assign_name(pt.name, v, fr)
            return True
        if isinstance(pt, ast.MatchOr):
            return any(self.match(q, v, fr) for q in pt.patterns)
        if isinstance(pt, ast.MatchClass):
            cls = self.ev(pt.cls, fr)
            if not self.truth(self.isinstance_(v, cls)):
                return False
            for a, q in zip(pt.kwd_attrs, pt.kwd_patterns):
                if not self.match(q, self.getattr(v, a), fr):
                    return False
            if pt.patterns:
                if isinstance(cls, type) and cls in (int, str, bytes, float, bool, list, tuple, dict) and len(pt.patterns) == 1:
                    return self.match(pt.patterns[0], v, fr)
                if isinstance(cls, UClass) and cls.fields is not None:
                    for (n, *_), q in zip(cls.fields, pt.patterns):
                        if not self.match(q, self.getattr(v, n), fr):
                            return False
                    return True
                raise Undecided("class pattern")
            return True
        if isinstance(pt, ast.MatchSequence) and isinstance(self.path.resolve(v), (tuple, AList)):
            items = self.items(v)
            star = next((i for i, q in enumerate(pt.patterns) if isinstance(q, ast.MatchStar)), None)
            if star is None:
                return len(items) == len(pt.patterns) and all(self.match(q, x, fr) for q, x in zip(pt.patterns, items))
        raise Undecided("match pattern")

    # imports

    def st_Import(self, st, fr):
        for a in st.names:
            top = a.name.split(".")[0]
            if a.asname:
                self.assign_name(a.asname, self.import_(a.name), fr)
            else:
                self.import_(a.name)
                self.assign_name(top, self.import_(top), fr)

    def import_(self, name):
        if name in self.p.trees:
            return self.p.load(name)
        return models.ext_module(name)

    def st_ImportFrom(self, st, fr):
        base = st.module or ""
        if st.level:
            parts = fr.module.name.split(".")
            is_pkg = fr.module.file.endswith("__init__.py")
            up = st.level - (1 if is_pkg else 0)
            parts = parts[: len(parts) - up] if up else parts
            base = ".".join(parts + ([st.module] if st.module else []))
        if base == "__future__":
            return
        m = self.import_(base)
        for a in st.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            fr.locals[k] = v
                continue
            if isinstance(m, Mod):
                sub = base + "." + a.name
                if a.name in m.ns:
                    v = m.ns[a.name]
                elif sub in self.p.trees:
                    v = self.p.load(sub)
                elif base.startswith("sqlglot"):
                    v = Ext(sub)
                else:
                    self.throw(ImportError, f"{base}.{a.name}")
            else:
                v = self.getattr(m, a.name)
            self.assign_name(a.asname or a.name, v, fr)

    # definitions

    def is_gen(self, node):
        r = self._gen.get(id(node))
        if r is None:
            r = self._gen[id(node)] = bool(own_yields(node.body))
        return r

    def st_FunctionDef(self, st, fr):
        a = st.args
        q = f"{self.qual_of(fr)}.{st.name}"
        f = Func(st, fr.module, fr if not (fr.is_module or fr.cls) else (fr.parent if fr.cls else None), st.name, q,
                 [self.ev(d, fr) for d in a.defaults],
                 {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        f.is_gen = self.is_gen(st)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, fr)
        self.assign_name(st.name, v, fr)

    st_AsyncFunctionDef = st_FunctionDef

    def decorate(self, d, v, fr):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter") and isinstance(d.value, ast.Name):
            prop = self.lookup(d.value.id, fr)
            if isinstance(prop, Func) and prop.kind == "property":
                if d.attr == "setter":
                    prop.attrs["setter"] = v
                return prop
        dec = self.ev(d, fr)
        return models.apply_decorator(self, dec, v, d)

    def st_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.ev(b, fr)
            if isinstance(v, (Ext, Sym)):
                v = models.ext_class_of(v)
            if isinstance(v, (UClass, ExtClass, type)):
                bases.append(v)
        q = f"{self.qual_of(fr)}.{st.name}"
        cf = Frame(fr.module, fr.func, fr if fr.func is not None else None)
        cf.cls = q
        cf.locals = {}
        c = UClass(st.name, bases, cf.locals, fr.module, q, st)
        kw = {k.arg: self.ev(k.value, fr) for k in st.keywords if k.arg}
        models.prepare_class(self, c, cf)
        cf.self_cls = None
        out = []
        for _ in self.exec_block_sig(st.body, cf, out):
            raise Undecided("yield in class body")
        models.finish_class(self, c, kw)
        for v in c.ns.values():
            if isinstance(v, Func) and v.owner is None:
                v.owner = c
                st_ = v.attrs.get("setter")
                if isinstance(st_, Func):
                    st_.owner = c
        v = c
        for d in reversed(st.decorator_list):
            v = models.apply_decorator(self, self.ev(d, fr), v, d)
        self.assign_name(st.name, v, fr)
