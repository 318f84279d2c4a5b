"""What the analysis assumes about Python's builtins and the libraries that mysql_mimic uses"""
from __future__ import annotations

import ast
import asyncio
import builtins
import collections
import collections.abc
import datetime
import decimal
import glob
import os
import itertools
import re
import string
import struct

from .values import *

CancelledError = asyncio.CancelledError
MAX_CONST = 1 << 16

# ----------------------------------------------------------------------------- classes of libraries

ENUMS = {
    n: ExtClass("enum." + n) for n in ("Enum", "IntEnum", "Flag", "IntFlag", "StrEnum")
}
BYTESIO = ExtClass("io.BytesIO")
CTXVAR = ExtClass("contextvars.ContextVar")
EXITSTACK = ExtClass("contextlib.ExitStack")
FIELD = ExtClass("dataclasses.Field")
CM = ExtClass("contextlib.contextmanager")
SUPPRESS = ExtClass("contextlib.suppress")
NULLCM = ExtClass("contextlib.nullcontext")
CLOSING = ExtClass("contextlib.closing")
PARTIAL = ExtClass("functools.partial")
LOCK = ExtClass("asyncio.Lock")
DEQUE = collections.deque

_ext_classes: dict = {}
_sqlglot = None


def ext_classes():
    return list(_ext_classes.values())


def sqlglot_classes():
    """Hierarchy of sqlglot's expression classes, read from its source"""
    global _sqlglot
    if _sqlglot is not None:
        return _sqlglot
    _sqlglot = {}
    import sys

    cands = []
    for base in ("/opt/venv", "/usr/lib/python3", "/usr/local/lib", "/usr/lib"):
        cands += glob.glob(base + "/lib/python3*/site-packages/sqlglot") + glob.glob(base + "/python3*/*-packages/sqlglot") + glob.glob(base + "/dist-packages/sqlglot")
    cands += [os.path.join(p, "sqlglot") for p in sys.path if p]
    for d in cands:
        fs = [d + "/expressions.py"] + sorted(glob.glob(d + "/expressions/*.py"))
        fs = [f for f in fs if os.path.exists(f)]
        if not fs:
            continue
        raw = {}
        for f in fs:
            with open(f, encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
            for n in tree.body:
                if isinstance(n, ast.ClassDef):
                    raw[n.name] = [b.id for b in n.bases if isinstance(b, ast.Name)]

        def make(name, seen=()):
            if name in _sqlglot:
                return _sqlglot[name]
            if name not in raw or name in seen:
                return None
            bs = [make(b, seen + (name,)) for b in raw[name]]
            c = ExtClass("sqlglot.expressions." + name, [b for b in bs if b])
            _sqlglot[name] = c
            _ext_classes[c.path] = c
            return c

        for n in raw:
            make(n)
        break
    return _sqlglot


HOST = {
    "asyncio.CancelledError": asyncio.CancelledError,
    "asyncio.exceptions.CancelledError": asyncio.CancelledError,
    "asyncio.IncompleteReadError": asyncio.IncompleteReadError,
    "asyncio.LimitOverrunError": asyncio.LimitOverrunError,
    "asyncio.TimeoutError": asyncio.TimeoutError,
    "asyncio.InvalidStateError": asyncio.InvalidStateError,
    "struct.error": struct.error,
    "datetime.datetime": datetime.datetime,
    "datetime.date": datetime.date,
    "datetime.timedelta": datetime.timedelta,
    "datetime.time": datetime.time,
    "decimal.Decimal": decimal.Decimal,
    "collections.deque": collections.deque,
    "collections.OrderedDict": dict,
    "types.AsyncGeneratorType": __import__("types").AsyncGeneratorType,
    "types.GeneratorType": __import__("types").GeneratorType,
}
for _n in collections.abc.__all__:
    HOST["collections.abc." + _n] = getattr(collections.abc, _n)
    HOST["typing." + _n] = getattr(collections.abc, _n)
for _n, _c in {"Dict": dict, "List": list, "Tuple": tuple, "Set": set, "FrozenSet": frozenset, "Type": type, "Text": str}.items():
    HOST["typing." + _n] = _c

# libraries whose functions don't have effects and always return the same for the same arguments
PURE = (
    "hashlib.", "re.", "sqlglot.", "operator.", "string.", "codecs.", "base64.", "binascii.", "math.", "os.path.", "typing.", "itertools.",
    "datetime.timezone", "ipaddress.", "json.", "decimal.", "textwrap.", "inspect.", "unicodedata.",
)


LIBS: dict = {}  # modules of libraries that are interpreted from their source


def ext(path):
    if LIBS and path.startswith("sqlglot."):
        m = LIBS.get(path)
        if m is not None:
            return m
        m, _, n = path.rpartition(".")
        m = LIBS.get(m)
        if m is not None and n in m.ns:
            return m.ns[n]
    if path in HOST:
        return HOST[path]
    if path in CONSTS:
        return CONSTS[path]
    if path in EXT:
        return EXT[path]
    if path.startswith("sqlglot."):
        name = path.rsplit(".", 1)[-1]
        if path.startswith(("sqlglot.expressions.", "sqlglot.exp.")) and path.count(".") == 2:
            c = sqlglot_classes().get(name)
            if c is not None:
                return c
        if path == "sqlglot.exp":
            return Ext("sqlglot.expressions")
    if path.startswith("enum.") and path[5:] in ENUMS:
        return ENUMS[path[5:]]
    return Ext(path)


def ext_module(name):
    return LIBS.get(name) or Ext(name)


def ext_attr(it, o, name):
    if o.path in ("sqlglot.exp",):
        return ext("sqlglot.expressions." + name)
    if o.path.startswith("logging"):
        if name in ("DEBUG", "INFO", "WARNING", "ERROR"):
            return {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40}[name]
    return ext(o.path + "." + name)


def ext_getitem(it, o, k):
    if o.path.startswith("typing"):
        return o
    return Sym("item", o, it.freeze(k))


def ext_class_of(v):
    if isinstance(v, Ext):
        if v.path.startswith("typing.") or v.path in ("abc.ABC", "object"):
            return object
        c = _ext_classes.get(v.path)
        if c is None:
            c = _ext_classes[v.path] = ExtClass(v.path)
        return c
    if isinstance(v, Sym):
        return ExtClass(show(v))
    return v


# ----------------------------------------------------------------------------- small things


def kw(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


def conc(*vs):
    return all(not isinstance(v, AV) and is_const(v) for v in vs)


def default_call(it, f, args, kwargs):
    a = tuple(it.freeze(x) for x in args) + tuple(("=", k, it.freeze(v)) for k, v in sorted(kwargs.items()))
    path = f.path if isinstance(f, (Ext, ExtClass)) else None
    if path and path.startswith("logging"):
        return None
    if path and path.startswith(PURE):
        return Sym("call", path, *a)
    if isinstance(f, Sym) and f.op in ("attr",) and pure_base(f):
        return Sym("call", f, *a)
    return Sym("call", path or f, *a, ("#", it.path.fresh()))


def pure_base(f):
    while isinstance(f, Sym) and f.op in ("attr", "item", "call"):
        f = f.args[0]
    if isinstance(f, str):
        return f.startswith(PURE)
    if isinstance(f, Ext):
        return f.path.startswith(PURE)
    if isinstance(f, ExtClass):
        return f.path.startswith(PURE)
    return False


def str_(it, v):
    v = it.path.resolve(v)
    if isinstance(v, str):
        return v
    if isinstance(v, EnumV):
        f, _ = v.cls.lookup("__str__")
        if f is not None:
            return it.call(Bound(f, v), [], {}, None)
        return str(v.value) if v.cls.is_int else f"{v.cls.name}.{v.name}"
    if isinstance(v, Sym):
        if v.ty == "str":
            return v
        return Sym("str", v, ty="str")
    if isinstance(v, Obj):
        f, _ = v.cls.lookup("__str__") if isinstance(v.cls, UClass) else (None, None)
        if f is not None:
            return it.call(Bound(f, v), [], {}, None)
        a = v.attrs.get("args")
        if isinstance(a, tuple) and len(a) == 1:
            if isinstance(v.cls, type) and issubclass(v.cls, KeyError) and conc(*a):
                return repr(a[0])
            return str_(it, a[0])
        if isinstance(a, tuple) and not v.open and it.path.client.host_values and it.subclass(v.cls, BaseException) and not it.subclass(v.cls, (EOFError, OSError, UnicodeError)) and conc(*a):
            return str(a) if a else ""
        return Sym("str", v, ty="str")
    if isinstance(v, AV) or not is_const(v):
        return Sym("str", it.freeze(v), ty="str")
    return str(v)


def repr_(it, v):
    if conc(v):
        return repr(v)
    return Sym("repr", it.freeze(v), ty="str")


def format_(it, v, spec=""):
    v = it.path.resolve(v)
    if spec == "":
        return str_(it, v)
    if isinstance(v, EnumV) and v.cls.is_int:
        v = v.value
    if conc(v, spec):
        try:
            return format(v, spec)
        except ValueError as e:
            it.throw(ValueError, str(e))
    return Sym("format", it.freeze(v), spec, ty="str")


def percent(it, a, b):
    """template % values, where these are pasted as they are"""
    text = isinstance(a, str)
    vs = list(b) if isinstance(b, tuple) else [b]
    parts = re.split(r"(%.)" if text else rb"(%.)", a, flags=re.DOTALL)
    out = []
    for x in parts:
        if x[:1] not in ("%", b"%") or len(x) != 2:
            if x[:1] in ("%", b"%"):
                return NotImplemented
            out.append(x)
            continue
        c = x[1:] if text else x[1:].decode("latin1")
        if c == "%":
            out.append("%" if text else b"%")
            continue
        if not vs:
            return NotImplemented
        v = it.path.resolve(vs.pop(0))
        if text and c == "s":
            out.append(str_(it, v))
        elif text and c == "d" and (isinstance(v, int) and not isinstance(v, bool)):
            out.append(str(v))
        elif not text and c in "bs":
            v = it.freeze(v)
            if not (isinstance(v, bytes) or isinstance(v, Sym) and (v.ty == "bytes" or v.op in ("cat", "le"))):
                return NotImplemented
            out.append(v)
        else:
            return NotImplemented
    if vs:
        return NotImplemented
    return cat(*out)


def flag_value(cls, v):
    for m in cls.enum_members.values():
        if m.value == v:
            return m
    names = [m.name for m in cls.enum_members.values() if m.value and m.value & v == m.value and m.value & (m.value - 1) == 0]
    return EnumV(cls, "|".join(names) or None, v)


# ----------------------------------------------------------------------------- classes of the program


def is_enum_base(b):
    return b in ENUMS.values() or isinstance(b, UClass) and b.enum_members is not None


class _Auto(AV):
    pass


def prepare_class(it, c, frame):
    pass


def finish_class(it, c, kwargs):
    eb = [b for b in c.bases if is_enum_base(b)]
    if not eb:
        return
    kinds = set()
    for b in c.mro():
        if isinstance(b, ExtClass) and b in ENUMS.values():
            kinds.add(b.name)
        if isinstance(b, UClass) and b is not c:
            if b.is_int:
                kinds.add("IntEnum")
            if b.is_flag:
                kinds.add("Flag")
    c.is_int = bool(kinds & {"IntEnum", "IntFlag"}) or int in c.bases
    c.is_flag = bool(kinds & {"Flag", "IntFlag"})
    c.enum_members = {}
    last = 0
    by_value = {}
    for k, v in list(c.ns.items()):
        if k.startswith("_") or isinstance(v, (Func, Prim, Bound, UClass)):
            continue
        if isinstance(v, _Auto) or isinstance(v, Obj) and v.cls is _AUTO:
            if c.is_flag:
                n = 1
                while n <= last:
                    n <<= 1
                v = n
            else:
                v = last + 1
        if isinstance(v, EnumV):
            v = v.value
        if isinstance(v, int) and not isinstance(v, bool):
            last = max(last, v) if c.is_flag else v
        if not isinstance(v, AV) and v in by_value:
            m = by_value[v]
        else:
            m = EnumV(c, k, v)
            if not isinstance(v, AV):
                by_value[v] = m
        c.enum_members[k] = m
        c.ns[k] = m


_AUTO = ExtClass("enum.auto")


def make_dataclass(it, c):
    fields = []
    for b in reversed(c.mro()):
        if not isinstance(b, UClass):
            continue
        ann = b.ns.get("__annotations__")
        if ann is None or b is not c and b.fields is None:
            continue
        nodes = b.ns.get("__ann_nodes__", {})
        for n in ann.d:
            an = nodes.get(n)
            if an is not None and "ClassVar" in ast.unparse(an):
                continue
            fields = [f for f in fields if f[0] != n]
            fields.append((n, n in b.ns, b.ns.get(n), b))
    c.fields = fields
    for n, has, d, b in fields:
        if b is c and isinstance(d, Obj) and d.cls is FIELD:
            if "default" in d.attrs:
                c.ns[n] = d.attrs["default"]
            else:
                c.ns.pop(n, None)
    return c


def dataclass_init(it, c, o, args, kwargs, node):
    kwargs = dict(kwargs)
    vals = {}
    fields = [f for f in c.fields if not (isinstance(f[2], Obj) and f[2].cls is FIELD and f[2].attrs.get("init") is False)]
    if len(args) > len(fields):
        it.throw(TypeError, f"{c.name}() takes {len(fields)} arguments", node=node)
    for (n, *_), v in zip(fields, args):
        vals[n] = v
    star = kwargs.pop("**", None)
    for k, v in kwargs.items():
        if k in vals or k not in {f[0] for f in fields}:
            it.throw(TypeError, f"{c.name}() got an unexpected argument {k}", node=node)
        vals[k] = v
    for n, has, d, _ in c.fields:
        if n not in vals:
            if isinstance(d, Obj) and d.cls is FIELD:
                if "default_factory" in d.attrs:
                    vals[n] = it.call(d.attrs["default_factory"], [], {}, node)
                elif "default" in d.attrs:
                    vals[n] = d.attrs["default"]
                else:
                    it.throw(TypeError, f"{c.name}() missing argument {n}", node=node)
            elif has:
                vals[n] = d
            elif star is not None:
                vals[n] = Sym("item", star, n)
            else:
                it.throw(TypeError, f"{c.name}() missing argument {n}", node=node)
    for n, *_ in c.fields:
        it.setattr(o, n, vals[n], node)
    post, _ = c.lookup("__post_init__")
    if post is not None:
        it.call(Bound(post, o), [], {}, node)


def instantiate_special(it, c, args, kwargs, node):
    return NotImplemented


def class_attr(it, c, name):
    if name == "__init__":
        return Prim("init", lambda it, a, k, n: None)
    if name in ("__doc__", "__slots__"):
        return None
    if any(isinstance(b, type) and issubclass(b, BaseException) for b in c.mro()):
        return NotImplemented
    return NotImplemented


def apply_decorator(it, dec, v, node):
    if isinstance(dec, type) and dec in (property, classmethod, staticmethod):
        if isinstance(v, Func):
            v.kind = dec.__name__
        return v
    if isinstance(dec, Prim):
        return dec.fn(it, [v], {}, node)
    if isinstance(dec, Ext):
        return decorate_ext(it, dec.path, v, node)
    if isinstance(dec, Obj) and dec.cls is _DECO:
        return decorate_ext(it, dec.attrs["path"], v, node, dec.attrs.get("size"))
    if isinstance(dec, (Func, Bound, UClass, Obj)):
        return it.call(dec, [v], {}, node)
    return v  # unknown decorators are assumed not to change the function


_DECO = ExtClass("decorator")


def decorate_ext(it, path, v, node, size=128):
    if path in ("dataclasses.dataclass",):
        return make_dataclass(it, v)
    if path in ("functools.cached_property",):
        v.kind = "property"
        v.attrs["cached_property"] = True
        return v
    if path in ("abc.abstractproperty", "types.DynamicClassAttribute"):
        v.kind = "property"
        return v
    if path in ("contextlib.contextmanager", "contextlib.asynccontextmanager"):
        is_async = path.endswith("asynccontextmanager")

        def make(it, a, k, n, v=v):
            return Obj(CM, {"gen": it.call(v, a, k, n), "async": is_async})

        p = Prim(v.name, make)
        p.method = True
        p.wrapped = v
        return p
    if path in ("functools.lru_cache", "functools.cache"):
        if isinstance(v, Func):
            v.attrs["cached"] = size
        return v
    if path in ("functools.total_ordering", "enum.unique", "typing.final", "typing.overload", "typing.override", "abc.abstractmethod"):
        return v
    return v


# ----------------------------------------------------------------------------- objects of libraries


def obj_truth(it, o):
    return None


def obj_items(it, o):
    if "__items__" in o.attrs:
        return it.items(o.attrs["__items__"])
    return None


def obj_getitem(it, o, k, node):
    if o.cls in (int, str, bytes, list, dict, tuple):
        return NotImplemented
    if o.open or isinstance(o.cls, ExtClass):
        a = o.attrs
        return Sym("item", o, it.freeze(k))
    it.throw(TypeError, f"{o!r} is not subscriptable", node=node)


def obj_setitem(it, o, k, v, node):
    if o.open or isinstance(o.cls, ExtClass):
        it.path.emit("set_sym_item", obj=o, key=k, value=v)
        return True
    return False


def P(fn, name="prim"):
    return Prim(name, fn)


def exitstack_attr(it, o, name):
    cbs = o.attrs["callbacks"]

    def push(kind, v, a=(), k=None):
        cbs.append((kind, v, list(a), dict(k or {})))

    def enter(is_async):
        def run(it, a, k, n):
            v = cm_enter(it, it.path.resolve(a[0]), is_async, n)
            push("acm" if is_async else "cm", it.path.resolve(a[0]))
            return v
        return run

    def callback(is_async):
        def run(it, a, k, n):
            push("acallback" if is_async else "callback", a[0], a[1:], k)
            return a[0]
        return run

    def exit_(is_async):
        def run(it, a, k, n):
            v = it.path.resolve(a[0])
            if isinstance(v, (Func, Bound, Prim)):
                push("aexit" if is_async else "exit", v)
            else:
                push("acm" if is_async else "cm", v)
            return a[0]
        return run

    def pop_all(it, a, k, n):
        r = Obj(EXITSTACK, {"callbacks": list(cbs)})
        cbs.clear()
        return r

    def unwind(it, a, k, n):
        exitstack_exit(it, o, None, n)

    if name in ("enter_context", "callback", "push", "pop_all", "close"):
        return P({"enter_context": enter(False), "callback": callback(False), "push": exit_(False), "pop_all": pop_all, "close": unwind}[name])
    if name in ("enter_async_context", "aclose"):
        fn = enter(True) if name == "enter_async_context" else unwind
        return P(lambda it, a, k, n: Coro(lambda: fn(it, a, k, n), None))
    if name in ("push_async_callback", "push_async_exit"):
        return P({"push_async_callback": callback(True), "push_async_exit": exit_(True)}[name])
    return NotImplemented


def exitstack_exit(it, o, r, node):
    """True if the exception is swallowed"""
    had = r is not None
    while o.attrs["callbacks"]:
        kind, v, a, k = o.attrs["callbacks"].pop()
        try:
            if kind in ("cm", "acm"):
                if cm_exit(it, v, r, kind == "acm", node):
                    r = None
                continue
            if kind in ("exit", "aexit"):
                a = [it.class_of(r.value), r.value, None] if r is not None else [None, None, None]
            x = it.call(v, a, k, node)
            if kind in ("aexit", "acallback"):
                x = it.await_(x, node)
            if kind in ("exit", "aexit") and r is not None and it.truth(x):
                r = None
        except Raise as e:
            r = e
    if r is not None:
        raise r
    return had


def obj_attr(it, o, name):
    c = o.cls
    if c is EXITSTACK:
        return exitstack_attr(it, o, name)
    if c is BYTESIO:
        fn = _BYTESIO.get(name)
        if fn is not None:
            return Prim("BytesIO." + name, lambda it, a, k, n: fn(it, o, a, k, n))
    if c is CTXVAR:
        if name == "set":
            def f(it, a, k, n):
                it.path.data.setdefault("ctx", {})[o] = a[0]
                it.path.emit("ctx_set", var=o, value=a[0])
                return Sym("token", o, it.path.fresh())
            return P(f)
        if name == "get":
            def f(it, a, k, n):
                m = it.path.data.setdefault("ctx", {})
                if o in m:
                    return m[o]
                if a:
                    return a[0]
                return Sym("ctx", o)
            return P(f)
        if name == "reset":
            return P(lambda it, a, k, n: None)
        if name == "name":
            return o.attrs.get("name")
    if isinstance(c, type) and issubclass(c, BaseException) or isinstance(c, UClass) and it.subclass(c, BaseException):
        if name == "args":
            return o.attrs.get("args", ())
        if name == "with_traceback":
            return P(lambda it, a, k, n: o)
        if name in ("__cause__", "__context__", "__traceback__"):
            return o.attrs.get(name)
        if name == "__init__":
            return P(lambda it, a, k, n: o.attrs.__setitem__("args", tuple(a)))
        if name == "add_note":
            return P(lambda it, a, k, n: None)
    if name == "__init__":
        return P(lambda it, a, k, n: None)
    if c is LOCK:
        if name == "acquire":
            return P(lambda it, a, k, n: Coro(lambda: it.suspend(("lock", o), n) or True, None))
        if name == "release":
            return P(lambda it, a, k, n: None)
        if name == "locked":
            return P(lambda it, a, k, n: Sym("locked", o, it.path.fresh(), ty="bool"))
    return NotImplemented


def super_attr(it, s, name):
    o = s.self_
    if name == "__init__":
        def f(it, a, k, n):
            if isinstance(o, Obj) and it.subclass(o.cls, BaseException):
                o.attrs["args"] = tuple(a)
            return None
        return P(f)
    if name == "__new__":
        return P(lambda it, a, k, n: Obj(a[0]) if a and isinstance(a[0], UClass) else Sym("new", it.path.fresh()))
    if name == "__setattr__":
        return P(lambda it, a, k, n: o.attrs.__setitem__(a[0], a[1]))
    if name in ("__init_subclass__", "__post_init__"):
        return P(lambda it, a, k, n: None)
    if name == "__eq__":
        return P(lambda it, a, k, n: o is a[0])
    if name == "__repr__" or name == "__str__":
        return P(lambda it, a, k, n: Sym("repr", o, ty="str"))
    return Sym("attr", s, name)


# io.BytesIO: reads are terms rd(data, position, count)


def _rd_pos(it, o):
    return o.attrs["pos"]


def _known_short(it, o):
    for r, n in o.attrs["reads"]:
        if it.path.known_cmp("==", it.length(r), n) is False and it.path.known_cmp("<", it.length(r), n) is not False:
            return True
    return False


def _read(it, o, a, k, n):
    cnt = kw(a, k, 0, "size")
    cnt = it.path.resolve(cnt)
    data, pos = o.attrs["data"], o.attrs["pos"]
    if isinstance(cnt, EnumV):
        cnt = cnt.value
    if isinstance(data, bytes) and isinstance(pos, int) and (cnt is None or isinstance(cnt, int)):
        r = data[pos:] if cnt is None or cnt < 0 else data[pos : pos + cnt]
        o.attrs["pos"] = pos + len(r)
        return r
    if isinstance(data, Sym) and isinstance(pos, int) and (cnt is None or isinstance(cnt, int)):
        at, ok = 0, True
        end = None if cnt is None or cnt < 0 else pos + cnt
        parts_ = data.args if data.op == "cat" else (data,)
        for i, q in enumerate(parts_):
            if end is not None and at >= end:
                break
            l = it.path.resolve(it.length(q))
            if not isinstance(l, int):
                # the rest may be taken as a whole
                ok = pos <= at and end is None and i == len(parts_) - 1 and len(parts_) > 1
                if ok:
                    o.attrs["pos"] = it.binop("+", at, l)
                    return it.getslice(data, slice(pos or None, None))
                break
            at += l
        if ok:
            r = b"" if pos >= at else it.getslice(data, slice(pos or None, end))
            l = it.path.resolve(it.length(r))
            if isinstance(l, int):
                o.attrs["pos"] = pos + l
                return r
    if cnt is None or cnt == -1:
        o.attrs["pos"] = Sym("end", data, ty="int")
        if isinstance(pos, Sym) and pos.op == "end":
            return b""
        it.path.emit("read", reader=o, n=None, pos=pos)
        if pos == 0:
            return data
        return Sym("slice", data, pos, None, ty="bytes")
    if isinstance(cnt, int) and cnt == 0:
        return b""
    if isinstance(cnt, int) and cnt < 0:
        return _read(it, o, [], {}, n)
    if isinstance(cnt, Sym) and it.path.interval(cnt)[0] < 0 and it.path.known_cmp("<", cnt, 0) is True:
        return _read(it, o, [], {}, n)
    if isinstance(pos, Sym) and pos.op == "end" or _known_short(it, o):
        return b""
    r = Sym("rd", data, pos, cnt, ty="bytes")
    short = it.path.client.short_read(it.path, o, data, pos, cnt, r, n)
    if short is True:
        o.attrs["pos"] = Sym("end", data, ty="int")
        return b""
    if isinstance(cnt, int):
        it.path.set_interval(Sym("len", r, ty="int"), 0, cnt)
    it.path.emit("read", reader=o, n=cnt, pos=pos, value=r)
    if (r, cnt) not in o.attrs["reads"]:
        o.attrs["reads"].append((r, cnt))
    o.attrs["pos"] = it.binop("+", pos, cnt)
    return r


def _seek(it, o, a, k, n):
    whence = it.path.resolve(kw(a, k, 1, "whence", 0))
    if isinstance(whence, Ext):
        whence = {"SEEK_SET": 0, "SEEK_CUR": 1, "SEEK_END": 2}.get(whence.path.rpartition(".")[2], whence)
    to = it.path.resolve(a[0])
    if whence == 0:
        o.attrs["pos"] = to
    elif whence == 1:
        o.attrs["pos"] = it.binop("+", o.attrs["pos"], to)
    elif whence == 2 and to == 0:
        o.attrs["pos"] = Sym("end", o.attrs["data"], ty="int")
    else:
        raise Undecided("seek")
    return o.attrs["pos"]


def _bwrite(it, o, a, k, n):
    if o.attrs["pos"] == 0 and o.attrs["data"] == b"" or isinstance(o.attrs["pos"], Sym):
        o.attrs["data"] = cat(o.attrs["data"], it.freeze(a[0]))
        o.attrs["pos"] = Sym("end", o, ty="int")
        return it.length(a[0])
    raise Undecided("BytesIO.write")


_BYTESIO = {
    "read": _read,
    "read1": _read,
    "tell": lambda it, o, a, k, n: o.attrs["pos"],
    "seek": _seek,
    "getvalue": lambda it, o, a, k, n: o.attrs["data"],
    "getbuffer": lambda it, o, a, k, n: o.attrs["data"],
    "write": _bwrite,
    "close": lambda it, o, a, k, n: None,
    "__enter__": lambda it, o, a, k, n: o,
}


# ----------------------------------------------------------------------------- context managers


def cm_enter(it, cm, is_async, node):
    if isinstance(cm, Obj):
        if cm.cls is CM:
            g = cm.attrs["gen"]
            return it.gen_next(g)
        if cm.cls in (SUPPRESS, NULLCM, BYTESIO):
            return cm.attrs.get("value", cm if cm.cls is BYTESIO else None)
        if cm.cls is CLOSING:
            return cm.attrs["value"]
        if cm.cls is LOCK:
            it.suspend(("lock", cm), node)
            return None
        if cm.cls is EXITSTACK:
            return cm
        n = "__aenter__" if is_async else "__enter__"
        if isinstance(cm.cls, UClass) and cm.cls.lookup(n)[0] is not None:
            v = it.call(it.getattr(cm, n), [], {}, node)
            return it.await_(v, node) if is_async else v
    if isinstance(cm, (Sym, Ext)) or isinstance(cm, Obj):
        it.path.emit("cm_enter", cm=cm)
        if is_async:
            it.suspend(("cm", cm), node)
        return Sym("entered", cm if not isinstance(cm, Ext) else cm.path)
    it.throw(TypeError, "not a context manager", node=node)


def cm_exit(it, cm, r, is_async, node):
    """True if the exception is swallowed"""
    if isinstance(cm, Obj):
        if cm.cls is CM:
            g = cm.attrs["gen"]
            if r is None:
                try:
                    it.resume(g, None)
                except StopIteration:
                    return False
                it.throw(RuntimeError, "generator didn't stop")
            try:
                it.resume(g, None, exc=r)
            except StopIteration:
                return True
            it.throw(RuntimeError, "generator didn't stop after throw()")
        if cm.cls is SUPPRESS:
            return r is not None and it.truth(it.isinstance_(r.value, cm.attrs["types"]))
        if cm.cls in (NULLCM, BYTESIO, LOCK):
            return False
        if cm.cls is EXITSTACK:
            return exitstack_exit(it, cm, r, node)
        if cm.cls is CLOSING:
            m = "aclose" if is_async else "close"
            v = it.call(it.getattr(cm.attrs["value"], m), [], {}, node)
            if is_async:
                it.await_(v, node)
            return False
        n = "__aexit__" if is_async else "__exit__"
        if isinstance(cm.cls, UClass) and cm.cls.lookup(n)[0] is not None:
            a = [it.class_of(r.value), r.value, None] if r is not None else [None, None, None]
            v = it.call(it.getattr(cm, n), a, {}, node)
            if is_async:
                v = it.await_(v, node)
            return r is not None and it.truth(v)
    it.path.emit("cm_exit", cm=cm)
    if is_async:
        it.suspend(("cm", cm), node)
    return False


# ----------------------------------------------------------------------------- struct


def fmt_items(it, fmt):
    """[(count or term, char)]; None if the byte order isn't little-endian"""
    parts = list(fmt.args) if isinstance(fmt, Sym) and fmt.op == "cat" else [fmt]
    out = []
    num = None
    order = None
    first = True
    for p in parts:
        if isinstance(p, str):
            for ch in p:
                if first and ch in "<>!=@":
                    order = ch
                    first = False
                    continue
                first = False
                if ch.isdigit():
                    num = (num or 0) * 10 + int(ch) if not isinstance(num, Sym) else None
                elif ch == " ":
                    continue
                else:
                    out.append((num, ch))
                    num = None
        elif isinstance(p, Sym) and p.op == "str":
            first = False
            num = p.args[0]
        elif isinstance(p, Sym):
            num = p
        else:
            return None, None
    return order, out


SIZES = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False), "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def struct_pack(it, args, kwargs, node):
    fmt = it.path.resolve(args[0])
    vals = list(args[1:])
    order, items = fmt_items(it, fmt)
    if items is None:
        return Sym("pack", *[it.freeze(a) for a in args], ty="bytes")
    out = []
    little = order == "<" or order == "=" or all(ch in "sbBxc?" for _, ch in items)
    try:
        for n, ch in items:
            if ch == "x":
                out.append(b"\0" * (n or 1))
            elif ch == "s":
                v = it.path.resolve(vals.pop(0))
                if isinstance(v, ABuf):
                    v = cat(*v.parts)
                if n is None:
                    n = 1
                l = it.length(v)
                if isinstance(v, bytes) and isinstance(n, int):
                    out.append(v[:n].ljust(n, b"\0"))
                elif it.eq(l, n) is True:
                    out.append(v)
                else:
                    out.append(Sym("fixed", n, v, ty="bytes"))
            elif ch in "fd":
                v = it.path.resolve(vals.pop(0))
                if isinstance(v, EnumV) and v.cls.is_int:
                    v = v.value
                if v is None or isinstance(v, (str, bytes, AList, ADict, tuple, datetime.date, datetime.timedelta)):
                    it.throw(struct.error, "required argument is not a float", node=node)
                if little and conc(v):
                    try:
                        out.append(struct.pack("<" + ch, v))
                    except (struct.error, OverflowError, TypeError) as e:
                        it.throw(type(e), str(e), node=node)
                    continue
                out.append(Sym("lef", 4 if ch == "f" else 8, it.freeze(v), ty="bytes") if little else Sym("pack", order or "@", ch, it.freeze(v), ty="bytes"))
            elif ch in SIZES:
                for _ in range(n or 1 if not isinstance(n, Sym) else 1):
                    v = it.path.resolve(vals.pop(0))
                    size, signed = SIZES[ch]
                    if isinstance(v, EnumV):
                        v = v.value
                    if isinstance(v, bool):
                        v = int(v)
                    if order in (None, "@") and ch in "lL":
                        size = 8
                    if not little:
                        if isinstance(v, int) and order in (">", "!"):
                            out.append(v.to_bytes(size, "big", signed=signed))
                        else:
                            out.append(Sym("be" if order in (">", "!") else "native", size, signed, it.freeze(v), ty="bytes"))
                        continue
                    if isinstance(v, int):
                        try:
                            out.append(v.to_bytes(size, "little", signed=signed))
                        except OverflowError as e:
                            it.throw(struct.error, str(e), node=node)
                    elif isinstance(v, (str, bytes, float)) or v is None or isinstance(v, (AList, ADict, tuple)):
                        it.throw(struct.error, "required argument is not an integer", node=node)
                    else:
                        it.path.emit("pack", size=size, signed=signed, value=v)
                        out.append(Sym("le", size, signed, it.freeze(v), ty="bytes"))
            elif ch == "?":
                v = vals.pop(0)
                out.append(Sym("le", 1, False, Sym("bool", v, ty="bool"), ty="bytes") if isinstance(v, AV) else bytes([bool(v)]))
            else:
                return Sym("pack", *[it.freeze(a) for a in args], ty="bytes")
    except IndexError:
        it.throw(struct.error, "pack expected more items", node=node)
    if vals:
        it.throw(struct.error, "too many items to pack", node=node)
    return cat(*out) if out else b""


def struct_unpack(it, args, kwargs, node):
    fmt, data = it.path.resolve(args[0]), it.path.resolve(args[1])
    return unpack_at(it, fmt, data, node)


def unle(w, signed, part, little=True):
    """The number in w bytes"""
    if isinstance(part, bytes):
        return int.from_bytes(part, "little" if little else "big", signed=signed)
    if isinstance(part, Sym) and part.op == "le" and part.args[:2] == (w, signed) and little:
        return part.args[2]
    return Sym("unle" if little else "unbe", w, signed, part, ty="int")


def unpack_at(it, fmt, data, node):
    order, items = fmt_items(it, fmt)
    if items is None or any(not (n is None or isinstance(n, int)) for n, _ in items):
        return Sym("unpack", it.freeze(fmt), it.freeze(data))
    if isinstance(data, ABuf):
        data = cat(*data.parts)
    flat = []
    for n, ch in items:
        if ch == "s":
            flat.append((n or 1, "s"))
        else:
            flat.extend([(None, ch)] * (n if n is not None else 1))
    size = 0
    for n, ch in flat:
        size += n if ch == "s" else {"f": 4, "d": 8, "x": 1, "?": 1, "c": 1}.get(ch) or SIZES[ch][0]
    if conc(data):
        try:
            return struct.unpack(("<" if order is None else order) + "".join(f"{n}s" if ch == "s" else ch for n, ch in flat), data)
        except struct.error as e:
            it.throw(struct.error, str(e), node=node)
    l = it.length(data)
    ok = it.compare("==", l, size)
    if ok is not True:
        if ok is False:
            it.throw(struct.error, f"unpack requires a buffer of {size} bytes", node=node)
        r = it.path.client.unpack_size(it.path, data, size, node)
        if r is None:
            r = it.truth(ok)
        elif isinstance(ok, Sym):
            it.path.assume(ok, r)
        if not r:
            it.throw(struct.error, f"unpack requires a buffer of {size} bytes", node=node)
    out, off = [], 0
    little = order in ("<", "=") or all(ch in "sbBxc?" for _, ch in flat)
    for n, ch in flat:
        w = n if ch == "s" else {"f": 4, "d": 8, "x": 1, "?": 1, "c": 1}.get(ch) or SIZES[ch][0]
        part = data if off == 0 and w == size else it.getslice(data, slice(off, off + w))
        off += w
        if ch == "x":
            continue
        if ch == "s":
            out.append(part)
        elif ch in "fd":
            out.append(Sym("unf" if little else "unfbe", w, part, ty="float"))
        elif ch in SIZES:
            out.append(unle(w, SIZES[ch][1], part, little))
        else:
            out.append(Sym("unpack1", ch, part))
    return tuple(out)


# ----------------------------------------------------------------------------- asyncio & co.


def e_create_task(it, a, k, n):
    c = a[0]
    t = Task(c, "task")
    it.path.tasks.append(t)
    t.ctx = dict(it.path.data.get("ctx", {}))
    it.path.emit("create_task", task=t)
    return t


def e_sleep(it, a, k, n):
    return Coro(lambda: it.suspend(("sleep",), n), None)


def e_gather(it, a, k, n):
    return Coro(lambda: AList([it.await_(x, n) for x in a]), None)


def e_wait_for(it, a, k, n):
    def run():
        if it.path.choose(2, "wait_for: timeout"):
            it.suspend(("timeout",), n)
            it.throw(asyncio.TimeoutError, node=n)
        return it.await_(a[0], n)

    return Coro(run, None)


def e_iscoroutinefunction(it, a, k, n):
    f = it.path.resolve(a[0])
    g = f.func if isinstance(f, Bound) else f
    if isinstance(g, Func):
        return g.is_async and not g.is_gen
    if isinstance(g, (UClass, type, Prim)):
        return False
    return Sym("iscoroutinefunction", g, ty="bool")


def e_iscoroutine(it, a, k, n):
    f = it.path.resolve(a[0])
    if isinstance(f, Coro):
        return True
    if isinstance(f, Sym):
        return Sym("iscoroutine", f, ty="bool")
    return isinstance(f, Task) and False


def e_getlogger(it, a, k, n):
    return Ext("logging.Logger")


def e_copy(it, a, k, n):
    v = it.path.resolve(a[0])
    if isinstance(v, Obj):
        f = v.cls.lookup("__copy__")[0] if isinstance(v.cls, UClass) else None
        if f is not None:
            return it.call(Bound(f, v), [], {}, n)
        return Obj(v.cls, dict(v.attrs), v.label, v.open)
    if isinstance(v, AList):
        return AList(v.items)
    if isinstance(v, ADict):
        return ADict(v.d, v.open)
    if isinstance(v, ABuf):
        return ABuf(v.parts)
    if isinstance(v, ASet):
        return ASet(v.items)
    return v


def e_deepcopy(it, a, k, n, memo=None):
    memo = {} if memo is None else memo
    v = it.path.resolve(a[0])
    if id(v) in memo:
        return memo[id(v)]
    go = lambda x: e_deepcopy(it, [x], {}, n, memo)
    if isinstance(v, Obj):
        f = v.cls.lookup("__deepcopy__")[0] if isinstance(v.cls, UClass) else None
        if f is not None:
            return it.call(Bound(f, v), [ADict()], {}, n)
        o = memo[id(v)] = Obj(v.cls, {}, v.label, v.open)
        o.attrs.update({q: go(x) for q, x in v.attrs.items()})
        return o
    if isinstance(v, AList):
        return AList([go(x) for x in v.items])
    if isinstance(v, ADict):
        return ADict({q: go(x) for q, x in v.d.items()}, v.open)
    if isinstance(v, tuple):
        return tuple(go(x) for x in v)
    return e_copy(it, [v], {}, n)


def e_replace(it, a, k, n):
    v = it.path.resolve(a[0])
    if isinstance(v, Obj):
        kws = {f[0]: v.attrs[f[0]] for f in (v.cls.fields or []) if f[0] in v.attrs}
        kws.update(k)
        return it.instantiate(v.cls, [], kws, n)
    return Sym("replace", v, it.path.fresh())


def e_field(it, a, k, n):
    return Obj(FIELD, dict(k))


def e_dataclass(it, a, k, n):
    if a:
        return make_dataclass(it, a[0])
    return Obj(_DECO, {"path": "dataclasses.dataclass"})


def deco_factory(path):
    def f(it, a, k, n):
        if a and isinstance(a[0], (Func, UClass)):
            return decorate_ext(it, path, a[0], n, None if path == "functools.cache" else 128)
        size = a[0] if a else k.get("maxsize", 128)
        return Obj(_DECO, {"path": path, "size": size if size is None or type(size) is int else 128})

    return f


def e_wraps(it, a, k, n):
    return P(lambda it, a, k, n: a[0])


def e_partial(it, a, k, n):
    f, pre, pk = a[0], list(a[1:]), dict(k)
    return P(lambda it, a2, k2, n2: it.call(f, pre + list(a2), {**pk, **k2}, n2), "partial")


def e_suppress(it, a, k, n):
    return Obj(SUPPRESS, {"types": tuple(a)})


def e_nullcontext(it, a, k, n):
    return Obj(NULLCM, {"value": a[0] if a else None})


def e_closing(it, a, k, n):
    return Obj(CLOSING, {"value": a[0]})


def e_exitstack(it, a, k, n):
    return Obj(EXITSTACK, {"callbacks": []})


def e_contextvar(it, a, k, n):
    return Obj(CTXVAR, {"name": a[0]})


def e_chain(it, a, k, n):
    def go():
        for x in a:
            yield from it.iterate(x, n)

    return Iter(go(), tuple(it.freeze(x) for x in a))


def e_chain_from(it, a, k, n):
    def go():
        for x in it.iterate(a[0], n):
            yield from it.iterate(x, n)

    return Iter(go(), a[0])


def e_islice(it, a, k, n):
    lo, hi, st = (0, a[1], 1) if len(a) == 2 else (a[1] or 0, a[2], a[3] if len(a) > 3 and a[3] else 1)
    lo, hi = it.path.resolve(lo), it.path.resolve(hi)
    if not isinstance(lo, int) or st != 1:
        raise Undecided("islice")

    src = it.iterate(a[0], n) if not isinstance(a[0], Iter) else a[0].host

    def go():
        i = 0
        while True:
            if hi is not None and not it.truth(it.compare("<", i, hi)):
                return
            try:
                x = next(src)
            except StopIteration:
                return
            if i >= lo:
                yield x
            i += 1

    return Iter(go(), a[0])


def e_count(it, a, k, n):
    def go():
        v = a[0] if a else 0
        while True:
            yield v
            v = it.binop("+", v, a[1] if len(a) > 1 else 1)

    return Iter(go(), "count")


def e_repeat(it, a, k, n):
    def go():
        if len(a) > 1:
            for _ in it.iterate(RangeV(0, a[1])):
                yield a[0]
        else:
            while True:
                yield a[0]

    return Iter(go(), "repeat")


def e_zip(it, a, k, n, longest=False):
    def go():
        its = [x.host if isinstance(x, Iter) else it.iterate(x, n) for x in a]
        while True:
            row, done = [], 0
            for h in its:
                try:
                    row.append(next(h))
                except StopIteration:
                    if not longest:
                        if k.get("strict") is True and (row or any(_has(h2) for h2 in its[1:])):
                            it.throw(ValueError, "zip() arguments have different lengths", node=n)
                        return
                    done += 1
                    row.append(k.get("fillvalue"))
            if longest and done == len(its) or not its:
                return
            yield tuple(row)

    return Iter(go(), ("zip",) + tuple(it.freeze(x) for x in a))


def _has(h):
    try:
        next(h)
        return True
    except StopIteration:
        return False


def e_takewhile(it, a, k, n):
    def go():
        for x in it.iterate(a[1], n):
            if not it.truth(it.call(a[0], [x], {}, n)):
                return
            yield x

    return Iter(go(), a[1])


def e_reduce(it, a, k, n):
    xs = it.iterate(a[1], n)
    acc = a[2] if len(a) > 2 else next(xs)
    for x in xs:
        acc = it.call(a[0], [acc, x], {}, n)
    return acc


def e_defaultdict(it, a, k, n):
    d = ADict()
    d.factory = a[0] if a else None
    if len(a) > 1:
        d.d.update(it.path.resolve(a[1]).d)
    return d


def e_bytesio(it, a, k, n):
    v = it.path.resolve(a[0]) if a else b""
    if isinstance(v, ABuf):
        v = cat(*v.parts)
    o = Obj(BYTESIO, {"data": v, "pos": 0, "reads": []})
    it.path.emit("bytesio", reader=o)
    return o


def e_re_compile(it, a, k, n):
    return Sym("re", it.freeze(a[0]), it.freeze(kw(a, k, 1, "flags", 0)), ty="obj")


MATCH = ExtClass("re.Match")


def re_match(it, m):
    """A match object, for constant text"""
    if m is None:
        return None
    o = Obj(MATCH, {"__match__": None}, "match")
    o.attrs.pop("__match__")

    def fn(name):
        def run(it, a, k, n):
            a = [it.path.resolve(x) for x in a]
            if any(isinstance(x, AV) for x in a):
                raise Undecided("match." + name)
            try:
                r = getattr(m, name)(*a)
            except IndexError as e:
                it.throw(IndexError, str(e), node=n)
            if isinstance(r, dict):
                return ADict(r)
            return r
        return Prim("match." + name, run)

    for name in ("group", "groups", "groupdict", "start", "end", "span", "expand"):
        o.attrs[name] = fn(name)
    o.attrs["__getitem__"] = fn("__getitem__")
    o.attrs.update(pos=m.pos, endpos=m.endpos, string=m.string, lastgroup=m.lastgroup, lastindex=m.lastindex)
    return o


def regex_method(it, pat, flags, name, a, k, n):
    """Methods of a compiled regular expression, on constant text"""
    a = [it.path.resolve(x) for x in a]
    k = {x: it.path.resolve(y) for x, y in k.items()}
    if not isinstance(pat, (str, bytes)) or not isinstance(flags, int):
        return NotImplemented
    try:
        rx = re.compile(pat, flags)
    except re.error as e:
        raise Undecided(str(e)) from e
    if name in ("sub", "subn"):
        repl, text = kw(a, k, 0, "repl"), kw(a, k, 1, "string")
        count = kw(a, k, 2, "count", 0)
        if not isinstance(text, (str, bytes)) or len(a) > 3 or k.keys() - {"repl", "string", "count"} or name == "subn" or not isinstance(count, int):
            return NotImplemented
        if isinstance(repl, (str, bytes)):
            try:
                return rx.sub(repl, text, count=count)
            except (re.error, IndexError) as e:
                it.throw(ValueError, str(e), node=n)
        if isinstance(repl, Sym):
            return NotImplemented
        out, at = [], 0
        for m in itertools.islice(rx.finditer(text), count or None):
            out += [text[at : m.start()], it.call(repl, [re_match(it, m)], {}, n)]
            at = m.end()
        out.append(text[at:])
        out = [x for x in out if not (isinstance(x, (str, bytes)) and not x)]
        return cat(text[:0], *out) if out else text[:0]
    text = kw(a, k, 0, "string")
    if not isinstance(text, (str, bytes)) or any(isinstance(x, AV) for x in a) or k.keys() - {"string", "maxsplit"}:
        return NotImplemented
    rest = a[1:]
    if "maxsplit" in k:
        rest = [k["maxsplit"]]
    if name in ("match", "fullmatch", "search"):
        return re_match(it, getattr(rx, name)(text, *rest))
    if name == "finditer":
        return Iter(iter([re_match(it, m) for m in rx.finditer(text, *rest)]), None, False)
    if name in ("findall", "split"):
        return AList(list(getattr(rx, name)(text, *rest)))
    return NotImplemented


def e_re_fn(name):
    def run(it, a, k, n):
        a = [it.path.resolve(x) for x in a]
        k = dict(k)
        nargs = 4 if name == "sub" else 3 if name == "split" else 2
        flags = it.path.resolve(k.pop("flags", a[nargs] if len(a) > nargs else 0))
        pat = kw(a, k, 0, "pattern")
        if isinstance(pat, Sym) and pat.op == "re":
            pat, flags = pat.args
        k.pop("pattern", None)
        r = regex_method(it, pat, flags, name, a[1:nargs], k, n)
        if r is NotImplemented:
            return Sym("call", "re." + name, *[it.freeze(x) for x in a])
        return r
    return run


def e_cast(it, a, k, n):
    return a[1]


def e_typevar(it, a, k, n):
    return Sym("typing", a[0])


def e_namedtuple(it, a, k, n):
    raise Undecided("namedtuple")


def e_current_task(it, a, k, n):
    return it.path.data.get("task")


def e_awaitable_passthrough(it, a, k, n):
    return a[0]


def e_lock(it, a, k, n):
    return Obj(LOCK)


def e_calcsize(it, a, k, n):
    return struct.calcsize(a[0]) if isinstance(a[0], str) else Sym("calcsize", a[0], ty="int")


def e_struct(it, a, k, n):
    """A compiled format"""
    fmt = it.path.resolve(a[0] if a else k["format"])
    o = Prim("struct.Struct", lambda it, b, k2, n2: it.throw(TypeError, "not callable", node=n2))
    o.attrs = {
        "pack": P(lambda it, b, k2, n2: struct_pack(it, [fmt, *b], k2, n2), "Struct.pack"),
        "unpack": P(lambda it, b, k2, n2: struct_unpack(it, [fmt, *b], k2, n2), "Struct.unpack"),
        "format": fmt,
        "size": e_calcsize(it, [fmt], {}, n),
    }
    for f in ("unpack_from", "pack_into", "iter_unpack"):
        fn = EXT.get(f"struct.{f}")
        o.attrs[f] = P(lambda it, b, k2, n2, f=f, fn=fn: fn(it, [fmt, *b], k2, n2) if fn else it.call(Ext(f"struct.{f}"), [fmt, *b], k2, n2), f"Struct.{f}")
    return o


def e_attrgetter(it, a, k, n):
    return P(lambda it, b, k2, n2: it.getattr(b[0], a[0]))


def e_itemgetter(it, a, k, n):
    return P(lambda it, b, k2, n2: it.getitem(b[0], a[0]))


def e_escape(it, a, k, n):
    import re

    return re.escape(a[0]) if isinstance(a[0], str) else Sym("call", "re.escape", it.freeze(a[0]), ty="str")


EXT = {}
for _path, _fn in {
    "struct.pack": struct_pack,
    "struct.unpack": struct_unpack,
    "struct.calcsize": e_calcsize,
    "struct.Struct": e_struct,
    "asyncio.create_task": e_create_task,
    "asyncio.ensure_future": e_create_task,
    "asyncio.current_task": e_current_task,
    "asyncio.sleep": e_sleep,
    "asyncio.gather": e_gather,
    "asyncio.wait_for": e_wait_for,
    "asyncio.shield": e_awaitable_passthrough,
    "asyncio.Lock": e_lock,
    "asyncio.iscoroutinefunction": e_iscoroutinefunction,
    "asyncio.iscoroutine": e_iscoroutine,
    "inspect.iscoroutinefunction": e_iscoroutinefunction,
    "inspect.iscoroutine": e_iscoroutine,
    "inspect.isawaitable": e_iscoroutine,
    "logging.getLogger": e_getlogger,
    "copy.copy": e_copy,
    "copy.deepcopy": e_deepcopy,
    "dataclasses.replace": e_replace,
    "dataclasses.field": e_field,
    "dataclasses.dataclass": e_dataclass,
    "functools.wraps": e_wraps,
    "functools.partial": e_partial,
    "functools.reduce": e_reduce,
    "functools.lru_cache": deco_factory("functools.lru_cache"),
    "functools.cache": deco_factory("functools.cache"),
    "contextlib.suppress": e_suppress,
    "contextlib.nullcontext": e_nullcontext,
    "contextlib.closing": e_closing,
    "contextlib.ExitStack": e_exitstack,
    "contextlib.AsyncExitStack": e_exitstack,
    "contextlib.aclosing": e_closing,
    "contextvars.ContextVar": e_contextvar,
    "itertools.chain": e_chain,
    "itertools.islice": e_islice,
    "itertools.count": e_count,
    "itertools.repeat": e_repeat,
    "itertools.takewhile": e_takewhile,
    "itertools.zip_longest": lambda it, a, k, n: e_zip(it, a, k, n, True),
    "collections.defaultdict": e_defaultdict,
    "io.BytesIO": e_bytesio,
    "re.compile": e_re_compile,
    "re.escape": e_escape,
    **{"re." + x: e_re_fn(x) for x in ("findall", "split", "match", "fullmatch", "search", "finditer", "sub")},
    "typing.cast": e_cast,
    "typing.TypeVar": e_typevar,
    "typing.NewType": lambda it, a, k, n: a[1],
    "operator.attrgetter": e_attrgetter,
    "operator.itemgetter": e_itemgetter,
    "enum.auto": lambda it, a, k, n: Obj(_AUTO),
}.items():
    EXT[_path] = Prim(_path, _fn)
_chain = EXT["itertools.chain"]
_chain.attrs = {"from_iterable": Prim("chain.from_iterable", e_chain_from)}

import sys as _sys  # noqa: E402

CONSTS = {
    "typing.TYPE_CHECKING": False,
    "typing.Protocol": object,
    "typing.Generic": object,
    "typing.NamedTuple": ExtClass("typing.NamedTuple"),
    "abc.ABC": object,
    "abc.ABCMeta": object,
    "string.ascii_letters": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "string.digits": "0123456789",
    "string.ascii_lowercase": "abcdefghijklmnopqrstuvwxyz",
    "string.ascii_uppercase": "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "string.punctuation": "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~",
    "string.printable": __import__("string").printable,
    "string.hexdigits": "0123456789abcdefABCDEF",
    "string.whitespace": " \t\n\r\x0b\x0c",
    "sys.byteorder": "little",
    "sys.maxsize": _sys.maxsize,
    "re.DOTALL": 16, "re.S": 16, "re.VERBOSE": 64, "re.X": 64, "re.IGNORECASE": 2, "re.I": 2, "re.MULTILINE": 8, "re.M": 8, "re.ASCII": 256, "re.A": 256, "re.UNICODE": 32, "re.U": 32,
}


# ----------------------------------------------------------------------------- calls


def call_ext(it, f, args, kwargs, node):
    if isinstance(f, ExtClass):
        if f is BYTESIO:
            return e_bytesio(it, args, kwargs, node)
        r = it.path.client.call_unknown(it.path, f, args, kwargs, node)
        if r is not NotImplemented:
            return r
        o = Obj(f, dict(kwargs), None, True)
        if args:
            o.attrs["__args__"] = tuple(args)
        return o
    if f.path.startswith("logging"):
        return None
    return NotImplemented


BUILTINS = {}


def builtin(name):
    if name in BUILTINS:
        return BUILTINS[name]
    v = getattr(builtins, name, NotImplemented)
    if isinstance(v, type) or v is NotImplemented or v is Ellipsis or v is None or isinstance(v, bool):
        return v
    if name == "NotImplemented":
        return Ext("builtins.NotImplemented")
    return Ext("builtins." + name)


def bi(name):
    def deco(fn):
        BUILTINS[name] = Prim(name, fn)
        return fn

    return deco


@bi("len")
def _(it, a, k, n):
    return it.length(a[0])


@bi("isinstance")
def _(it, a, k, n):
    return it.isinstance_(a[0], a[1])


@bi("issubclass")
def _(it, a, k, n):
    c = it.path.resolve(a[0])
    if isinstance(c, (UClass, ExtClass, type)):
        return it.subclass(c, a[1])
    return Sym("issubclass", c, it.freeze(a[1]), ty="bool")


@bi("getattr")
def _(it, a, k, n):
    name = it.path.resolve(a[1])
    if not isinstance(name, str):
        return Sym("getattr", a[0], it.freeze(name))
    try:
        return it.getattr(a[0], name, n)
    except Raise as r:
        if len(a) > 2 and it.subclass(it.class_of(r.value), AttributeError):
            return a[2]
        raise


@bi("hasattr")
def _(it, a, k, n):
    o = it.path.resolve(a[0])
    t = {"str": str, "bytes": bytes, "int": int, "float": float, "bool": bool}.get(o.ty) if isinstance(o, Sym) and isinstance(o.ty, str) else None
    if t is not None and isinstance(a[1], str):
        return hasattr(t, a[1])
    try:
        v = it.getattr(a[0], a[1], n)
    except Raise as r:
        if it.subclass(it.class_of(r.value), AttributeError):
            return False
        raise
    if isinstance(v, Sym) and v.op == "attr" and v.args[0] is a[0]:
        return Sym("hasattr", a[0], a[1], ty="bool")
    return True


@bi("setattr")
def _(it, a, k, n):
    it.setattr(a[0], a[1], a[2], n)


@bi("callable")
def _(it, a, k, n):
    v = it.path.resolve(a[0])
    if isinstance(v, (Func, Bound, Prim, UClass, type)):
        return True
    if isinstance(v, (Sym, Ext)):
        return Sym("callable", v, ty="bool")
    return isinstance(v, Obj) and isinstance(v.cls, UClass) and v.cls.lookup("__call__")[0] is not None


@bi("iter")
def _(it, a, k, n):
    v = it.path.resolve(a[0])
    if isinstance(v, (Gen, Iter)):
        return v
    if isinstance(v, Obj) and isinstance(v.cls, UClass) and v.cls.lookup("__iter__")[0] is not None:
        return it.call(it.getattr(v, "__iter__"), [], {}, n)
    if len(a) == 2:
        def go():
            while True:
                x = it.call(a[0], [], {}, n)
                if it.truth(it.eq(x, a[1])):
                    return
                yield x
        return Iter(go(), v)
    return Iter(it.iterate(v, n), v)


@bi("aiter")
def _(it, a, k, n):
    v = it.path.resolve(a[0])
    if isinstance(v, (Gen, Iter)):
        return v
    return Iter(it.aiterate(v, n), v, True)


@bi("next")
def _(it, a, k, n):
    v = it.path.resolve(a[0])
    try:
        if isinstance(v, Gen):
            return it.gen_next(v)
        if isinstance(v, Iter):
            try:
                return next(v.host)
            except StopIteration:
                it.throw(StopIteration, node=n)
        if isinstance(v, Obj) and isinstance(v.cls, UClass) and v.cls.lookup("__next__")[0] is not None:
            return it.call(it.getattr(v, "__next__"), [], {}, n)
    except Raise as r:
        if len(a) > 1 and it.subclass(it.class_of(r.value), StopIteration):
            return a[1]
        raise
    if isinstance(v, (AList, tuple, ADict, str, bytes)):
        it.throw(TypeError, "not an iterator", node=n)
    r = it.path.client.call_unknown(it.path, Ext("builtins.next"), a, k, n)
    if r is not NotImplemented:
        return r
    return Sym("next", v, it.path.fresh())


@bi("anext")
def _(it, a, k, n):
    if len(a) == 1:
        return it.call(it.getattr(a[0], "__anext__"), [], {}, n)

    def run():
        try:
            return it.await_(it.call(it.getattr(a[0], "__anext__"), [], {}, n), n)
        except Raise as r:
            if it.subclass(it.class_of(r.value), StopAsyncIteration):
                return a[1]
            raise

    return Coro(run, None)


@bi("enumerate")
def _(it, a, k, n):
    start = kw(a, k, 1, "start", 0)

    def go():
        i = 0
        for x in a[0].host if isinstance(a[0], Iter) else it.iterate(a[0], n):
            yield (it.binop("+", start, i) if i else start, x)
            i += 1

    return Iter(go(), a[0])


@bi("zip")
def _(it, a, k, n):
    return e_zip(it, a, k, n)


@bi("map")
def _(it, a, k, n):
    def go():
        if len(a) == 2:
            for x in it.iterate(a[1], n):
                yield it.call(a[0], [x], {}, n)
        else:
            for xs in e_zip(it, a[1:], {}, n).host:
                yield it.call(a[0], list(xs), {}, n)

    return Iter(go(), a[1])


@bi("filter")
def _(it, a, k, n):
    def go():
        for x in it.iterate(a[1], n):
            if it.truth(x if a[0] is None else it.call(a[0], [x], {}, n)):
                yield x

    return Iter(go(), a[1])


@bi("reversed")
def _(it, a, k, n):
    v = it.path.resolve(a[0])
    if isinstance(v, Sym):
        return Sym("reversed", v)
    return Iter(iter(it.items(v)[::-1]), v)


@bi("sorted")
def _(it, a, k, n):
    v = it.path.resolve(a[0])
    if isinstance(v, Sym):
        return Sym("sorted", v, it.freeze(k.get("key")), it.freeze(k.get("reverse", False)))
    xs = it.items(v)
    key = k.get("key")
    keys = [it.call(key, [x], {}, n) if key is not None else x for x in xs]
    if all(conc(x) for x in keys):
        try:
            order = sorted(range(len(xs)), key=lambda i: keys[i], reverse=k.get("reverse") is True)
            return AList([xs[i] for i in order])
        except TypeError as e:
            it.throw(TypeError, str(e), node=n)
    return AList(xs)


@bi("min")
def _(it, a, k, n):
    return minmax(it, "min", a, k, n)


@bi("max")
def _(it, a, k, n):
    return minmax(it, "max", a, k, n)


def minmax(it, op, a, k, n):
    if len(a) == 1:
        v = it.path.resolve(a[0])
        if isinstance(v, Sym):
            return Sym(op, v, it.freeze(k.get("default")))
        xs = it.items(v)
    else:
        xs = list(a)
    if not xs:
        if "default" in k:
            return k["default"]
        it.throw(ValueError, f"{op}() arg is an empty sequence", node=n)
    key = k.get("key")
    best = xs[0]
    for x in xs[1:]:
        p, q = (it.call(key, [best], {}, n), it.call(key, [x], {}, n)) if key is not None else (best, x)
        lt = it.compare("<", q, p) if op == "min" else it.compare("<", p, q)
        if it.truth(lt):
            best = x
    return best


@bi("sum")
def _(it, a, k, n):
    v = it.path.resolve(a[0])
    if isinstance(v, Sym):
        return Sym("sum", v, ty="int")
    acc = kw(a, k, 1, "start", 0)
    for x in it.iterate(v, n):
        acc = it.binop("+", acc, x)
    return acc


@bi("any")
def _(it, a, k, n):
    for x in it.iterate(a[0], n):
        if it.truth(x):
            return True
    return False


@bi("all")
def _(it, a, k, n):
    for x in it.iterate(a[0], n):
        if not it.truth(x):
            return False
    return True


@bi("abs")
def _(it, a, k, n):
    v = it.path.resolve(a[0])
    if isinstance(v, (int, float, datetime.timedelta, decimal.Decimal)):
        return abs(v)
    return Sym("abs", v, ty=v.ty if isinstance(v, Sym) else None)


@bi("divmod")
def _(it, a, k, n):
    return (it.binop("//", a[0], a[1]), it.binop("%", a[0], a[1]))


@bi("pow")
def _(it, a, k, n):
    return it.binop("**", a[0], a[1])


@bi("round")
def _(it, a, k, n):
    if conc(*a):
        return round(*a)
    return Sym("round", *a, ty="int" if len(a) == 1 else None)


@bi("print")
def _(it, a, k, n):
    return None


@bi("repr")
def _(it, a, k, n):
    return repr_(it, it.path.resolve(a[0]))


@bi("format")
def _(it, a, k, n):
    return format_(it, a[0], a[1] if len(a) > 1 else "")


@bi("hex")
def _(it, a, k, n):
    v = it.path.resolve(a[0])
    if isinstance(v, EnumV):
        v = v.value
    return hex(v) if isinstance(v, int) else Sym("hex", it.freeze(v), ty="str")


@bi("chr")
def _(it, a, k, n):
    v = it.path.resolve(a[0])
    return chr(v) if isinstance(v, int) else Sym("chr", v, ty="str")


@bi("ord")
def _(it, a, k, n):
    v = it.path.resolve(a[0])
    return ord(v) if isinstance(v, (str, bytes)) else Sym("ord", v, ty="int")


@bi("hash")
def _(it, a, k, n):
    return Sym("hash", it.freeze(a[0]), ty="int")


@bi("id")
def _(it, a, k, n):
    return Sym("id", it.freeze(a[0]), ty="int")


@bi("vars")
def _(it, a, k, n):
    return dict_of(a[0]) if a and isinstance(a[0], Obj) else Sym("vars", it.path.fresh())


def dict_of(o):
    """The attributes of an object, as the dictionary they're kept in"""
    d = ADict({}, Sym("attr", o, "__dict__") if o.open else None)
    d.d = o.attrs
    return d


def call_type(it, t, a, k, n):
    p = it.path
    v = p.resolve(a[0]) if a else None
    if issubclass(t, BaseException):
        o = Obj(t, {"args": tuple(a)})
        if t is asyncio.IncompleteReadError and len(a) == 2:
            o.attrs["partial"], o.attrs["expected"] = a
        return o
    if t is type and len(a) == 1:
        c = it.class_of(v)
        return c if c is not None else Sym("type", v)
    if t is int:
        if not a:
            return 0
        if isinstance(v, EnumV):
            return v.value
        if isinstance(v, (int, float)) and len(a) == 1:
            return int(v)
        if conc(*a, *k.values()):
            try:
                return int(*a, **k)
            except (ValueError, TypeError) as e:
                it.throw(type(e), str(e), node=n)
        if isinstance(v, Sym) and v.ty == "int" and len(a) == 1:
            return v
        if isinstance(v, Sym) and v.ty == "bool":
            return Sym("int", v, ty="int")
        r = p.client.call_unknown(p, t, a, k, n)
        if r is not NotImplemented:
            return r
        return Sym("int", it.freeze(v), *[it.freeze(x) for x in a[1:]], ty="int")
    if t is float:
        if conc(*a):
            try:
                return float(*a)
            except (ValueError, TypeError) as e:
                it.throw(type(e), str(e), node=n)
        return Sym("float", it.freeze(v), ty="float")
    if t is bool:
        if not a:
            return False
        if isinstance(v, Sym):
            w = it.norm_bool(v)
            if isinstance(w, bool):
                return w
            if w.ty == "bool":
                kn = p.known(w)
                return w if kn is None else kn
            kn = p.known(w)
            return Sym("bool", w, ty="bool") if kn is None else kn
        return it.truth(v)
    if t is str:
        if not a:
            return ""
        if len(a) > 1 or k:
            r = method(it, v, "decode")
            if r is not NotImplemented:
                kws = {q: x for q, x in (("encoding", kw(a, k, 1, "encoding", None)), ("errors", kw(a, k, 2, "errors", None))) if x is not None}
                return it.call(r, [], kws, n)
            return Sym("m", "decode", it.freeze(v), norm_codec(it.freeze(p.resolve(kw(a, k, 1, "encoding", "utf-8")))), it.freeze(kw(a, k, 2, "errors", "strict")), ty="str")
        return str_(it, v)
    if t in (bytes, bytearray):
        r = to_bytes(it, a, k, n)
        if t is bytearray:
            return ABuf([r] if not (isinstance(r, bytes) and not r) else [])
        return r
    if t is memoryview:
        return to_bytes(it, a, k, n)
    if t is list:
        if not a:
            return AList([])
        if isinstance(v, Sym):
            p.emit("materialise", src=v)
            r = p.client.call_unknown(p, t, a, k, n)
            if r is not NotImplemented:
                return r
        return AList(it.iterate(v, n))
    if t is tuple:
        return tuple(it.iterate(v, n)) if a else ()
    if t in (set, frozenset):
        if isinstance(v, Sym):
            return Sym("set", v)
        return ASet(it.iterate(v, n)) if a else ASet()
    if t is dict:
        d = ADict()
        if a:
            if isinstance(v, ADict):
                d = ADict(v.d, v.open)
            elif isinstance(v, Sym):
                d = ADict({}, v)
            else:
                for x in it.iterate(v, n):
                    kk, vv = it.items(x) if not isinstance(x, Sym) else (it.getitem(x, 0), it.getitem(x, 1))
                    it.setitem(d, kk, vv, n)
        star = k.get("**")
        if star is not None:
            d.open = star
        d.d.update({x: y for x, y in k.items() if x != "**"})
        return d
    if t is range:
        a = [x.value if isinstance(x, EnumV) else p.resolve(x) for x in a]
        if len(a) == 1:
            return RangeV(0, a[0])
        return RangeV(*a)
    if t is object:
        return Obj(object)
    if t is slice:
        return slice(*a) if len(a) > 1 else slice(None, a[0])
    if t is property:
        f = a[0]
        if isinstance(f, Func):
            f.kind = "property"
        return f
    if t in (classmethod, staticmethod):
        if isinstance(a[0], Func):
            a[0].kind = t.__name__
        return a[0]
    if t is collections.deque:
        return AList(it.iterate(v, n) if a else [])
    if t in (enumerate, zip, map, filter, reversed):
        return BUILTINS[t.__name__].fn(it, a, k, n)
    r = p.client.call_unknown(p, t, a, k, n)
    if r is not NotImplemented:
        return r
    if t.__module__ in ("datetime", "decimal") and p.client.host_values and conc(*a, *k.values()):
        try:
            return t(*a, **k)
        except (ValueError, TypeError, OverflowError, ArithmeticError) as e:
            it.throw(type(e), str(e), node=n)
    if t.__module__ in ("datetime", "decimal"):
        return Sym("call", f"datetime.{t.__name__}", *[it.freeze(x) for x in a], *[("=", q, it.freeze(x)) for q, x in sorted(k.items())], ty=t)
    return Sym("call", t.__name__, *[it.freeze(x) for x in a], *[("=", q, it.freeze(x)) for q, x in sorted(k.items())], ("#", p.fresh()))


def to_bytes(it, a, k, n):
    if not a:
        return b""
    v = it.path.resolve(a[0])
    if isinstance(v, EnumV):
        v = v.value
    if len(a) > 1 or k:
        return encode(it, v, kw(a, k, 1, "encoding", "utf-8"), kw(a, k, 2, "errors", "strict"))
    if isinstance(v, bytes):
        return v
    if isinstance(v, ABuf):
        return cat(*v.parts)
    if isinstance(v, bool) or isinstance(v, int):
        if v < 0:
            it.throw(ValueError, "negative count", node=n)
        if v > MAX_CONST:
            return Sym("zeros", v, ty="bytes")
        return bytes(v)
    if isinstance(v, Obj) and isinstance(v.cls, UClass):
        f, _ = v.cls.lookup("__bytes__")
        if f is not None:
            return it.call(Bound(f, v), [], {}, n)
    if isinstance(v, Sym):
        if v.ty == "bytes" or v.op in ("cat", "le"):
            return v
        if v.ty == "int":
            it.path.emit("alloc", size=v)
            return Sym("zeros", v, ty="bytes")
        return Sym("bytes", v, ty="bytes")
    if isinstance(v, str):
        it.throw(TypeError, "string argument without an encoding", node=n)
    xs = it.items(v)
    if all(isinstance(x, int) for x in xs):
        try:
            return bytes(xs)
        except ValueError as e:
            it.throw(ValueError, str(e), node=n)
    return from_byte_list(it, [it.freeze(x) for x in xs])


def byte_list(it, v, limit=4096):
    """The bytes of a byte string of known length"""
    if isinstance(v, ABuf):
        v = cat(*v.parts)
    if isinstance(v, bytes):
        return list(v)
    if not isinstance(v, Sym):
        return None
    if v.op == "cat":
        out = []
        for q in v.args:
            x = byte_list(it, q, limit)
            if x is None:
                return None
            out += x
        return out
    if v.op == "bytesof":
        return list(v.args[0])
    if v.op == "le" and not v.args[1]:
        n, _, x = v.args
        if n == 1:
            return [x]
    n = it.path.resolve(it.length(v))
    if not isinstance(n, int) or n > limit:
        return None
    if v.op == "slice" and len(v.args) == 3 and isinstance(v.args[1] or 0, int) and (v.args[1] or 0) >= 0:
        lo = v.args[1] or 0
        return [Sym("item", v.args[0], lo + i, ty="int") for i in range(n)]
    return [Sym("item", v, i, ty="int") for i in range(n)]


def from_byte_list(it, xs):
    """Byte string made of these bytes, in normal form"""
    out, i = [], 0
    n = len(xs)
    while i < n:
        x = xs[i]
        if isinstance(x, Sym) and x.op == "item" and isinstance(x.args[1], int) and x.args[1] >= 0 and isinstance(x.args[0], Sym) and x.args[0].ty == "bytes":
            base, lo = x.args
            j = i + 1
            while j < n and isinstance(xs[j], Sym) and xs[j].op == "item" and xs[j].args[0] is base and xs[j].args[1] == lo + j - i:
                j += 1
            out.append(it.getslice(base, slice(lo or None, lo + j - i)))
            i = j
        elif isinstance(x, int) and 0 <= x <= 255:
            out.append(bytes([x]))
            i += 1
        elif isinstance(x, Sym) and x.op in ("len", "+", "-", "atom", "unle") and x.ty == "int":
            it.path.emit("pack", size=1, signed=False, value=x)
            out.append(Sym("le", 1, False, x, ty="bytes"))
            i += 1
        else:
            j = i
            while j < n and isinstance(xs[j], Sym) and not (xs[j].op == "item" and isinstance(xs[j].args[0], Sym) and xs[j].args[0].ty == "bytes" and isinstance(xs[j].args[1], int)):
                j += 1
            j = max(j, i + 1)
            out.append(Sym("bytesof", tuple(xs[i:j]), ty="bytes"))
            i = j
    return cat(*out)


def number_bytes(it, x, n, order):
    """Little-endian bytes of a number that was made of byte strings; None: not known"""
    if isinstance(x, int) and not isinstance(x, bool):
        try:
            return list(x.to_bytes(n, "little"))
        except OverflowError:
            return None
    if isinstance(x, Sym) and x.op == "frombytes" and x.args[2] is False and x.args[1] in ("little", "big"):
        b = byte_list(it, x.args[0])
        if b is None:
            return None
        if x.args[1] == "big":
            b = b[::-1]
        if len(b) > n:
            return None
        return b + [0] * (n - len(b))
    if isinstance(x, Sym) and x.op in ("unle", "unbe") and x.args[1] is False:
        b = byte_list(it, x.args[2])
        if b is None or len(b) > n:
            return None
        return (b if x.op == "unle" else b[::-1]) + [0] * (n - len(b))
    if isinstance(x, Sym) and x.op in ("^", "|", "&"):
        a, b = number_bytes(it, x.args[0], n, order), number_bytes(it, x.args[1], n, order)
        if a is None or b is None:
            return None
        return [it.binop(x.op, p, q) for p, q in zip(a, b)]
    return None


def buf_extend(it, b, v):
    v = it.path.resolve(v)
    if isinstance(v, ABuf):
        v = cat(*v.parts)
    if not isinstance(v, (bytes, Sym)):
        v = to_bytes(it, [v], {}, None)
    if isinstance(v, bytes) and not v:
        return
    w = cat(*b.parts, v) if b.parts else v
    b.parts = list(w.args) if isinstance(w, Sym) and w.op == "cat" else [w]


# ----------------------------------------------------------------------------- methods

STR_RET = {
    "decode": "str", "lower": "str", "upper": "str", "strip": None, "lstrip": None, "rstrip": None, "replace": None, "title": "str", "capitalize": "str",
    "casefold": "str", "encode": "bytes", "hex": "str", "format": "str", "strftime": "str", "isoformat": "str", "zfill": None, "ljust": None, "rjust": None,
    "startswith": "bool", "endswith": "bool", "find": "int", "rfind": "int", "index": "int", "count": "int", "isdigit": "bool", "isalnum": "bool", "isspace": "bool",
    "digest": "bytes", "hexdigest": "str", "total_seconds": "float", "partition": None, "rpartition": None, "split": None, "rsplit": None, "splitlines": None, "join": None,
    "bit_length": "int", "to_bytes": "bytes", "translate": None, "removeprefix": None, "removesuffix": None, "isidentifier": "bool", "isalpha": "bool", "tobytes": "bytes",
}


def norm_codec(c):
    if isinstance(c, str):
        c = c.lower().replace("_", "-")
        return {"utf8": "utf-8", "u8": "utf-8"}.get(c, c)
    return c


def encode(it, v, codec, errors="strict"):
    if conc(v, codec, errors):
        try:
            return v.encode(codec, errors)
        except (UnicodeError, LookupError) as e:
            it.throw(type(e) if isinstance(e, LookupError) else ValueError, str(e))
    return Sym("m", "encode", it.freeze(v), norm_codec(it.freeze(codec)), it.freeze(errors), ty="bytes")


def find_byte(it, o, c, pos):
    """Where is a byte in a byte string of known structure?  None: unknown"""
    at = 0
    free = it.path.data.get("free", {})
    for q in o.args if isinstance(o, Sym) and o.op == "cat" else [o]:
        l = it.path.resolve(it.length(q))
        if not isinstance(l, int):
            return None
        if at + l > pos:
            if isinstance(q, bytes):
                i = q.find(c, max(pos - at, 0))
                if i >= 0:
                    return at + i
            else:
                base = q.args[0] if q.op == "slice" else q
                if not l:
                    pass
                elif c not in free.get(base, ()):
                    return None
        at += l
    return -1


def pure_method(it, o, name, a, k, n):
    p = it.path
    a = [x for x in a]
    r = p.client.pure(p, o, name, a, k, n)
    if r is not NotImplemented:
        return r
    if name == "to_bytes" and isinstance(o, Sym) and a:
        w, order = p.resolve(a[0]), kw(a, k, 1, "byteorder", "big")
        if isinstance(w, int) and order in ("little", "big") and not k.get("signed"):
            xs = number_bytes(it, o, w, order)
            if xs is not None:
                return from_byte_list(it, xs if order == "little" else xs[::-1])
        signed = p.resolve(k.get("signed", False))
        if isinstance(w, int) and w in (1, 2, 3, 4, 6, 8) and (order == "little" or w == 1) and isinstance(signed, bool) and o.ty == "int":
            p.emit("pack", size=w, signed=signed, value=o)
            return Sym("le", w, signed, o, ty="bytes")
    if name in ("find", "index") and a and isinstance(o, (Sym, ABuf)) and len(a) <= 2 and isinstance(a[0], bytes) and len(a[0]) == 1:
        v = cat(*o.parts) if isinstance(o, ABuf) else o
        at = p.resolve(a[1]) if len(a) > 1 else 0
        if isinstance(at, int) and at >= 0 and isinstance(v, (Sym, bytes)):
            i = find_byte(it, v, a[0], at)
            if i is not None:
                if i < 0 and name == "index":
                    it.throw(ValueError, "subsection not found", node=n)
                return i
    if name in ("encode", "decode"):
        codec = kw(a, k, 0, "encoding", "utf-8")
        errors = kw(a, k, 1, "errors", "strict")
        if name == "encode":
            return encode(it, o, p.resolve(codec), p.resolve(errors))
        codec, errors = p.resolve(codec), p.resolve(errors)
        if isinstance(o, ABuf):
            o = cat(*o.parts)
        if conc(o, codec, errors):
            try:
                return o.decode(codec, errors)
            except (UnicodeError, LookupError) as e:
                it.throw(LookupError if isinstance(e, LookupError) else UnicodeDecodeError, str(e), node=n)
        return Sym("m", "decode", it.freeze(o), norm_codec(it.freeze(codec)), it.freeze(errors), ty="str")
    if name == "join":
        xs = p.resolve(a[0])
        if isinstance(xs, Sym) and xs.op != "cat":
            return Sym("m", "join", o, xs, ty="str" if isinstance(o, str) or isinstance(o, Sym) and o.ty == "str" else "bytes")
        out = []
        items = it.items(xs)
        for i, x in enumerate(items):
            if i and not (isinstance(o, (str, bytes)) and not o):
                out.append(o)
            x = p.resolve(x)
            if isinstance(x, ABuf):
                x = cat(*x.parts)
            if x is None or isinstance(x, int) or isinstance(o, bytes) and isinstance(x, str) or isinstance(o, str) and isinstance(x, bytes):
                it.throw(TypeError, f"sequence item {i}: wrong type", node=n)
            out.append(x)
        if not out:
            return "" if isinstance(o, str) else b""
        if isinstance(o, str) and not any(isinstance(x, str) for x in out):
            return cat("", *out) if len(out) > 1 else out[0]
        return cat(*out)
    if name == "format" and isinstance(o, str):
        try:
            out, i = [], 0
            for lit, fld, spec, conv in string.Formatter().parse(o):
                out.append(lit)
                if fld is not None:
                    if "{" in (spec or "") or not re.fullmatch(r"\w*", fld):
                        raise LookupError
                    if fld == "":
                        fld, i = str(i), i + 1
                    v = p.resolve(a[int(fld)] if fld.isdigit() else k[fld])
                    v = repr_(it, v) if conv == "r" else str_(it, v) if conv == "s" else v
                    out.append(format_(it, v, spec or ""))
            return cat(*out) if any(x != "" for x in out) else ""
        except (LookupError, ValueError):
            pass
        return Sym("fmt", o, *[it.freeze(x) for x in a], *[("=", q, it.freeze(x)) for q, x in sorted(k.items())], ty="str")
    if name == "translate" and isinstance(o, Sym) and o.ty == "str" and len(a) == 1 and isinstance(p.resolve(a[0]), ADict):
        rs = replacements(host(p.resolve(a[0])))
        if rs is not None:
            for x, y in rs:
                o = pure_method(it, o, "replace", [x, y], {}, n)
            return o
    args = [it.freeze(p.resolve(x)) for x in a]
    hosts = args
    if any(isinstance(p.resolve(x), (AList, ADict, ASet, ABuf)) for x in a):
        # (their frozen form isn't what the method is given)
        hosts = [host(p.resolve(x)) for x in a]
    if conc(o, *[x if not isinstance(x, (list, dict, set, bytearray)) else None for x in hosts], *k.values()) and not (name in ("ljust", "rjust", "zfill", "center") and args and isinstance(args[0], int) and args[0] > MAX_CONST):
        f = getattr(o, name, None)
        if f is None:
            it.throw(AttributeError, name, node=n)
        try:
            r = f(*hosts, **k)
        except Exception as e:  # pylint: disable=broad-except
            it.throw(type(e), str(e), node=n)
        return from_host(r)
    ty = STR_RET.get(name)
    base = "str" if isinstance(o, str) else "bytes" if isinstance(o, (bytes, ABuf)) else o.ty if isinstance(o, Sym) else None
    if name in STR_RET and ty is None and name not in ("partition", "rpartition", "split", "rsplit", "splitlines"):
        ty = base if base in ("str", "bytes") else None
    if name == "startswith" and isinstance(o, Sym) and o.op == "cat" and isinstance(args[0], (str, bytes)) and isinstance(o.args[0], type(args[0])) and len(o.args[0]) >= len(args[0]):
        return o.args[0].startswith(args[0])
    s = Sym("m", name, it.freeze(o), *args, *[("=", q, it.freeze(x)) for q, x in sorted(k.items())], ty=ty)
    if name == "digest":
        pass
    if name in ("find", "rfind"):
        lo, hi = p.interval(s)
        if lo < -1:
            p.set_interval(s, -1, float("inf"))
    return s


def replacements(table):
    """str.translate() as a sequence of replace(), if there's one"""
    if not isinstance(table, dict):
        return None
    todo = {}
    for k, v in table.items():
        if not isinstance(k, int) or not (v is None or isinstance(v, (int, str))):
            return None
        todo[chr(k)] = "" if v is None else chr(v) if isinstance(v, int) else v
    out = []
    while todo:
        # what's put in must not be replaced later
        x = next((x for x, y in todo.items() if not any(z in y for z in todo if z != x)
                  and not any(x in y for y in (r for _, r in out))), None)
        if x is None:
            return None
        out.append((x, todo.pop(x)))
    return out


def host(v):
    """A value of the analyser's own, if all of it is known"""
    if isinstance(v, AList):
        xs = [host(x) for x in v.items]
        return v if any(isinstance(x, AV) for x in xs) else xs
    if isinstance(v, ADict):
        if v.open is not None:
            return v
        d = {k: host(x) for k, x in v.d.items()}
        return v if any(isinstance(x, AV) for x in list(d) + list(d.values())) else d
    if isinstance(v, ASet):
        return v if any(isinstance(x, AV) for x in v.items) else set(v.items)
    if isinstance(v, ABuf):
        return bytearray(b"".join(v.parts)) if all(isinstance(x, bytes) for x in v.parts) else v
    if isinstance(v, tuple):
        xs = tuple(host(x) for x in v)
        return v if any(isinstance(x, AV) for x in xs) else xs
    return v


def from_host(r):
    if isinstance(r, list):
        return AList([from_host(x) for x in r])
    if isinstance(r, tuple):
        return tuple(from_host(x) for x in r)
    if isinstance(r, dict):
        return ADict({q: from_host(x) for q, x in r.items()})
    if isinstance(r, bytearray):
        return ABuf([bytes(r)])
    if isinstance(r, (set, frozenset)):
        return ASet([from_host(x) for x in r])
    return r


def method(it, o, name):
    """Bound method of a builtin value"""
    if isinstance(o, ABuf):
        fn = ABUF.get(name)
        if fn is None and hasattr(bytearray, name):
            return P(lambda it, a, k, n: pure_method(it, cat(*o.parts), name, a, k, n), name)
    elif isinstance(o, AList):
        fn = ALIST.get(name)
    elif isinstance(o, ADict):
        fn = ADICT.get(name)
    elif isinstance(o, ASet):
        fn = ASET.get(name)
    elif isinstance(o, Gen):
        fn = GEN.get(name) if name not in (SYNC_ONLY if o.is_async else ASYNC_ONLY) else None
    elif isinstance(o, Iter):
        fn = ITER.get(name) if name not in (SYNC_ONLY if o.is_async else ASYNC_ONLY) else None
    elif isinstance(o, Task):
        fn = TASK.get(name)
    elif isinstance(o, Coro):
        fn = {"close": lambda it, o, a, k, n: None}.get(name)
    elif isinstance(o, RangeV):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        fn = None
    elif isinstance(o, Prim):
        x = getattr(o, "attrs", {}).get(name)
        if x is not None:
            return x
        if name == "__name__":
            return o.name
        fn = None
    elif isinstance(o, (str, bytes, int, float, tuple, *HOST_VALUES)) and hasattr(type(o), name):
        x = getattr(type(o), name)
        if not callable(x):
            return getattr(o, name)
        return P(lambda it, a, k, n: pure_method(it, o, name, a, k, n) if not isinstance(o, tuple) else tuple_method(it, o, name, a, k, n), name)
    else:
        return NotImplemented
    if fn is None:
        if name in ("__class__",):
            return it.class_of(o)
        return NotImplemented
    return P(lambda it, a, k, n: fn(it, o, a, k, n), name)


def tuple_method(it, o, name, a, k, n):
    if name == "index":
        for i, x in enumerate(o):
            if it.truth(it.eq(x, a[0])):
                return i
        it.throw(ValueError, "not in tuple", node=n)
    if name == "count":
        return sum(1 for x in o if it.truth(it.eq(x, a[0])))
    raise Undecided("tuple." + name)


def mut(fn):
    def f(it, o, a, k, n):
        it.path.mutate(o, n, fn.__name__)
        return fn(it, o, a, k, n)

    return f


def l_append(it, o, a, k, n):
    o.items.append(a[0])


def l_extend(it, o, a, k, n):
    o.items.extend(it.iterate(a[0], n))


def l_pop(it, o, a, k, n):
    i = it.path.resolve(a[0]) if a else -1
    if not isinstance(i, int):
        raise Undecided("list.pop")
    try:
        return o.items.pop(i)
    except IndexError:
        it.throw(IndexError, "pop from empty list", node=n)


def l_insert(it, o, a, k, n):
    i = it.path.resolve(a[0])
    if not isinstance(i, int):
        raise Undecided("list.insert")
    o.items.insert(i, a[1])


def l_remove(it, o, a, k, n):
    for i, x in enumerate(o.items):
        if it.truth(it.eq(x, a[0])):
            del o.items[i]
            return
    it.throw(ValueError, "list.remove(x): x not in list", node=n)


def l_index(it, o, a, k, n):
    for i, x in enumerate(o.items):
        if it.truth(it.eq(x, a[0])):
            return i
    it.throw(ValueError, "not in list", node=n)


def l_sort(it, o, a, k, n):
    o.items = BUILTINS["sorted"].fn(it, [AList(o.items)], k, n).items


def l_clear(it, o, a, k, n):
    o.items.clear()


ALIST = {
    "append": mut(l_append),
    "extend": mut(l_extend),
    "pop": mut(l_pop),
    "popleft": mut(lambda it, o, a, k, n: l_pop(it, o, [0], k, n)),
    "appendleft": mut(lambda it, o, a, k, n: o.items.insert(0, a[0])),
    "insert": mut(l_insert),
    "remove": mut(l_remove),
    "index": l_index,
    "sort": mut(l_sort),
    "reverse": mut(lambda it, o, a, k, n: o.items.reverse()),
    "copy": lambda it, o, a, k, n: AList(o.items),
    "clear": mut(l_clear),
    "count": lambda it, o, a, k, n: sum(1 for x in o.items if it.truth(it.eq(x, a[0]))),
    "__len__": lambda it, o, a, k, n: len(o.items),
    "__getitem__": lambda it, o, a, k, n: it.getitem(o, a[0], n),
    "__iter__": lambda it, o, a, k, n: Iter(it.iterate(o), o),
}


def d_get(it, o, a, k, n):
    return it.dict_get(o, a[0], kw(a, k, 1, "default", None), n)


def d_pop(it, o, a, k, n):
    miss = object()
    v = it.dict_get(o, a[0], miss, n)
    if v is miss:
        if len(a) > 1:
            return a[1]
        it.throw(KeyError, a[0], node=n)
    key = it.freeze(it.path.resolve(a[0]))
    it.path.mutate(o, n, "pop")
    if key in o.d:
        del o.d[key]
    else:
        for k2 in list(o.d):
            if it.eq(key, k2) is True:
                del o.d[k2]
    it.path.emit("dict_pop", obj=o, key=key)
    return v


def d_setdefault(it, o, a, k, n):
    miss = object()
    v = it.dict_get(o, a[0], miss, n)
    if v is miss:
        v = a[1] if len(a) > 1 else None
        it.setitem(o, a[0], v, n)
    return v


def d_update(it, o, a, k, n):
    it.path.mutate(o, n, "update")
    if a:
        v = it.path.resolve(a[0])
        if isinstance(v, ADict):
            o.d.update(v.d)
            o.open = o.open or v.open
        elif isinstance(v, Sym):
            o.open = o.open or v
        else:
            for x in it.iterate(v, n):
                kk, vv = it.items(x)
                it.setitem(o, kk, vv, n)
    for q, x in k.items():
        if q == "**":
            o.open = o.open or x
        else:
            o.d[q] = x


def d_items(it, o, a, k, n):
    if o.open is not None:
        def go():
            yield from list(o.d.items())
            src = Sym("keys", o.open)
            i = 0
            while it.more(src, i):
                e = Sym("elem", src, i)
                yield (e, Sym("item", o.open, e))
                i += 1
        return Iter(go(), o)
    return AList([(q, x) for q, x in o.d.items()])


def d_values(it, o, a, k, n):
    if o.open is not None:
        return Iter((x[1] for x in d_items(it, o, a, k, n).host), o)
    return AList(o.d.values())


def d_popitem(it, o, a, k, n):
    if not o.d:
        it.throw(KeyError, "dictionary is empty", node=n)
    return o.d.popitem()


def d_clear(it, o, a, k, n):
    o.d.clear()
    o.open = None


ADICT = {
    "get": d_get,
    "pop": d_pop,
    "setdefault": d_setdefault,
    "update": d_update,
    "items": d_items,
    "keys": lambda it, o, a, k, n: AList(list(o.d)) if o.open is None else Iter(it.iterate(o), o),
    "values": d_values,
    "copy": lambda it, o, a, k, n: ADict(o.d, o.open),
    "clear": mut(d_clear),
    "popitem": mut(d_popitem),
    "__getitem__": lambda it, o, a, k, n: it.getitem(o, a[0], n),
    "__contains__": lambda it, o, a, k, n: it.contains(o, a[0]),
    "__iter__": lambda it, o, a, k, n: Iter(it.iterate(o), o),
    "__len__": lambda it, o, a, k, n: it.length(o),
}


def s_add(it, o, a, k, n):
    if a[0] not in o.items:
        o.items.append(a[0])


def s_discard(it, o, a, k, n):
    o.items = [x for x in o.items if x != a[0]]


def s_update(it, o, a, k, n):
    for v in a:
        for x in it.iterate(v, n):
            if x not in o.items:
                o.items.append(x)


def s_pop(it, o, a, k, n):
    if not o.items:
        it.throw(KeyError, "pop from an empty set", node=n)
    return o.items.pop()


ASET = {
    "add": mut(s_add),
    "discard": mut(s_discard),
    "remove": mut(s_discard),
    "update": mut(s_update),
    "pop": mut(s_pop),
    "clear": mut(l_clear),
    "copy": lambda it, o, a, k, n: ASet(o.items),
    "union": lambda it, o, a, k, n: ASet(o.items + [x for v in a for x in it.items(v)]),
    "difference": lambda it, o, a, k, n: ASet([x for x in o.items if not any(x in it.items(v) for v in a)]),
    "intersection": lambda it, o, a, k, n: ASet([x for x in o.items if all(x in it.items(v) for v in a)]),
    "issubset": lambda it, o, a, k, n: all(it.truth(it.contains(a[0], x)) for x in o.items),
    "issuperset": lambda it, o, a, k, n: all(it.truth(it.contains(o, x)) for x in it.items(a[0])),
    "__contains__": lambda it, o, a, k, n: it.contains(o, a[0]),
}


def b_clear(it, o, a, k, n):
    o.parts = []


ABUF = {
    "extend": mut(lambda it, o, a, k, n: buf_extend(it, o, a[0])),
    "append": mut(lambda it, o, a, k, n: buf_extend(it, o, bytes([a[0]]) if isinstance(a[0], int) else Sym("le", 1, False, a[0], ty="bytes"))),
    "clear": mut(b_clear),
    "copy": lambda it, o, a, k, n: ABuf(o.parts),
    "__len__": lambda it, o, a, k, n: it.length(o),
}


def g_anext(it, o, a, k, n):
    if o.is_async:
        return Coro(lambda: it.gen_next(o, a[0] if a else None), o.func)
    return it.gen_next(o, a[0] if a else None)


def g_close(it, o, a, k, n):
    def run():
        if o.started and not o.done:
            r = Raise(Obj(GeneratorExit, {"args": ()}))
            try:
                it.resume(o, None, exc=r)
            except StopIteration:
                pass
            except Raise as e:
                if not it.subclass(it.class_of(e.value), GeneratorExit):
                    raise
        o.done = True

    return Coro(run, o.func) if o.is_async else run()


def g_throw(it, o, a, k, n):
    v = a[0]
    if isinstance(v, (UClass, type)):
        v = it.call(v, [], {}, n)
    run = lambda: it.gen_next(o, None, exc=Raise(v, n))
    return Coro(run, o.func) if o.is_async else run()


GEN = {
    "__anext__": g_anext,
    "asend": g_anext,
    "send": g_anext,
    "__next__": g_anext,
    "aclose": g_close,
    "close": g_close,
    "athrow": g_throw,
    "throw": g_throw,
    "__aiter__": lambda it, o, a, k, n: o,
    "__iter__": lambda it, o, a, k, n: o,
}


def i_next(it, o, a, k, n):
    def run():
        try:
            return next(o.host)
        except StopIteration:
            it.throw(StopAsyncIteration if o.is_async else StopIteration, node=n)

    return Coro(run, None) if o.is_async else run()


SYNC_ONLY = {"__iter__", "__next__", "send", "close", "throw"}
ASYNC_ONLY = {"__aiter__", "__anext__", "asend", "aclose", "athrow"}

ITER = {
    "__next__": i_next,
    "__anext__": i_next,
    "__iter__": lambda it, o, a, k, n: o,
    "__aiter__": lambda it, o, a, k, n: o,
    "aclose": lambda it, o, a, k, n: Coro(lambda: None, None),
}


def t_cancel(it, o, a, k, n):
    it.path.emit("cancel", task=o)
    if o.done:
        return False
    o.cancelling += 1
    o.cancel_pending = 1
    return True


def t_uncancel(it, o, a, k, n):
    it.path.emit("uncancel", task=o)
    o.cancelling = max(0, o.cancelling - 1)
    if o.cancelling == 0:
        # python >= 3.13 also clears a cancellation that hasn't been delivered yet
        pass
    return o.cancelling


TASK = {
    "cancel": t_cancel,
    "uncancel": t_uncancel,
    "cancelling": lambda it, o, a, k, n: o.cancelling,
    "done": lambda it, o, a, k, n: bool(o.done),
    "cancelled": lambda it, o, a, k, n: isinstance(o.done, Raise),
    "add_done_callback": lambda it, o, a, k, n: None,
    "get_name": lambda it, o, a, k, n: "task",
    "set_name": lambda it, o, a, k, n: None,
}


DATE_FIELDS = dict(year=(1, 9999), month=(1, 12), day=(1, 31), hour=(0, 23), minute=(0, 59), second=(0, 59), microsecond=(0, 999999))


def sym_attr(it, o, name, ty):
    # methods of a typed term are looked up when they're called
    t = ty
    if isinstance(o.ty, type) and o.ty.__module__ == "datetime":
        if name in ("year", "month", "day", "hour", "minute", "second", "microsecond", "days", "seconds", "microseconds"):
            t = "int"
            if it.path.client.host_values and o.ty in (datetime.datetime, datetime.date) and name in DATE_FIELDS:
                s = Sym("attr", o, name, ty=t)
                if it.path.interval(s) == (float("-inf"), float("inf")):
                    it.path.set_interval(s, *DATE_FIELDS[name])
                return s
    return Sym("attr", o, name, ty=t)


def call_method(it, o, name, a, k, n):
    """Method of a term"""
    r = it.path.client.call_unknown(it.path, Sym("attr", o, name), a, k, n)
    if r is not NotImplemented:
        return r
    if isinstance(o, Sym):
        if o.op == "re":
            r = regex_method(it, *o.args, name, a, k, n)
            if r is not NotImplemented:
                return r
        if o.op == "re" or o.op == "call" and isinstance(o.args[0], str) and o.args[0].startswith("hashlib."):
            return pure_method(it, o, name, a, k, n)
        if o.ty in ("str", "bytes", "int", "float") or isinstance(o.ty, type):
            return pure_method(it, o, name, a, k, n)
        if o.op == "m" and isinstance(o.args[0], str):
            return pure_method(it, o, name, a, k, n)
        if o.ty is None and name in ("decode", "encode", "lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "strftime", "total_seconds", "isoformat"):
            return pure_method(it, o, name, a, k, n)
        if name in ("get",) and o.op in ("item", "attr", "atom", "elem") and len(a) in (1, 2):
            return NotImplemented
    return NotImplemented


def type_attr(it, t, name):
    if name == "__name__":
        return t.__name__
    if t is int and name == "from_bytes":
        def f(it, a, k, n):
            v = it.path.resolve(a[0])
            if isinstance(v, ABuf):
                v = it.path.resolve(cat(*v.parts))
            order = kw(a, k, 1, "byteorder", "big")
            if conc(v, order):
                return int.from_bytes(v, order, signed=bool(k.get("signed", False)))
            v, signed = it.freeze(v), it.path.resolve(k.get("signed", False))
            w = it.path.resolve(it.length(v)) if isinstance(v, Sym) else None
            if isinstance(w, int) and w > 0 and isinstance(signed, bool) and order in ("little", "big"):
                return unle(w, signed, v, order == "little" or w == 1)
            return Sym("frombytes", v, order, it.freeze(signed), ty="int")
        return P(f)
    if t is bytes and name == "fromhex":
        def f(it, a, k, n):
            v = it.path.resolve(a[0])
            if conc(v):
                try:
                    return bytes.fromhex(v)
                except ValueError as e:
                    it.throw(ValueError, str(e), node=n)
            r = it.path.client.call_unknown(it.path, Ext("builtins.bytes.fromhex"), a, k, n)
            if r is not NotImplemented:
                return r
            return Sym("fromhex", it.freeze(v), ty="bytes")
        return P(f)
    if t in (str, bytes) and name == "maketrans":
        def f(it, a, k, n):
            hosts = [host(it.path.resolve(x)) for x in a]
            if any(isinstance(x, AV) for x in hosts):
                return Sym("maketrans", *[it.freeze(x) for x in a])
            try:
                return from_host(t.maketrans(*hosts))
            except Exception as e:  # pylint: disable=broad-except
                it.throw(type(e), str(e), node=n)
        return P(f)
    if t is dict and name == "fromkeys":
        return P(lambda it, a, k, n: ADict({it.freeze(x): (a[1] if len(a) > 1 else None) for x in it.iterate(a[0])}))
    if t.__module__ == "datetime" and it.path.client.host_values and name not in ("now", "utcnow", "today", "fromtimestamp"):
        x = getattr(t, name, None)
        if x is not None and not callable(x):
            return x
        if name == "__name__":
            return t.__name__
    if t.__module__ == "datetime" or t is asyncio.IncompleteReadError:
        return Ext(f"{t.__module__}.{t.__name__}.{name}")
    if hasattr(t, name) and callable(getattr(t, name)):
        # unbound method
        return P(lambda it, a, k, n: it.call(it.getattr(a[0], name), a[1:], k, n), f"{t.__name__}.{name}")
    return Ext(f"{t.__module__}.{t.__name__}.{name}")
