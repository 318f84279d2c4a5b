"""sqlglot, as far as the analysis needs it.

Expression classes and scopes are interpreted from the library's source.  Its parser, generator and
executor aren't: texts are looked up in a corpus of syntax trees (data/corpus.json)."""
from __future__ import annotations

import ast
import glob
import json
import os
import re
import sys

from .engine import Client, Frame, Path
from .values import *

HERE = os.path.dirname(os.path.abspath(__file__))
MODULES = ("errors", "helper", "expressions", "optimizer.scope", "executor.table", "executor.env")
_dir = None


def directory():
    global _dir
    if _dir is None:
        cands = sorted(glob.glob("/opt/venv/lib/python3*/site-packages/sqlglot")) + [os.path.join(p, "sqlglot") for p in sys.path if p]
        cands += sorted(glob.glob("/usr/lib/python3*/*-packages/sqlglot") + glob.glob("/usr/local/lib/python3*/*-packages/sqlglot"))
        _dir = next((d for d in cands if os.path.exists(d + "/expressions.py")), "")
    return _dir


def install(program):
    """Load the library's modules.  Statements of them that can't be interpreted are left out"""
    from . import models

    models.LIBS.clear()
    d = directory()
    if not d:
        raise Undecided("sqlglot isn't installed")
    for name in MODULES:
        f = os.path.join(d, name.replace(".", "/") + ".py")
        if not os.path.exists(f):
            continue
        with open(f, encoding="utf-8") as fh:
            tree = ast.parse(fh.read())
        m = Mod("sqlglot." + name)
        m.ns["__name__"] = m.name
        m.file = "sqlglot/" + name.replace(".", "/") + ".py"
        fr = Frame(m, None, None)
        fr.locals = m.ns
        fr.is_module = True
        prev = program.path
        path = Path(program, Client())
        path.loading = True
        program.path = path
        for st in tree.body:
            if isinstance(st, ast.If):
                continue
            try:
                for _ in program.interp.exec_block([st], fr):
                    pass
            except (Raise, Undecided, Cut, AttributeError, TypeError, KeyError, ValueError) as e:
                if os.environ.get("SA_DEBUG_LIB") in (name, "all"):
                    print(name, st.lineno, type(e).__name__, getattr(e, "value", e))
                if isinstance(st, ast.Assign) and isinstance(st.value, ast.Dict) and isinstance(st.targets[0], ast.Name):
                    m.ns[st.targets[0].id] = parts_of_dict(program, st.value, fr)
                continue
        program.path = prev
        m.loaded = True
        models.LIBS["sqlglot." + name] = m
        if name == "expressions":
            models.LIBS["sqlglot.exp"] = m
            for c in m.ns.values():
                if isinstance(c, UClass) and c.qual.startswith("sqlglot."):
                    c.ns.setdefault("key", c.name.lower())
                    c.ns["key"] = c.name.lower()
    x = Mod("sqlglot.executor")
    x.ns.update(__name__=x.name, execute=Ext("sqlglot.executor.execute"))
    for name in ("table", "env"):
        m = models.LIBS.get("sqlglot.executor." + name)
        if m is not None:
            x.ns[name] = m
            if name == "env" and isinstance(m.ns.get("ENV"), ADict):
                # as it was before the program changed it
                m.own = dict(m.ns["ENV"].d)
            if name == "table" and "Table" in m.ns:
                x.ns["Table"] = m.ns["Table"]
    x.loaded = True
    models.LIBS[x.name] = x
    return models.LIBS


def parts_of_dict(program, node, fr):
    """A dictionary, as far as its values are known"""
    out = ADict()
    for k, v in zip(node.keys, node.values):
        try:
            out.d[program.interp.ev(k, fr)] = program.interp.ev(v, fr)
        except (Raise, Undecided, Cut, AttributeError, TypeError, KeyError, ValueError):
            continue
    return out


class Corpus:
    def __init__(self):
        self.texts = {}
        self.load("corpus.json")

    def load(self, name):
        with open(os.path.join(HERE, "data", name), encoding="utf-8") as f:
            self.texts.update(json.load(f))

    def kinds(self, *ks):
        return [t for t, d in self.texts.items() if d["kind"] in ks]

    def kind(self, t):
        return self.texts[t]["kind"]


class Sqlg:
    """Mixin of clients.  `self.corpus`, `self.p`, `self.it`"""

    max_depth = 250
    max_loop = 3000
    max_steps = 3_000_000

    def init_sqlglot(self, program):
        from . import models

        self.corpus = Corpus()
        self.exp = models.LIBS["sqlglot.expressions"]
        self.node_cls = self.exp.ns["Expression"]

    # -- trees

    def cls(self, name):
        c = self.exp.ns.get(name)
        if not isinstance(c, UClass):
            raise Undecided(f"sqlglot has no {name}")
        return c

    def mk(self, name, **args):
        """A node"""
        o = Obj(self.cls(name), {}, None)
        o.attrs.update(args=ADict(args), parent=None, arg_key=None, index=None, comments=None, _type=None, _meta=None, _hash=None)
        for k, v in args.items():
            self.adopt(o, k, v)
        return o

    def adopt(self, o, k, v):
        if self.is_node(v):
            v.attrs.update(parent=o, arg_key=k, index=None)
        elif isinstance(v, AList):
            for i, x in enumerate(v.items):
                if self.is_node(x):
                    x.attrs.update(parent=o, arg_key=k, index=i)

    def is_node(self, v, *names):
        if not (isinstance(v, Obj) and isinstance(v.cls, UClass) and self.node_cls in v.cls.mro()):
            return False
        return not names or any(self.cls(n) in v.cls.mro() for n in names)

    def build(self, d):
        if isinstance(d, dict):
            if "e" in d:
                v = self.exp.ns
                c = None
                for part in d["e"].split("."):
                    c = v.get(part)
                    v = c.ns if isinstance(c, UClass) else {}
                if not isinstance(c, UClass) or c.enum_members is None:
                    raise Undecided("enum " + d["e"])
                return c.enum_members[d["n"]]
            o = self.mk(d["c"], **{k: self.build(v) for k, v in d["a"].items()})
            if d.get("m"):
                o.attrs["comments"] = AList(d["m"])
            return o
        if isinstance(d, list):
            return AList([self.build(x) for x in d])
        return d

    def copy_tree(self, v):
        if self.is_node(v):
            o = self.mk_like(v, {k: self.copy_tree(x) for k, x in v.attrs["args"].d.items()})
            return o
        if isinstance(v, AList):
            return AList([self.copy_tree(x) for x in v.items])
        return v

    def mk_like(self, v, args):
        o = Obj(v.cls, {}, v.label)
        o.attrs.update(args=ADict(args), parent=None, arg_key=None, index=None, comments=v.attrs.get("comments"), _type=None, _meta=None, _hash=None)
        o.attrs["__src__"] = v.attrs.get("__src__")
        for k, x in args.items():
            self.adopt(o, k, x)
        return o

    def shape(self, v):
        """Structure of a tree, comparable by the host"""
        if self.is_node(v):
            a = []
            for k, x in v.attrs["args"].d.items():
                if x is None or x is False or isinstance(x, AList) and not x.items:
                    continue
                a.append((k, self.shape(x)))
            return (v.cls.name, tuple(sorted(a, key=lambda t: t[0])))
        if isinstance(v, AList):
            return ("list", tuple(self.shape(x) for x in v.items))
        if isinstance(v, str):
            return ("str", v.lower())
        return ("v", v if not isinstance(v, AV) else self.it.freeze(v))

    def render(self, v, quote='"'):
        """SQL of a node; exact for names, numbers and strings, made up for anything else"""
        r = lambda x: self.render(x, quote)
        if not self.is_node(v):
            return v if isinstance(v, (str, Sym)) else str(v)
        a = v.attrs["args"].d
        n = v.cls.name
        t = a.get("this")
        if n == "Identifier":
            return quote + t.replace(quote, quote * 2) + quote if a.get("quoted") and isinstance(t, str) else t
        if n == "Literal":
            return "'" + str(t).replace("'", "''") + "'" if a.get("is_string") else t
        if n in ("Column", "Table"):
            ps = [a.get(k) for k in ("catalog", "db", "table", "this")]
            out = [r(p) for p in ps if p is not None and p != ""]
            if all(isinstance(x, str) for x in out):
                s = ".".join(out)
                return s + (" AS " + str(r(a["alias"])) if a.get("alias") is not None else "")
        if n == "Var" or n == "TableAlias" and isinstance(t, Obj):
            return r(t)
        if n == "Star":
            return "*"
        if n == "Null":
            return "NULL"
        if n == "Boolean":
            return "TRUE" if t else "FALSE"
        if n == "SessionParameter":
            k = a.get("kind")
            return f"@@{k + '.' if k else ''}{r(t)}"
        if n == "Alias":
            return f"{r(t)} AS {r(a.get('alias'))}"
        kids = []
        for k, x in a.items():
            if k == "this" and n == "Anonymous" or x is None or x is False:
                continue
            kids.extend(str(r(y)) for y in (x.items if isinstance(x, AList) else [x]))
        nm = str(t) if n == "Anonymous" else re.sub("(?<=[a-z])(?=[A-Z])", "_", n).upper()
        return f"{nm}({', '.join(kids)})"

    # -- parsing

    def parse(self, path, text, node=None):
        """Trees of a text: of texts of the corpus, separated by semicolons"""
        if not isinstance(text, str):
            raise Undecided("a text that isn't known is parsed")
        out = []
        c = self.corpus.texts
        if text in c:
            pieces = [text]
        else:
            pieces = text.split(";")
            if len(pieces) > 1 and not pieces[-1].strip():
                pieces.pop()
        for x in pieces:
            x = x if x in c else x.strip()
            if not x:
                out.append(None)
                continue
            if x not in c:
                raise Undecided(f"{x!r} isn't in the corpus")
            for d in c[x]["parse"]:
                o = self.build(d)
                if isinstance(o, Obj):
                    o.label = f"tree of {x!r}"
                    o.attrs["__src__"] = x
                out.append(o)
        path.emit("parsed_sql", text=text, trees=list(out))
        path.data.setdefault("parsed_sql", []).append(text)
        return AList(out)

    def mini_parse(self, text, into=None):
        """Names, with an alias"""
        m = re.fullmatch(r'\s*((?:[\w$]+|"[^"]+")(?:\.(?:[\w$]+|"[^"]+"))*)(?:\s+AS\s+([\w$]+|"[^"]+"))?\s*', text, re.I)
        if not m:
            return None
        ident = lambda s: self.mk("Identifier", this=s.strip('"'), quoted=s.startswith('"'))
        ps = [ident(s) for s in re.findall(r'[\w$]+|"[^"]+"', m.group(1))]
        al = ident(m.group(2)) if m.group(2) else None
        if into in ("From", "Table", "Join"):
            keys = ("this", "db", "catalog")
            t = self.mk("Table", **dict(zip(keys, reversed(ps))))
            if al is not None:
                t.attrs["args"].d["alias"] = x = self.mk("TableAlias", this=al)
                self.adopt(t, "alias", x)
            return t if into == "Table" else self.mk(into, this=t)
        keys = ("this", "table", "db", "catalog")
        t = self.mk("Column", **dict(zip(keys, reversed(ps))))
        return t if al is None else self.mk("Alias", this=t, alias=al)

    # -- hooks

    def lib_call(self, path, f, args, kwargs, node):
        """Functions of sqlglot that aren't interpreted"""
        if isinstance(f, UClass) or not f.qual.startswith("sqlglot."):
            return NotImplemented
        n = f.name
        if f.owner is self.node_cls:
            if n in ("copy", "__deepcopy__"):
                return self.copy_tree(args[0])
            if n == "__eq__":
                a, b = args[:2]
                return self.is_node(b) and a.cls is b.cls and self.shape(a) == self.shape(b)
            if n == "__ne__":
                a, b = args[:2]
                return not (self.is_node(b) and a.cls is b.cls and self.shape(a) == self.shape(b))
            if n == "sql":
                loc = self.it.bind(f, args, kwargs, node)
                return self.to_sql(path, args[0], loc.get("dialect"))
            if n == "__str__":
                return self.to_sql(path, args[0], None)
            if n in ("__repr__", "to_s"):
                return f"{args[0].cls.name}(...)"
        if n == "maybe_parse":
            loc = self.it.bind(f, args, kwargs, node)
            x = loc.get("sql_or_expression")
            if self.is_node(x):
                return self.copy_tree(x) if loc.get("copy") is True else x
            if isinstance(x, str):
                into = loc.get("into")
                t = self.mini_parse(x, into.name if isinstance(into, UClass) else None)
                if t is not None:
                    return t
                if x in self.corpus.texts:
                    return self.build(self.corpus.texts[x]["parse"][0])
                if re.fullmatch(r"\d+", x):
                    return self.mk("Literal", this=x, is_string=False)
                raise Undecided(f"{x!r} is parsed")
        if n == "convert" and f.qual.endswith("expressions.convert"):
            x = args[0]
            if isinstance(x, Sym):
                return self.mk("Literal", this=x, is_string=True)
        if n == "to_identifier":
            x = args[0] if args else None
            if isinstance(x, Sym):
                loc = self.it.bind(f, args, kwargs, node)
                return self.mk("Identifier", this=x, quoted=loc.get("quoted"))
        return NotImplemented

    def to_sql(self, path, o, dialect):
        return self.render(o)

    def lib_unknown(self, path, callee, args, kwargs, node):
        """Calls of the parser and the executor"""
        if isinstance(callee, Sym) and callee.op == "attr" and callee.args[1] in ("parse", "parse_into"):
            b = callee.args[0]
            while isinstance(b, Sym) and b.op in ("call", "attr"):
                b = b.args[0]
            if isinstance(b, (Ext, ExtClass)):
                b = b.path
            if isinstance(b, str) and b.startswith("sqlglot."):
                return self.parse(path, args[0] if args else kwargs.get("sql"), node)
        if isinstance(callee, Ext):
            if callee.path in ("sqlglot.parse",):
                return self.parse(path, args[0] if args else kwargs.get("sql"), node)
            if callee.path in ("sqlglot.parse_one",):
                x = args[0] if args else kwargs.get("sql")
                t = self.mini_parse(x) if isinstance(x, str) and x not in self.corpus.texts else None
                r = AList([t]) if t is not None else self.parse(path, x, node)
                return r.items[0] if r.items else None
            if callee.path in ("sqlglot.executor.execute", "sqlglot.execute"):
                return self.executed(path, args, kwargs, node)
        return NotImplemented

    def executed(self, path, args, kwargs, node):
        k = path.fresh()
        x = args[0] if args else kwargs.get("sql")
        path.emit("executed", tree=x, tables=kwargs.get("tables"))
        return Obj(ExtClass("sqlglot.executor.table.Table"), dict(rows=Sym("atom", f"rows {k}"), columns=Sym("atom", f"columns {k}")), f"result {k}")
