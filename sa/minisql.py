"""Rows of SELECTs on tables whose rows are known: what sqlglot's executor makes of them"""
from __future__ import annotations

from . import models
from .values import *

PLAIN = (str, int, float, bool, type(None))
CMP = {
    "EQ": lambda a, b: a == b, "NEQ": lambda a, b: a != b, "LT": lambda a, b: a < b, "LTE": lambda a, b: a <= b, "GT": lambda a, b: a > b, "GTE": lambda a, b: a >= b,
    "ADD": lambda a, b: a + b, "SUB": lambda a, b: a - b,
}


class MiniSql:
    def __init__(self, env, path):
        self.env, self.it, self.path = env, env.it, path
        m = models.LIBS.get("sqlglot.executor.env")
        e = m.ns.get("ENV") if m is not None else None
        if not isinstance(e, ADict):
            raise Undecided("the functions of sqlglot's executor")
        self.fns, self.own = e.d, m.own

    def args(self, n):
        return n.attrs["args"].d

    def name(self, v):
        a = self.args(v)
        t = a.get("this")
        return self.name(t) if self.env.is_node(t) else t

    def table(self, node, tables):
        """(columns, rows)"""
        if not self.env.is_node(node, "Table"):
            raise Undecided(f"rows of a {node.cls.name}")
        a = self.args(node)
        if a.get("joins") and a["joins"].items or a.get("pivots") and a["pivots"].items:
            raise Undecided("rows of a join")
        t = tables
        names = [self.name(a[k]).lower() for k in ("catalog", "db", "this") if a.get(k) is not None and a.get(k) != ""]
        for n in names:
            if not isinstance(t, ADict):
                raise Undecided("tables of the executor")
            t = {(k.lower() if isinstance(k, str) else k): v for k, v in t.d.items()}.get(n)
            if t is None:
                raise Undecided(f"there's no table {'.'.join(names)}")
        if isinstance(t, Obj):
            rows, cols = t.attrs.get("rows"), t.attrs.get("columns")
            if isinstance(rows, AList) and isinstance(cols, tuple):
                if any(not (isinstance(r, tuple) and len(r) == len(cols)) for r in rows.items):
                    raise Undecided("rows of a table")
                return [c.lower() for c in cols], rows.items
        if isinstance(t, AList) and all(isinstance(r, ADict) for r in t.items):
            cols = list(t.items[0].d) if t.items else []
            return cols, [tuple(r.d[c] for c in cols) for r in t.items]
        raise Undecided("rows of a table")

    def select(self, node, tables):
        """(rows, columns)"""
        if not self.env.is_node(node, "Select"):
            raise Undecided(f"rows of a {node.cls.name}")
        a = {k: v for k, v in self.args(node).items() if v is not None and v is not False and not (isinstance(v, AList) and not v.items)}
        rest = set(a) - {"expressions", "from", "where", "order", "limit", "offset", "distinct", "kind"}
        if rest or "from" not in a:
            raise Undecided(f"rows of a SELECT with {sorted(rest)}")
        cols, rows = self.table(self.args(a["from"])["this"], tables)
        idx = {c: i for i, c in enumerate(cols)}
        if "where" in a:
            cond = self.args(a["where"])["this"]
            rows = [r for r in rows if self.truth(self.value(cond, idx, r))]
        outs, names = [], []
        for x in a["expressions"].items:
            if self.env.is_node(x, "Star"):
                outs += [lambda r, i=i: r[i] for i in range(len(cols))]
                names += cols
                continue
            if self.env.is_node(x, "Alias"):
                al = self.args(x)["alias"]
                names.append(self.name(al) if self.args(al).get("quoted") else self.name(al))
            elif self.env.is_node(x, "Column"):
                if self.env.is_node(self.args(x)["this"], "Star"):
                    raise Undecided("a qualified star")
                names.append(self.name(x).lower())
            else:
                names.append("?")
            outs.append(lambda r, x=x: self.value(x, idx, r))
        aggs = [self.count(x) for x in a["expressions"].items]
        if any(aggs):
            if not all(aggs) or "order" in a or "distinct" in a:
                raise Undecided("an aggregation")
            res = [tuple(len(rows) if c is True else len([1 for r in rows if self.value(c, idx, r) is not None]) for c in aggs)]
        else:
            pairs = [(r, tuple(o(r) for o in outs)) for r in rows]
            if "order" in a:
                for o in reversed(self.args(a["order"])["expressions"].items):
                    oa = self.args(o) if self.env.is_node(o, "Ordered") else dict(this=o)
                    x, desc = oa["this"], bool(oa.get("desc"))

                    def key(p, x=x):
                        if self.env.is_node(x, "Literal") and not self.args(x).get("is_string"):
                            v = p[1][int(self.args(x)["this"]) - 1]
                        elif self.env.is_node(x, "Column") and self.name(x).lower() not in idx:
                            low = [n.lower() for n in names]
                            if self.name(x).lower() not in low:
                                raise Undecided(f"there's no column {self.name(x)}")
                            v = p[1][low.index(self.name(x).lower())]
                        else:
                            v = self.value(x, idx, p[0])
                        return (v is not None, v)
                    try:
                        pairs.sort(key=key, reverse=desc)
                    except TypeError:
                        raise Undecided("rows that can't be sorted") from None
            res = [p[1] for p in pairs]
            if "distinct" in a:
                res = list(dict.fromkeys(res))
        off = self.number(a.get("offset"))
        lim = self.number(a.get("limit"))
        res = res[off or 0:]
        if lim is not None:
            res = res[:lim]
        return res, tuple(names)

    def number(self, n):
        if n is None:
            return None
        x = self.args(n).get("expression")
        if x is None or not self.env.is_node(x, "Literal"):
            raise Undecided("a limit")
        return int(self.args(x)["this"])

    def count(self, x):
        while self.env.is_node(x, "Alias"):
            x = self.args(x)["this"]
        if self.env.is_node(x, "Count"):
            t = self.args(x)["this"]
            if self.env.is_node(t, "Distinct"):
                raise Undecided("COUNT(DISTINCT)")
            return True if self.env.is_node(t, "Star") else t
        if self.env.is_node(x, "AggFunc"):
            raise Undecided("an aggregation")
        return None

    def truth(self, v):
        if isinstance(v, PLAIN):
            return bool(v)
        raise Undecided(f"truth of {show(v)}")

    def plain(self, v):
        if not isinstance(v, PLAIN):
            raise Undecided(f"value {show(v)}")
        return v

    def fn(self, key, vals):
        f = self.fns.get(key)
        if f is None:
            raise Undecided(f"function {key}")
        if f is self.own.get(key) and key in CMP:
            if any(v is None for v in vals):
                return None
            try:
                return CMP[key](*vals)
            except TypeError:
                raise Undecided(f"{key} of {vals!r}") from None
        r = self.it.call(f, list(vals), {}, None)
        if isinstance(r, Sym):
            r = self.path.decide(r, None) if hasattr(self.path, "decide") else r
        return self.plain(r)

    def value(self, x, idx, row):
        v = lambda y: self.value(y, idx, row)
        env = self.env
        if not env.is_node(x):
            return self.plain(x)
        a = self.args(x)
        n = x.cls.name
        if n == "Column":
            c = self.name(x)
            i = idx.get(c.lower()) if isinstance(c, str) else None
            if i is None:
                raise Undecided(f"there's no column {c}")
            return self.plain(row[i])
        if n in ("Alias", "Paren"):
            return v(a["this"])
        if n == "Literal":
            t = self.plain(a["this"])
            if a.get("is_string"):
                return t
            return int(t) if str(t).isdigit() else float(t)
        if n == "Null":
            return None
        if n == "Boolean":
            return bool(a["this"])
        if n == "And":
            l = v(a["this"])
            return l and v(a["expression"])
        if n == "Or":
            l = v(a["this"])
            return l or v(a["expression"])
        if n == "Not":
            return not self.truth(v(a["this"]))
        if n == "Is":
            l, r = v(a["this"]), v(a["expression"])
            return l is r or l == r
        if n == "In" and a.get("expressions") and not a.get("query"):
            l = v(a["this"])
            return l in [v(y) for y in a["expressions"].items]
        if n == "Like":
            return self.fn("LIKE", [v(a["this"]), v(a["expression"])])
        if n.upper() in CMP:
            return self.fn(n.upper(), [v(a["this"]), v(a["expression"])])
        if n in ("Upper", "Lower"):
            return self.fn(n.upper(), [v(a["this"])])
        if n == "Between":
            return self.fn("BETWEEN", [v(a["this"]), v(a["low"]), v(a["high"])])
        raise Undecided(f"value of a {n}")
