"""Calls that block the event loop, and regular expressions that do"""
from __future__ import annotations

import ast
import itertools
import re
import warnings

from .common import *

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import re._constants as C
    import re._parser as sre

BLOCKS = (
    "time.sleep", "os.system", "os.wait", "os.waitpid", "os.popen", "input", "subprocess.", "socket.create_connection", "socket.getaddrinfo", "socket.gethostbyname",
    "socket.gethostbyaddr", "socket.socket", "requests.", "urllib.request.", "http.client.", "select.select", "signal.pause", "asyncio.run", "socket.getfqdn",
)
NOT_BLOCKING = ("subprocess.PIPE", "subprocess.DEVNULL")


def resolve_name(node, imports):
    """Dotted name of what's called"""
    xs = []
    while isinstance(node, ast.Attribute):
        xs.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return None
    base = imports.get(node.id, node.id if not xs else None)
    if base is None:
        return None
    return ".".join([base] + xs[::-1])


def imports_of(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def functions(tree):
    """(qualified name, node) of all functions, innermost owner of each node"""
    def go(node, q):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield ".".join(q + [c.name]), c
                yield from go(c, q + [c.name])
            elif isinstance(c, ast.ClassDef):
                yield from go(c, q + [c.name])
            else:
                yield from go(c, q)
    yield from go(tree, [])


def blocking_calls(rep, p):
    n = 0
    for name, mod in sorted(p.mods.items()):
        tree = p.trees[name]
        imp = imports_of(tree)
        for q, f in functions(tree):
            bad = None
            for c in ast.walk(f):
                if isinstance(c, ast.Call):
                    d = resolve_name(c.func, imp)
                    if d and any(d == b or b.endswith(".") and d.startswith(b) for b in BLOCKS):
                        # handing the function to a thread isn't calling it
                        bad = (d, c.lineno)
            n += 1
            rep.ob("blocking", f"{name}", bad is None, f"{q} calls {bad[0]}(), which blocks the event loop" if bad else "", where=f"{name}.py:{bad[1]}" if bad else None)


# ---- regular expressions

SAMPLE = [chr(i) for i in range(128)] + ["\x85", "\xa0", "é", "Ж", "\u0663", "\u2028", "中", "\U0001f600"]


class CantTell(Exception):
    pass


class Nfa:
    def __init__(self):
        self.eps = []
        self.chars = []  # state -> [(frozenset, state)]
        self.extra = 0

    def state(self):
        self.eps.append([])
        self.chars.append([])
        return len(self.eps) - 1


def charset(op, av, flags):
    if op is C.LITERAL:
        pat = re.escape(chr(av))
    elif op is C.NOT_LITERAL:
        pat = "[^" + re.escape(chr(av)) + "]"
    elif op is C.ANY:
        return frozenset(SAMPLE) if flags & re.DOTALL else frozenset(SAMPLE) - {"\n"}
    elif op is C.CATEGORY:
        pat = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}[av]
    elif op is C.IN:
        neg = False
        out = set()
        for o, v in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.RANGE:
                out |= {c for c in SAMPLE if v[0] <= ord(c) <= v[1]}
            else:
                out |= charset(o, v, flags)
        return frozenset(SAMPLE) - out if neg else frozenset(out)
    else:
        raise CantTell(str(op))
    rx = re.compile(pat, flags & (re.IGNORECASE | re.ASCII))
    return frozenset(c for c in SAMPLE if rx.match(c))


def is_atomic(items, i):
    """A lookahead that's consumed by a reference to its group: no way back into it"""
    op, av = items[i]
    if op is C.ASSERT and av[0] == 1 and i + 1 < len(items) and items[i + 1][0] is C.GROUPREF:
        sub = list(av[1])
        return len(sub) == 1 and sub[0][0] is C.SUBPATTERN and sub[0][1][0] == items[i + 1][1]
    return False


def build(nfa, items, start, flags, inner):
    """Returns the end state"""
    items = list(items)
    s = start
    i = 0
    while i < len(items):
        op, av = items[i]
        if is_atomic(items, i) or str(op) == "ATOMIC_GROUP":
            sub = av[1] if op is C.ASSERT else av
            inner.append(list(sub))
            nfa.extra += 1
            e = nfa.state()
            nfa.chars[s].append((frozenset({("atomic", nfa.extra)}), e))
            s = e
            i += 2 if op is C.ASSERT else 1
            continue
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY):
            e = nfa.state()
            nfa.chars[s].append((charset(op, av, flags), e))
            s = e
        elif op is C.AT:
            if av in (C.AT_END_STRING, C.AT_END):
                # no text follows
                s = nfa.state()
        elif op in (C.ASSERT, C.ASSERT_NOT):
            inner.append(list(av[1]))
        elif op is C.SUBPATTERN:
            s = build(nfa, av[3], s, (flags | av[1]) & ~av[2], inner)
        elif op is C.BRANCH:
            e = nfa.state()
            for b in av[1]:
                b0 = nfa.state()
                nfa.eps[s].append(b0)
                nfa.eps[build(nfa, b, b0, flags, inner)].append(e)
            s = e
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
            lo, hi, sub = av
            unbounded = hi is C.MAXREPEAT or hi > 24
            for _ in range(min(lo, 2)):
                s = build(nfa, sub, s, flags, inner)
            if unbounded:
                a = nfa.state()
                nfa.eps[s].append(a)
                e = build(nfa, sub, a, flags, inner)
                nfa.eps[e].append(a)
                s = nfa.state()
                nfa.eps[a].append(s)
            else:
                out = nfa.state()
                nfa.eps[s].append(out)
                for _ in range(min(hi - lo, 3)):
                    s = build(nfa, sub, s, flags, inner)
                    nfa.eps[s].append(out)
                s = out
        else:
            raise CantTell(str(op))
        i += 1
    return s


def paths_to(nfa, s):
    """Character transitions after an empty path, with the number (at most 2) of empty paths that lead there"""
    n = {}
    stack = [(s, frozenset({s}))]
    steps = 0
    while stack:
        x, seen = stack.pop()
        steps += 1
        if steps > 20000:
            raise CantTell("too many empty paths")
        n[x] = n.get(x, 0) + 1
        for y in nfa.eps[x]:
            if y not in seen:
                stack.append((y, seen | {y}))
    return n


def transitions(nfa):
    """state -> [(charset, state, multiplicity)], where states are those after a character"""
    out = {}
    work = [0]
    while work:
        s = work.pop()
        if s in out:
            continue
        ts = {}
        for x, k in paths_to(nfa, s).items():
            for cs, t in nfa.chars[x]:
                ts.setdefault(t, []).append((cs, k))
        out[s] = [(cs, t, k) for t, xs in ts.items() for cs, k in xs]
        work.extend(ts)
    return out


def closure(edges):
    """Transitive closure of node -> set of nodes, by search from each node"""
    out = {}
    for n in edges:
        seen = set()
        st = list(edges.get(n, ()))
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(edges.get(x, ()))
        out[n] = seen
    return out


def exponential(nfa):
    """A state that can be left and reached again in two ways with the same text"""
    tr = transitions(nfa)
    one = closure({s: {t for _, t, _ in xs} for s, xs in tr.items()})
    loops = {s for s in tr if s in one[s]}
    for s in loops:
        # two ways to get from s to a state in the same cycle
        for cs, t, k in tr[s]:
            if cs and (k > 1) and (t == s or s in one[t]):
                return True
        for (a, t, _), (b, u, _) in itertools.combinations(tr[s], 2):
            if a & b and t == u and (t == s or s in one[t]):
                return True
    cyc = lambda a, b: a == b or b in one[a] and a in one[b]
    for s in loops:
        seen = set()
        st = [(s, s)]
        # only pairs within the cycle of s
        while st:
            a, b = st.pop()
            for ca, ta, _ in tr[a]:
                if not cyc(ta, s):
                    continue
                for cb, tb, _ in tr[b]:
                    if not cyc(tb, s) or not ca & cb:
                        continue
                    if (ta, tb) not in seen:
                        seen.add((ta, tb))
                        st.append((ta, tb))
        off = [x for x in seen if x[0] != x[1]]
        for x in off:
            back = set()
            st = [x]
            while st:
                a, b = st.pop()
                for ca, ta, _ in tr[a]:
                    for cb, tb, _ in tr[b]:
                        if ca & cb and cyc(ta, s) and cyc(tb, s) and (ta, tb) not in back:
                            back.add((ta, tb))
                            st.append((ta, tb))
            if (s, s) in back:
                return True
    return False


def degree(nfa):
    """How many loops in a row can share the same text between them?"""
    tr = transitions(nfa)
    one = closure({s: {t for _, t, _ in xs} for s, xs in tr.items()})
    loops = {}
    for s in tr:
        for cs, t, _ in tr[s]:
            if t == s:
                loops[s] = loops.get(s, frozenset()) | cs
    best = {}

    def go(s, common):
        return 1 + max([go(t, common & loops[t]) for t in loops if t != s and t in one[s] and s not in one[t] and common & loops[t]], default=0)

    if len(loops) > 12:
        return len(loops)
    return max([go(s, loops[s]) for s in loops], default=0)


def analyse(pattern, flags=0):
    """(can take exponential time, degree)"""
    tree = sre.parse(pattern, flags)
    fl = tree.state.flags if hasattr(tree, "state") else flags
    todo = [list(tree)]
    worst = 0
    while todo:
        items = todo.pop()
        nfa = Nfa()
        s = nfa.state()
        inner = []
        build(nfa, items, s, fl | flags, inner)
        if exponential(nfa):
            return True, None
        worst = max(worst, degree(nfa))
        todo.extend(inner)
    return False, worst


USES = ("match", "fullmatch", "search", "findall", "finditer", "sub", "subn", "split", "compile")
LIKES = ["%a%a%a%a%a%a%b", "_%_%_%_%_%_%z", "%%%%%%%%x", "plain", r"a\%b%c_d%%e"]


def regexes(rep, p):
    for name, mod in sorted(p.mods.items()):
        imp = imports_of(p.trees[name])
        short = name.split(".")[-1]
        fs = dict((id(n), q) for q, f in functions(p.trees[name]) for n in ast.walk(f))
        for c in ast.walk(p.trees[name]):
            if not isinstance(c, ast.Call):
                continue
            d = resolve_name(c.func, imp)
            if d is None or not d.startswith("re.") or d[3:] not in USES or not c.args:
                continue
            site = f"{name}: {fs.get(id(c), 'module')}"
            where = f"mysql_mimic/{short}.py:{c.lineno}"
            flags = 0
            for a in list(c.args[1:]) + [k.value for k in c.keywords]:
                for x in ast.walk(a):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and imp.get(x.value.id) == "re":
                        flags |= getattr(re, x.attr, 0)
            pat = fold(c.args[0], mod)
            if pat is None:
                continue
            judge(rep, site, where, pat, flags, repr(pat)[:60])
        for q, f in functions(p.trees[name]):
            builder(rep, p, mod, name, q, f, imp)


def judge(rep, site, where, pat, flags, what, limit=None):
    try:
        bad, deg = analyse(pat, flags)
    except (CantTell, re.error, RecursionError) as e:
        rep.ob("regex", site, None, f"{what}: {e}")
        return
    if bad:
        rep.ob("regex", site, False, f"{what} can take exponential time", where=where)
    elif limit is not None and deg > limit:
        rep.ob("regex", site, False, f"{what} can take time proportional to the {deg}th power of the text's length", where=where)
    else:
        rep.ob("regex", site, True)


def fold(node, mod):
    """Constant text"""
    try:
        v = ast.literal_eval(node)
        return v if isinstance(v, str) else None
    except ValueError:
        pass
    if isinstance(node, ast.Name):
        v = mod.ns.get(node.id)
        return v if isinstance(v, str) else None
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        a, b = fold(node.left, mod), fold(node.right, mod)
        return a + b if a is not None and b is not None else None
    if isinstance(node, ast.JoinedStr):
        out = []
        for x in node.values:
            y = fold(x.value if isinstance(x, ast.FormattedValue) else x, mod)
            if y is None:
                return None
            out.append(y)
        return "".join(out)
    return None


def builder(rep, p, mod, name, q, f, imp):
    """A function that makes a regular expression of a text: what does it make of some?"""
    if "." in q or isinstance(f, ast.AsyncFunctionDef) or len(f.args.args) != 1:
        return
    if not any(isinstance(c, ast.Call) and resolve_name(c.func, imp) == "re.compile" and c.args and fold(c.args[0], mod) is None for c in ast.walk(f)):
        return
    fn = mod.ns.get(f.name)
    if not isinstance(fn, Func):
        return
    env = Client()
    env.max_loop = 200
    it = p.interp
    for like in LIKES:
        def each(r):
            v = r.value
            if r.status != "ok" or not isinstance(v, Sym) or v.op != "re":
                rep.ob("regex", f"{name}: {q}()", None, r.reason or r.status)
                return
            pat, fl = v.args
            if not isinstance(pat, str):
                rep.ob("regex", f"{name}: {q}()", None, "pattern isn't known")
                return
            judge(rep, f"{name}: {q}()", f"{name}:{f.lineno}", pat, fl if isinstance(fl, int) else 0, f"the regular expression for {like!r}, {pat!r},", 2)

        rep.explore(p, env, lambda path: it.call(fn, [like], {}, None), f"{name}.{q}({like!r})", max_paths=3, each=each)
