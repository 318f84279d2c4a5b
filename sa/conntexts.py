"""What the clients of a server with several connections do.

A program is a list of commands; `r` is the role of its connection (0 or 1): the values that it uses.
    ("q", text[, attributes])   COM_QUERY            ("db", name)               COM_INIT_DB
    ("prepare", text)           COM_STMT_PREPARE     ("exec", k, values[, cursor])  of the k-th prepared statement
    ("long", k, i, data)        SEND_LONG_DATA       ("fetch", k, n), ("reset", k), ("close", k)
    ("user", name, password, db, charset)            COM_CHANGE_USER
    ("rc",) ("ping",) ("quit",) ("fields", table, wildcard) ("raw", bytes)"""
from __future__ import annotations

PW = {"ann": "secret", "bob": "hunter2", "cat": "", "dan": "clear", "eve": "other"}
DBS = ["shop", "blog"]
CHARSETS = ["latin1", "cp1251"]
COLLATIONS = [8, 51]
SERVER_ID = 3
WORDS = ["é", "ж"]


def p_vars(r):
    z, y = (["+03:00", "-05:30"], ["ANSI", "TRADITIONAL"])
    cs = CHARSETS[r]
    return dict(
        user="ann" if r == 0 else "bob",
        caps=r << 24,
        commands=[
            ("q", f"SET time_zone = '{z[r]}'"),
            ("q", f"SELECT 1 FROM t{r}"),
            ("q", f"SET SESSION sql_mode = '{y[r]}', autocommit = {r}"),
            ("q", "SELECT @@time_zone, @@sql_mode, @@autocommit, @@wait_timeout"),
            ("q", f"SET NAMES {cs}"),
            ("q", "SHOW VARIABLES LIKE 'character%'"),
            ("q", f"SELECT '{WORDS[r]}' FROM t{r}"),
            ("q", f"SET SESSION TRANSACTION ISOLATION LEVEL {['SERIALIZABLE', 'REPEATABLE READ'][r]}"),
            ("q", f"SET @@wait_timeout = {r + 5}"),
            ("q", "SHOW SESSION VARIABLES"),
            ("q", "SET time_zone = DEFAULT"),
            ("q", "SELECT @@session.time_zone, @@transaction_isolation, @@transaction_read_only"),
            ("rc",),
            ("q", f"SELECT 1 FROM t{r}"),
            ("q", "SELECT @@sql_mode, @@character_set_client, @@external_user"),
        ],
    )


def p_db(r):
    d, e = DBS[r], DBS[1 - r]
    return dict(
        user=["bob", "ann"][r],
        caps=(1 - r) << 24,
        database=d,
        commands=[
            ("q", "SELECT DATABASE(), USER(), CURRENT_USER(), CONNECTION_ID()"),
            ("q", f"SELECT 1 FROM t{r}"),
            ("q", "SHOW TABLES"),
            ("db", f"own{r}"),
            ("q", "SELECT DATABASE(), CONNECTION_ID()"),
            ("q", f"USE {d}"),
            ("q", "SHOW TABLES"),
            ("fields", "items", "%"),
            ("q", "SHOW COLUMNS FROM items"),
            ("user", ["cat", "eve"][r], None, e, 45),
            ("q", "SELECT DATABASE(), USER(), CURRENT_USER(), CONNECTION_ID()"),
            ("q", f"SELECT 2 FROM t{r}"),
            ("q", "SELECT table_schema, table_name FROM information_schema.tables WHERE table_schema = 'shop'"),
            ("rc",),
            ("q", "SELECT DATABASE(), USER()"),
        ],
    )


def p_stmt(r):
    return dict(
        user=["ann", "bob"][r],
        commands=[
            ("prepare", f"SELECT ?, {r} FROM t{r}"),
            ("prepare", f"SELECT ?, ? FROM stream{r}"),
            ("long", 0, 0, b"long" + b"%d" % r),
            ("exec", 0, [None]),
            ("long", 1, 1, b"part" + b"%d" % r),
            ("exec", 1, [r + 1, None], True),
            ("fetch", 1, 1),
            ("exec", 0, [f"word{r}"]),
            ("fetch", 1, 1),
            ("reset", 0),
            ("fetch", 1, 5),
            ("prepare", "SELECT 1 FROM stream"),
            ("exec", 2, [], True),
            ("long", 0, 0, b"more"),
            ("close", 1),
            ("fetch", 2, 2),
            ("exec", 1, [r, "x"]),
            ("exec", 0, [None]),
            ("rc",),
            ("fetch", 2, 2),
            ("exec", 0, ["after"]),
            ("prepare", f"SELECT {r} FROM t{r}"),
            ("exec", 3, []),
        ],
    )


def p_app(r):
    return dict(
        user=["eve", "ann"][r],
        caps=1 << 27,
        database=DBS[r],
        commands=[
            ("q", f"SELECT {r} FROM stream{r}", {"trace": f"q{r}"}),
            ("q", f"SELECT /*+ SET_VAR(max_execution_time = {7 + r}) */ 1 FROM t{r}"),
            ("q", f"SELECT /*+ SET_VAR(sql_mode = 'X{r}') */ 1 FROM stream{r}"),
            ("q", f"SELECT 1 FROM t{r}", {"a": f"v{r}"}),
            ("q", "SELECT @@max_execution_time, @@sql_mode"),
            ("q", f"SELECT /*+ SET_VAR(time_zone = '+0{r + 1}:00') */ 1 FROM boom"),
            ("q", f"SELECT 1 FROM t{r}"),
            ("q", f"SELECT @@time_zone, a FROM stream{r}"),
        ],
    )


def p_errors(r):
    return dict(
        user=["dan", "cat"][r],
        commands=[
            ("q", "SELECT 1 FROM boom"),
            ("q", "SELECT 1 FROM crash"),
            ("q", f"SET no_such_variable = {r}"),
            ("q", "SELECT @@version"),
            ("raw", b"\x77what"),
            ("fetch", 9, 1),
            ("exec", 7, []),
            ("q", "SELECT 1 FROM late"),
            ("q", f"SELECT 1 FROM t{r}"),
            ("q", "KILL QUERY 4711"),
            ("q", "KILL 4711"),
            ("db", "nowhere"),
            ("ping",),
            ("user", ["ann", "bob"][r], None, "shop", COLLATIONS[r]),
            ("q", "SELECT CURRENT_USER(), @@character_set_client"),
            ("user", "ann", "wrong", "blog", 45),
        ],
    )


def p_quit(r):
    """Ends early"""
    return dict(user=["cat", "dan"][r], commands=[("q", f"SET time_zone = '+0{r + 4}:00'"), ("prepare", "SELECT 1 FROM stream"), ("exec", 0, [], True), ("q", "SELECT 1 FROM stream"), ("q", f"SELECT 3 FROM t{r}"), ("quit",)])


def p_denied(r):
    return dict(user=["ann", "dan"][r], password="wrong", database="shop", commands=[])


def p_kill(r):
    """Kills itself"""
    return dict(user="ann", commands=[("q", f"SET time_zone = '+0{r + 4}:00'"), ("q", "SELECT 1 FROM stream"), ("killq",), ("q", "SELECT 1 FROM t"), ("kill",), ("q", "SELECT 1 FROM stream")])


def p_killer(r):
    """Kills the second connection"""
    return dict(user="eve", commands=[("q", "SELECT 1 FROM t"), ("killn", "QUERY ", 1), ("q", "SELECT 1 FROM stream"), ("killn", "QUERY ", 1), ("killn", "", 1), ("q", "SELECT 1 FROM t")])


# (what a killer sends, the number of the connection it means)
SPELLED = dict(query=["KILL QUERY ", "kill query "], connection=["KILL ", "KILL CONNECTION ", "kill "])
# others than the target: of another server, and such that share some bits with it
STRANGERS = [(SERVER_ID << 16) + n for n in (65536, 0x8000, 77)] + [0, 4294967295, 4295163904]

# What a connection does that others kill: the first commands prepare for the one in question, and the last ones don't depend on it
AFTER = [("ping",), ("q", "SELECT 1 FROM free")]
TARGETS = dict(
    query=dict(user="ann", commands=[("q", "SELECT 1 FROM t"), *AFTER]),
    stream=dict(user="bob", caps=1 << 24, commands=[("q", "SELECT 1 FROM stream"), *AFTER]),
    late=dict(user="bob", commands=[("q", "SELECT 1 FROM late"), *AFTER]),
    prepared=dict(user="ann", commands=[("prepare", "SELECT 1 FROM stream"), ("exec", 0, []), *AFTER, ("reset", 0), ("ping",)]),
    cursor=dict(user="ann", caps=1 << 24, commands=[("prepare", "SELECT 1 FROM stream"), ("exec", 0, [], True), ("fetch", 0, 1), ("fetch", 0, 9), ("close", 0), *AFTER]),
    catalog=dict(user="bob", database="shop", commands=[("q", "SHOW TABLES"), ("fields", "items", "%"), *AFTER]),
    database=dict(user="bob", commands=[("db", "blog"), ("q", "USE shop"), ("ping",), ("rc",), ("ping",)]),
    variables=dict(user="ann", commands=[("q", "SET time_zone = '+04:00'"), ("ping",), ("q", "SELECT /*+ SET_VAR(max_execution_time = 7) */ 1 FROM t0"), ("q", "SELECT @@max_execution_time, @@sql_mode"), ("ping",)]),
    user=dict(user="bob", commands=[("user", "ann", None, "blog", 45), ("ping",), ("q", "SELECT 1 FROM boom"), ("raw", b"\x77what"), ("ping",)]),
    long=dict(user="ann", commands=[("q", "SELECT 1 FROM long"), *AFTER]),
    long_prepared=dict(user="ann", commands=[("prepare", "SELECT 1 FROM long"), ("exec", 0, []), *AFTER]),
    long_cursor=dict(user="ann", commands=[("prepare", "SELECT 1 FROM long"), ("exec", 0, [], True), ("fetch", 0, 20000), *AFTER]),
    itself=dict(user="ann", commands=[("q", "SELECT 1 FROM t"), ("killself", "KILL QUERY "), *AFTER, ("killself", "kill query "), *AFTER, ("q", "SELECT 1 FROM stream")]),
    ends=dict(user="ann", commands=[("q", "SELECT 1 FROM t"), ("killself", "KILL "), ("ping",)]),
    ends2=dict(user="ann", commands=[("killself", "KILL CONNECTION "), ("ping",)]),
)
TARGETS["alone"] = dict(user="ann", commands=[("q", "SELECT 1 FROM t"), *[x for s in STRANGERS for k in SPELLED.values() for x in (("killto", k[0], s), ("ping",))], *AFTER])
BYSTANDER = dict(user="cat", commands=[("q", "SELECT 1 FROM stream"), ("ping",), ("q", "SELECT 1 FROM t")])



def kill_texts():
    ids = [(SERVER_ID << 16) + n for n in range(3)]
    out = [t + str(i) for l in SPELLED.values() for t in l for i in ids + STRANGERS]
    for t in [*TARGETS.values(), BYSTANDER]:
        out += [c[1] for c in t["commands"] if c[0] in ("q", "prepare")]
    return out


PROGRAMS = dict(variables=p_vars, databases=p_db, statements=p_stmt, application=p_app, errors=p_errors, quit=p_quit, denied=p_denied, kill=p_kill)


def literal(v):
    return str(v) if isinstance(v, int) else "'" + (v.decode() if isinstance(v, bytes) else v) + "'"


def texts():
    """Every text that reaches the parser"""
    out = []
    for f in [*PROGRAMS.values(), p_killer]:
        for r in (0, 1):
            long, prep = {}, []
            for c in f(r)["commands"]:
                if c[0] == "q":
                    out.append(c[1])
                elif c[0] == "prepare":
                    prep.append(c[1])
                elif c[0] == "long":
                    long.setdefault(c[1], {}).setdefault(c[2], []).append(c[3])
                elif c[0] in ("reset", "rc"):
                    long.pop(c[1], None) if c[0] == "reset" else long.clear()
                elif c[0] == "exec" and c[1] < len(prep):
                    vs = list(c[2])
                    for i, parts in long.get(c[1], {}).items():
                        vs[i] = b"".join(parts)
                    long.pop(c[1], None)
                    t = prep[c[1]]
                    for v in vs:
                        t = t.replace("?", literal(v) if v is not None else "NULL", 1)
                    out.append(t)
                elif c[0] == "fields":
                    out += [f"SHOW COLUMNS FROM {c[1]} LIKE '{c[2]}'", f"SHOW COLUMNS FROM `{c[1]}` LIKE '{c[2]}'"]
    out += kill_texts()
    for i in (0, 1, 2):
        out += [f"KILL {(SERVER_ID << 16) + i}", f"KILL QUERY {(SERVER_ID << 16) + i}"]
    return list(dict.fromkeys(out))
