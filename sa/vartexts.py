"""Statements about system variables, with what they mean.

Used by the check of C14, and by tools/mkcorpus.py, which records their syntax trees."""

INT, BOOL, STR, CHARSET, COLLATION, TZ, SWITCH = "int", "bool", "str", "charset", "collation", "tz", "switch"

# type, and whether clients may assign it
KNOWN = {
    "auto_increment_increment": (INT, True),
    "autocommit": (BOOL, True),
    "character_set_client": (CHARSET, True),
    "character_set_connection": (CHARSET, True),
    "character_set_database": (CHARSET, True),
    "character_set_results": (CHARSET, True),
    "character_set_server": (CHARSET, True),
    "collation_connection": (COLLATION, True),
    "collation_database": (COLLATION, True),
    "collation_server": (COLLATION, True),
    "external_user": (STR, False),
    "init_connect": (STR, True),
    "interactive_timeout": (INT, True),
    "license": (STR, False),
    "lower_case_table_names": (INT, True),
    "max_allowed_packet": (INT, True),
    "max_execution_time": (INT, True),
    "net_buffer_length": (INT, True),
    "net_write_timeout": (INT, True),
    "performance_schema": (BOOL, False),
    "sql_auto_is_null": (BOOL, True),
    "sql_mode": (STR, True),
    "sql_select_limit": (INT, True),
    "system_time_zone": (STR, False),
    "time_zone": (TZ, True),
    "transaction_read_only": (BOOL, True),
    "transaction_isolation": (STR, True),
    "version": (STR, False),
    "version_comment": (STR, False),
    "wait_timeout": (INT, True),
    "event_scheduler": (SWITCH, True),
    "default_storage_engine": (STR, True),
    "default_tmp_storage_engine": (STR, True),
}

DEFAULT = object()
ERROR, ANY = "error", "any"  # must be refused; refused, or any value of the type


def literal(v):
    if isinstance(v, bool):
        return "ON" if v else "OFF"
    if v is None:
        return "NULL"
    if v is DEFAULT:
        return "DEFAULT"
    if isinstance(v, str):
        return "'" + v.replace("'", "''") + "'"
    return str(v)


def hinted(v):
    """ON and OFF aren't always understood in hints"""
    return literal(int(v) if isinstance(v, bool) else v)


VALUES = {
    INT: [(7, 7), (0, 0), (2147483648, 2147483648), ("5", 5), ("abc", ERROR), ("", ERROR), (True, ANY), (1.5, ANY)],
    BOOL: [(False, False), (True, True), (0, False), (1, True), ("OFF", False), ("on", True), ("maybe", ERROR), (2, ANY), ("", ANY)],
    STR: [("x y", "x y"), ("", ""), ("it's", "it's"), ("A,b-C", "A,b-C"), (5, "5"), (True, ANY), (1.5, ANY)],
    CHARSET: [("latin1", "latin1"), ("UTF8", "utf8"), ("ascii", "ascii"), ("nonsense", ANY), (5, ANY), ("", ANY)],
    COLLATION: [("latin1_bin", "latin1_bin"), ("utf8mb4_bin", "utf8mb4_bin"), ("nonsense", ANY), (5, ANY)],
    TZ: [("+05:30", "+05:30"), ("-08:00", "-08:00"), ("utc", "utc"), ("+00:00", "+00:00"), ("+13:45", "+13:45"), ("nonsense", ERROR), ("25:00", ERROR), ("+99:00", ANY), ("+5", ANY), ("+05:30x", ANY), ("-00:01", ANY), (5, ANY)],
    SWITCH: [(True, "ON"), (False, "OFF"), ("ON", "ON"), ("off", "OFF"), (1, "ON"), (0, "OFF"), ("DISABLED", "DISABLED")],
}
TRANSACTIONS = [
    ("SET TRANSACTION ISOLATION LEVEL READ COMMITTED", {"transaction_isolation": "READ-COMMITTED"}),
    ("SET SESSION TRANSACTION ISOLATION LEVEL SERIALIZABLE", {"transaction_isolation": "SERIALIZABLE"}),
    ("SET TRANSACTION READ ONLY", {"transaction_read_only": True}),
    ("SET TRANSACTION READ WRITE, ISOLATION LEVEL REPEATABLE READ", {"transaction_read_only": False, "transaction_isolation": "REPEATABLE-READ"}),
    ("set session transaction isolation level read committed, read only", {"transaction_read_only": True, "transaction_isolation": "READ-COMMITTED"}),
]
SPELLINGS = [
    lambda n, v: f"SET {n} = {v}",
    lambda n, v: f"SET SESSION {n} = {v}",
    lambda n, v: f"SET LOCAL {n} = {v}",
    lambda n, v: f"SET @@{n} = {v}",
    lambda n, v: f"SET @@SESSION.{n} = {v}",
    lambda n, v: f"SET @@local.{n} = {v}",
    lambda n, v: f"set session {n.upper()} = {v}",
    lambda n, v: f"set @@session.{n.upper()} = {v}",
]
C, CC, CR, LC = "character_set_client", "character_set_connection", "character_set_results", "collation_connection"


def values(name):
    """(value, what becomes of it)"""
    return VALUES[KNOWN[name][0]] + [(None, DEFAULT), (DEFAULT, DEFAULT)]


def assignments():
    """{name: [(text, what becomes of the variable)]}: every value, in one of the spellings"""
    out = {}
    k = 0
    for n, (t, dyn) in KNOWN.items():
        l = out[n] = []
        for v, want in values(n):
            if not dyn and v is not None:
                want = ERROR
            elif not dyn:
                want = ERROR
            l.append((SPELLINGS[k % len(SPELLINGS)](n, literal(v)), want))
            k += 1
    return out


def spellings():
    """Every variable in every spelling: [(name, text, what becomes of it)]"""
    out = []
    for n, (t, dyn) in KNOWN.items():
        good = [(v, w) for v, w in VALUES[t] if w not in (ERROR, ANY)]
        for i, s in enumerate(SPELLINGS):
            v, w = good[i % 2]
            out.append((n, s(n, literal(v)), w if dyn else ERROR))
    return out


def multi():
    """[(text, {name: value})], and None for texts that are refused"""
    return [
        ("SET sql_mode = 'a', @@session.wait_timeout = 5, autocommit = OFF", {"sql_mode": "a", "wait_timeout": 5, "autocommit": False}),
        ("SET SESSION wait_timeout = 6, LOCAL sql_mode = 'b', time_zone = '-03:00'", {"wait_timeout": 6, "sql_mode": "b", "time_zone": "-03:00"}),
        ("SET @@sql_mode = DEFAULT, @@local.wait_timeout = DEFAULT", {"sql_mode": DEFAULT, "wait_timeout": DEFAULT}),
        ("SET sql_mode = 'c', sql_mode = 'd'", {"sql_mode": "d"}),
        ("SET sql_mode = @@version", {"sql_mode": "@@version"}),
        ("SET net_buffer_length = @@session.wait_timeout", {"net_buffer_length": "@@wait_timeout"}),
        ("SET init_connect = @@sql_mode, sql_mode = 'e'", {"init_connect": "@@sql_mode", "sql_mode": "e"}),
        ("SET NAMES latin1", {C: "latin1", CC: "latin1", CR: "latin1", LC: "latin1_swedish_ci"}),
        ("SET NAMES 'utf8mb4'", {C: "utf8mb4", CC: "utf8mb4", CR: "utf8mb4", LC: ANY}),
        ("set names UTF8", {C: "utf8", CC: "utf8", CR: "utf8", LC: ANY}),
        ("SET NAMES latin1 COLLATE latin1_bin", {C: "latin1", CC: "latin1", CR: "latin1", LC: "latin1_bin"}),
        ("SET NAMES DEFAULT", {C: DEFAULT, CC: DEFAULT, CR: DEFAULT, LC: DEFAULT}),
        ("SET CHARACTER SET latin1", {C: "latin1", CR: "latin1", CC: "@@character_set_database"}),
        ("SET CHARSET 'utf8'", {C: "utf8", CR: "utf8", CC: "@@character_set_database"}),
        ("SET CHARACTER SET DEFAULT", {C: DEFAULT, CR: DEFAULT, CC: DEFAULT}),
    ] + TRANSACTIONS


def refused():
    """Statements that are refused, and the variables that may be different afterwards"""
    return [
        ("SET nope = 1", ()),
        ("SET @@nope = 1", ()),
        ("SET SESSION nope = DEFAULT", ()),
        ("SET sql_mode = 'z', nope = 1", ("sql_mode",)),
        ("SET sql_mode = 'z', version = '1'", ("sql_mode",)),
        ("SET version = DEFAULT, sql_mode = 'z'", ("sql_mode",)),
        ("SET NAMES nonsense", (C, CC, CR, LC)),
        ("SET CHARACTER SET nonsense", (C, CC, CR)),
        ("SELECT @@nope", ()),
        ("SELECT @@session.nope, @@sql_mode", ()),
        ("SELECT /*+ SET_VAR(nope = 1) */ a FROM db1.t", ()),
        ("SELECT /*+ SET_VAR(sql_mode = 'z') SET_VAR(nope = 1) */ a FROM db1.t", ()),
        ("SELECT /*+ SET_VAR(nope = 1) SET_VAR(sql_mode = 'z') */ a FROM db1.t", ()),
        ("SELECT /*+ SET_VAR(version = 'z') */ a FROM db1.t", ()),
        ("SELECT /*+ SET_VAR(sql_mode = 'z') SET_VAR(version = 'z') */ a FROM db1.t", ()),
        ("SELECT /*+ SET_VAR(version = 'z') SET_VAR(sql_mode = 'z') */ a FROM db1.t", ()),
        ("SELECT /*+ SET_VAR(sql_mode = 'z') SET_VAR(wait_timeout = 'abc') SET_VAR(time_zone = '+01:00') */ a FROM db1.t", ()),
        ("SELECT /*+ SET_VAR(wait_timeout = 'abc') */ 1", ()),
        ("SELECT /*+ SET_VAR(external_user = 'z') */ @@external_user", ()),
        ("SELECT /*+ SET_VAR(sql_mode = 'z') */ a FROM db1.t WHERE b = @@nope", ()),
    ]


def maybe():
    """Statements that may be refused; if they aren't, variables may be different afterwards"""
    return [
        ("SET GLOBAL sql_mode = 'g'", ()),
        ("SET @@global.sql_mode = 'g'", ()),
        ("SET PERSIST sql_mode = 'g'", ()),
        ("SET GLOBAL TRANSACTION READ ONLY", ()),
        ("SET @x = 1", ()),
        ("SET sql_mode = 1 + 1", ("sql_mode",)),
        ("SET sql_mode = ANSI", ("sql_mode",)),
        ("SET autocommit = TRUE", ("autocommit",)),
        ("SET wait_timeout = -1", ("wait_timeout",)),
    ]


def hints():
    """[(text, {name: value during the statement}, does it reach the application)]"""
    out = []
    for n, (t, dyn) in KNOWN.items():
        if not dyn:
            continue
        good = [(v, w) for v, w in VALUES[t] if w not in (ERROR, ANY)]
        (v, w), (v2, w2) = good[0], good[1]
        out.append((f"SELECT /*+ SET_VAR({n} = {hinted(v)}) */ a FROM db1.t", {n: w}, True))
        out.append((f"SELECT /*+ SET_VAR({n} = {hinted(v2)}) */ @@{n}", {n: w2}, False))
    out += [
        ("SELECT /*+ SET_VAR(sql_mode = 'h') SET_VAR(wait_timeout = 9) SET_VAR(time_zone = '+02:00') */ a FROM db1.t", {"sql_mode": "h", "wait_timeout": 9, "time_zone": "+02:00"}, True),
        ("SELECT /*+ SET_VAR(SQL_MODE = 'h') */ a FROM db1.t", {"sql_mode": "h"}, True),
        ("SELECT /*+ MAX_EXECUTION_TIME(1000) SET_VAR(sql_mode = 'h') */ a FROM db1.t", {"sql_mode": "h"}, True),
        ("SELECT /*+ MAX_EXECUTION_TIME(1000) */ a FROM db1.t", {}, True),
        ("SELECT a FROM db1.t WHERE a IN (SELECT /*+ SET_VAR(sql_mode = 'h') */ b FROM db1.u)", {"sql_mode": "h"}, True),
        ("SELECT /*+ SET_VAR(sql_mode = 'h') */ a FROM db1.t WHERE a IN (SELECT /*+ SET_VAR(wait_timeout = 9) */ b FROM db1.u)", {"sql_mode": "h", "wait_timeout": 9}, True),
        ("SELECT /*+ SET_VAR(sql_mode = 'h') */ a FROM db1.t UNION SELECT /*+ SET_VAR(autocommit = 0) */ b FROM db1.u", {"sql_mode": "h", "autocommit": False}, True),
        ("INSERT /*+ SET_VAR(sql_mode = 'h') */ INTO db1.t VALUES (1)", {"sql_mode": "h"}, True),
        ("SELECT /*+ SET_VAR(sql_mode = DEFAULT) SET_VAR(event_scheduler = OFF) */ a FROM db1.t", {"sql_mode": DEFAULT, "event_scheduler": "OFF"}, True),
        ("SELECT /*+ SET_VAR(sql_mode = 'h') */ a FROM db1.t WHERE b = @@sql_mode", {"sql_mode": "h"}, True),
        ("SELECT /*+ SET_VAR(sql_mode = 'h') */ table_name FROM information_schema.tables", {"sql_mode": "h"}, False),
        ("SELECT /*+ SET_VAR(time_zone = '+05:30') */ NOW() AS n, CURDATE() AS d, CURTIME() AS t", {"time_zone": "+05:30"}, False),
    ]
    return out


READ_ALL = "SELECT " + ", ".join(f"@@{n}" for n in KNOWN)
READ_ALL_2 = "SELECT " + ", ".join((f"@@session.{n}", f"@@SESSION.{n.upper()} AS v{i}", f"@@{n.upper()} AS w{i}")[i % 3] for i, n in enumerate(KNOWN))
TIMES = "SELECT NOW() AS n, CURDATE() AS d, CURTIME() AS t"
TIMES_2 = "SELECT CURRENT_TIMESTAMP AS n, CURRENT_DATE AS d, CURRENT_TIME AS t"
APP = "SELECT a FROM db1.t"
OTHERS = ["SHOW VARIABLES", "SELECT 1", "SHOW DATABASES", "SHOW WARNINGS", READ_ALL, READ_ALL_2, TIMES, TIMES_2, APP, "USE db1", "SELECT LOCALTIME() AS n, CURRENT_DATE() AS d, CURTIME() AS t"]


def texts():
    out = list(OTHERS)
    for l in assignments().values():
        out += [t for t, _ in l]
    out += [t for _, t, _ in spellings()]
    out += [x[0] for x in (*multi(), *refused(), *maybe(), *hints())]
    return list(dict.fromkeys(out))
