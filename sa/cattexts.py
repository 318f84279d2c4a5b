"""Schemas, and the statements that list them (C16)"""
from __future__ import annotations

import re

# name: (depth, mapping)
D2 = {
    "zoo": {"zeta": "INT", "alpha": "VARCHAR(20)", "m10": "TEXT", "m9": "TEXT", "m_1": "DOUBLE", "mx1": "BIGINT"},
    "t": {"id": "INT"},
    "t1": {"id": "BIGINT", "t": "TEXT"},
    "t_1": {"b": "INT", "a": "INT"},
    "tx1": {"id": "INT"},
    "order": {"group": "INT", "key": "TEXT", "c$1": "INT"},
}
D2_BARE = {"bare": {}, "users": {"id": "INT", "name": "TEXT"}, "user": {"name": "TEXT", "id": "INT"}, "user_roles": {}, "userroles": {"role": "TEXT"}}
D3 = {
    "db1": {
        "users": {"name": "TEXT", "id": "INT", "created_at": "DATETIME", "createdxat": "DATE"},
        "orders": {"c12": "INT", "c3": "TEXT", "c1": "INT", "c11": "INT", "c2": "INT", "c10": "INT", "c4": "INT", "c9": "INT", "c5": "INT", "c8": "INT", "c6": "INT", "c7": "INT"},
        "bare": {},
        "user": {"id": "INT"},
    },
    "db2": {"users": {"id": "VARCHAR(36)", "email": "TEXT"}, "items": {"id": "INT", "name": "TEXT"}},
    "db_1": {"t": {"a": "INT", "b": "INT"}},
    "dbx1": {"t": {"b": "TEXT"}, "t2": {"x": "INT"}},
    "void": {},
}
D3_FIRST = {"void": {}, "db1": {"bare": {}, "users": {"id": "INT"}}, "db2": {"t": {"a": "INT"}}}
D3_OWN = {"mysql": {"extra": {"k": "INT", "v": "TEXT"}}, "db1": {"tables": {"id": "INT", "legs": "INT"}, "columns": {"c": "TEXT"}, "users": {"id": "INT"}}}
D4 = {
    "def": {"db1": {"users": {"id": "INT", "name": "TEXT"}, "bare": {}}, "void": {}},
    "other": {"db2": {"users": {"email": "TEXT", "id": "VARCHAR(36)"}, "t": {"a": "INT", "b": "DATE"}}},
    "nothing": {},
}
D4_ONE = {"cat": {"db1": {"orders": {"total": "DOUBLE", "id": "INT"}, "t": {"z": "INT", "y": "INT", "x": "INT"}}}}
D4_FIRST = {"nothing": {}, "def": {"void": {}, "db2": {"bare": {}, "t": {"a": "INT"}}, "db1": {"users": {"id": "INT", "b": "INT"}}}}
D4_SAME = {
    "def": {"db1": {"users": {"id": "INT", "name": "TEXT"}, "t": {"a": "INT"}}, "only": {}},
    "other": {"db1": {"users": {"email": "TEXT", "id": "VARCHAR(36)"}, "u": {"b": "INT", "a": "TEXT"}}, "db2": {"users": {"x": "INT"}}},
}
ONE = {"users": {"id": "INT"}}

SCHEMAS = {
    "tables": (2, D2), "tables, the first without columns": (2, D2_BARE), "one table": (2, ONE), "databases": (3, D3), "databases, the first without tables": (3, D3_FIRST),
    "databases named as built-in ones": (3, D3_OWN), "catalogs": (4, D4), "one catalog": (4, D4_ONE), "catalogs, the first without databases": (4, D4_FIRST),
}
# databases of the same name: only statements about catalogs are clear
SAME = {"catalogs with databases of the same name": (4, D4_SAME)}

PATTERNS = [
    "t", "t%", "t_", "t_1", "t\\_1", "%", "%1", "_", "__", "user", "user%", "user_", "users", "%user%", "%s", "%e%r%", "%s%e%", "u%s", "_ser_", "", "%%", "%_%", "_%_", "db_1", "db\\_1",
    "db%", "%b_", "t.1", ".*", "[a-z]%", "t|users", "%o_d%", "or%er", "i%d", "id", "%a%", "created_at", "created\\_at", "c1", "c1%", "c_", "c\\_", "c$1", "m_1", "m\\_1", "m%", "(%", "a+", "%t", "d", "schemata", "sch%", "name", "_ame", "%n", "%\\%", "in%s_schema", "e%e",
    "us%ers%", "s", "s%s", "%u%s%r%", "user_s", "t1", "%or%or%", "ord_r", "ta%es", "%c%c", "%1%1",
]
VARIABLE_PATTERNS = [
    "version", "version%", "%version", "v_rsion", "char%", "character_set_%", "character\\_set\\_%", "%timeout", "%_timeout%", "wait_timeout", "sql%", "_", "%", "", "tx%", "time_zone", "%time_zone",
    "%a%o%", "auto%", "autocommit", "max_", "lower.*", "n%t", "col%_server", "license_", "%o", "%_", "wait%timeout", "no such", "s%", "%e_e%e", "%i%i%", "%t%t%t", "%r%_%r", "%\\_%e", "%s_t%",
]


def quote(s):
    return "'" + s.replace("'", "''") + "'"


def ident(s):
    return f"`{s}`" if s in ("order", "key", "group", "columns", "tables") or "$" in s else s


def dbs_of(depth, m):
    """{catalog: {db: {table: columns}}}"""
    if depth == 2:
        m = {"": m}
    if depth <= 3:
        m = {"def": m}
    return m


def overall(name):
    """Statements about everything: (text, what, arguments)"""
    return [
        ("SELECT table_schema, table_name, column_name, ordinal_position, table_catalog FROM information_schema.columns", "positions", ()),
        ("SELECT catalog_name, schema_name FROM information_schema.schemata", "catalogs of databases", ()),
        ("SELECT table_catalog, table_schema, table_name FROM information_schema.tables", "catalogs of tables", ()),
        ("SELECT table_catalog, table_schema, table_name, column_name, data_type FROM information_schema.columns", "catalogs of columns", ()),
    ]


def wanted(name, cols_like=None):
    """Statements for a schema: (text, what, arguments)"""
    depth, m = SCHEMAS[name]
    out = []
    full = name in ("tables", "databases", "catalogs")
    pats = PATTERNS if full else PATTERNS[::5]
    out.append(("SHOW DATABASES", "databases", ()))
    out.append(("SHOW SCHEMAS", "databases", ()))
    out.append(("SELECT schema_name FROM information_schema.schemata", "databases", ()))
    out.append(("select SCHEMA_NAME from INFORMATION_SCHEMA.SCHEMATA order by schema_name", "databases", ()))
    out.append(("SELECT table_schema, table_name FROM information_schema.tables", "all tables", ()))
    out.append(("SELECT table_schema, table_name, column_name, data_type FROM information_schema.columns", "all columns", ()))
    out.append(("SELECT table_schema, table_name, column_name, column_type FROM information_schema.columns", "all columns", ()))
    for p in pats:
        out.append((f"SHOW DATABASES LIKE {quote(p)}", "databases", (p,)))
    for p in pats[::4]:
        out.append((f"SELECT schema_name FROM information_schema.schemata WHERE schema_name LIKE {quote(p)}", "databases", (p,)))
    dbs = []
    for c, ds in dbs_of(depth, m).items():
        for db, ts in ds.items():
            dbs.append((db, ts))
    if depth > 2:
        for db, ts in dbs + [("mysql", {}), ("information_schema", {}), ("absent", {})]:
            out.append((f"SHOW TABLES FROM {db}", "tables", (db,)))
            out.append((f"SHOW FULL TABLES FROM `{db}`", "tables", (db,)))
            out.append((f"SELECT table_name FROM information_schema.tables WHERE table_schema = {quote(db)}", "tables", (db,)))
            out.append((f"SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = {quote(db)} ORDER BY TABLE_NAME", "tables", (db,)))
            for p in pats if db in ("db1",) else pats[::6]:
                out.append((f"SHOW TABLES FROM {db} LIKE {quote(p)}", "tables", (db, p)))
            for t, cs in list(ts.items()) + [("missing", {})] + ([("schemata", {})] if db == "information_schema" else []):
                t_ = ident(t)
                out.append((f"SHOW COLUMNS FROM {t_} FROM {db}", "columns", (db, t)))
                out.append((f"SHOW FULL COLUMNS FROM `{t}` FROM `{db}`", "columns", (db, t)))
                out.append((f"DESCRIBE {db}.{t_}", "columns", (db, t)))
                out.append((f"SELECT column_name, data_type FROM information_schema.columns WHERE table_schema = {quote(db)} AND table_name = {quote(t)}", "columns", (db, t)))
                out.append((f"SELECT column_name, column_type FROM information_schema.columns WHERE table_schema = {quote(db)} AND table_name = {quote(t)} ORDER BY ordinal_position", "columns", (db, t)))
                if t in ("users", "orders") and db == "db1":
                    for p in pats:
                        out.append((f"SHOW COLUMNS FROM {t_} FROM {db} LIKE {quote(p)}", "columns", (db, t, p)))
                    for p in pats[::5]:
                        out.append((f"SELECT column_name, data_type FROM information_schema.columns WHERE table_name = {quote(t)} AND column_name LIKE {quote(p)} AND table_schema = {quote(db)}", "columns", (db, t, p)))
    else:
        for db in ("mysql", "information_schema", "absent"):
            out.append((f"SHOW TABLES FROM {db}", "tables", (db,)))
            for p in pats[::3]:
                out.append((f"SHOW TABLES FROM {db} LIKE {quote(p)}", "tables", (db, p)))
        for t in [t for t in m if t != "user"] + ["missing"]:
            out.append((f"SELECT column_name, data_type FROM information_schema.columns WHERE table_name = {quote(t)}", "columns", (None, t)))
            out.append((f"SELECT column_name, column_type FROM information_schema.columns WHERE table_name = {quote(t)} ORDER BY ordinal_position", "columns", (None, t)))
    return out


def current(name):
    """Statements for the current database: (database, text, what, arguments)"""
    depth, m = SCHEMAS[name]
    out = []
    pats = PATTERNS[::3] if name in ("tables", "databases", "catalogs") else PATTERNS[::9]
    dbs = [None] if depth == 2 else [db for ds in dbs_of(depth, m).values() for db in ds][:4]
    for db in dbs:
        ts = m if depth == 2 else next(ds[db] for ds in dbs_of(depth, m).values() if db in ds)
        if db is not None:
            out.append((db, "SHOW TABLES", "tables", (db,)))
            out.append((db, "SHOW FULL TABLES", "tables", (db,)))
            for p in pats:
                out.append((db, f"SHOW TABLES LIKE {quote(p)}", "tables", (db, p)))
            out.append((db, "SHOW TABLES FROM mysql", "tables", ("mysql",)))
        out.append((db, "SHOW DATABASES", "databases", ()))
        for t in [t for t in ts if db or t != "user"] + ["missing"]:
            t_ = ident(t)
            out.append((db, f"SHOW COLUMNS FROM {t_}", "columns", (db, t)))
            out.append((db, f"SHOW FULL COLUMNS FROM `{t}`", "columns", (db, t)))
            out.append((db, f"DESCRIBE {t_}", "columns", (db, t)))
            out.append((db, f"DESC `{t}`", "columns", (db, t)))
            if t in ("users", "zoo", "orders"):
                for p in pats:
                    out.append((db, f"SHOW COLUMNS FROM {t_} LIKE {quote(p)}", "columns", (db, t, p)))
            if db in ("db1", None):
                out.append((db, t, "field list", (db, t)))
                for p in pats[::3] + [""]:
                    out.append((db, t, "field list", (db, t, p)))
    if depth > 2:
        other = dbs[1]if len(dbs) > 1 else "mysql"
        out.append((dbs[0], f"SHOW TABLES FROM {other}", "tables", (other,)))
        out.append((dbs[0], f"SHOW COLUMNS FROM users FROM {other}", "columns", (other, "users")))
    return out


def like(pattern, s, fold=False):
    """SQL's LIKE"""
    if fold:
        pattern, s = pattern.lower(), s.lower()
    toks = re.findall(r"\\.|.", pattern, re.S)
    states = {0}

    def close(st):
        out = set(st)
        for i in sorted(st):
            while i < len(toks) and toks[i] == "%":
                i += 1
                out.add(i)
        return out

    states = close(states)
    for ch in s:
        new = set()
        for i in states:
            if i == len(toks):
                continue
            t = toks[i]
            if t == "%":
                new.add(i)
            elif t == "_" or t[-1] == ch and not (len(t) == 1 and t == "_"):
                new.add(i + 1)
        states = close(new)
    return len(toks) in states


def show_sql(table, wildcard):
    """Statements that are equivalent to COM_FIELD_LIST"""
    w = " LIKE " + quote(wildcard).replace("\\", "\\\\") if wildcard else ""
    return [f"SHOW COLUMNS FROM `{table}`{w}", f"SHOW COLUMNS FROM {ident(table)}{w}", f"SHOW FULL COLUMNS FROM `{table}`{w}"]


def texts():
    seen = {}
    for t, _, _ in overall(""):
        seen[t] = 1
    for n in SCHEMAS:
        for t, _, _ in wanted(n):
            seen[t] = 1
        for _, t, what, args in current(n):
            if what == "field list":
                for x in show_sql(t, args[2] if len(args) > 2 else ""):
                    seen[x] = 1
            else:
                seen[t] = 1
    for p in VARIABLE_PATTERNS:
        seen[f"SHOW VARIABLES LIKE {quote(p)}"] = 1
        seen[f"SHOW SESSION VARIABLES LIKE {quote(p)}"] = 1
    for t in ("SHOW COLUMNS FROM user", "DESCRIBE users", "SHOW VARIABLES", "USE db1", "USE db2", "USE `db1`", "SHOW TABLES", "SHOW COLUMNS FROM users", "SELECT DATABASE()"):
        seen[t] = 1
    return list(seen)
