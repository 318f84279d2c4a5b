"""Writes sa/data/collations.json: MySQL's collations, according to two clients that are installed.

Run once:  /opt/venv/bin/python tools/mkcharsets.py
"""
import json
import os

from mysql.connector.charsets import MYSQL_CHARACTER_SETS
from pymysql.charset import _charsets

HERE = os.path.dirname(os.path.abspath(__file__))
out = {}
canon = lambda s: {"utf8mb3": "utf8"}.get(s, s)
for i, row in enumerate(MYSQL_CHARACTER_SETS):
    if row:
        out[i] = [row[1], canon(row[0])]
for i, c in _charsets._by_id.items():
    if i in out:
        if out[i][1] != canon(c.name):
            print("disagree:", i, out[i], c)
            del out[i]
    else:
        out[i] = [c.collation, canon(c.name)]
with open(os.path.join(HERE, "..", "sa", "data", "collations.json"), "w", encoding="utf-8") as f:
    f.write("{\n" + ",\n".join(f'"{i}": {json.dumps(v)}' for i, v in sorted(out.items())) + "\n}\n")
print(len(out))
