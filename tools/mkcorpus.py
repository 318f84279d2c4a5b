"""Writes sa/data/corpus.json: the syntax trees that sqlglot makes of a corpus of statements.

Facts about the library, needed by the analysis of the code that uses it.  Run once, with an
interpreter that has sqlglot:  /opt/venv/bin/python tools/mkcorpus.py
"""
import enum
import json
import logging
import os
import sys

from sqlglot import expressions as exp
from sqlglot.dialects import MySQL
from sqlglot.errors import ParseError

logging.disable(logging.CRITICAL)
HERE = os.path.dirname(os.path.abspath(__file__))
TEXTS = os.path.join(HERE, "..", "sa", "data", "corpus.txt")
sys.path.insert(0, os.path.join(HERE, ".."))

from sa import cattexts, conntexts, csettexts, idtexts, vartexts  # noqa: E402


def dump(e):
    if isinstance(e, exp.Expression):
        a = {k: dump(v) for k, v in e.args.items()}
        d = {"c": type(e).__name__, "a": a}
        if e.comments:
            d["m"] = e.comments
        return d
    if isinstance(e, list):
        return [dump(x) for x in e]
    if isinstance(e, enum.Enum):
        return {"e": type(e).__qualname__, "n": e.name}
    assert e is None or isinstance(e, (str, int, bool, float)), e
    return e


def parse(kind, text, out):
    try:
        out[text] = {"kind": kind, "parse": [dump(e) for e in MySQL().parse(text)]}
    except ParseError:
        print("doesn't parse:", text)


def write(name, out):
    with open(os.path.join(HERE, "..", "sa", "data", name), "w", encoding="utf-8") as f:
        f.write("{\n" + ",\n".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in out.items()) + "\n}\n")
    print(name, len(out), "texts")


def main():
    out = {}
    with open(TEXTS, encoding="utf-8") as f:
        for line in f.read().splitlines():
            if not line or line.startswith("#"):
                continue
            kind, _, text = line.partition("\t")
            parse(kind, text, out)
    write("corpus.json", out)
    out = {}
    for text in vartexts.texts():
        parse("", text, out)
    write("variables.json", out)
    out = {}
    for text in cattexts.texts():
        parse("", text, out)
    write("catalog.json", out)
    out = {}
    for text in csettexts.texts():
        parse("", text, out)
    write("charsets.json", out)
    out = {}
    for text in conntexts.texts():
        parse("", text, out)
    write("connections.json", out)
    out = {}
    for text in idtexts.texts():
        parse("", text, out)
    write("ids.json", out)


if __name__ == "__main__":
    main()
