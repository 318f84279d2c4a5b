"""Statements that name connections"""

IDS = [7, 0, 65536, 0x80000001, 0xFFFFFFFF]
OWN = ["SELECT CONNECTION_ID()", "select connection_id() as c"]
# beyond 32 bits, there's no connection
KILLS = [(f"KILL {n}", n, "CONNECTION") for n in IDS + [0x100000007]] + [(f"KILL QUERY {n}", n, "QUERY") for n in IDS] + [(f"KILL CONNECTION {n}", n, "CONNECTION") for n in (65543, 0x80000001)] + [
    ("kill query 65543", 65543, "QUERY"), ("kill 65543", 65543, "CONNECTION"), ("Kill Connection 65543", 65543, "CONNECTION"),
]


def texts():
    return list(dict.fromkeys(OWN + [k[0] for k in KILLS]))
