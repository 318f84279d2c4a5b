"""Writes MANIFEST.json: a check for every property that has a client in sa/props"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "path-sensitive abstract interpretation of the source"
NOTE = (
    "Static: decided from the parsed source of /repo/mysql_mimic on every run; nothing of the repository is executed, and no solver is used. "
    "Inter-procedural over all callees inside the package; loops over unknown sequences are followed for a bounded number of elements, then cut. "
    "Alarms only on a definite mismatch; what the analysis can't decide is reported as undecided in the evidence. "
    "Trusted: the model of Python, asyncio, struct and sqlglot in sa/models.py. "
)
T = {
    "C01": ("typestate of the connection's authentication state on every abstract path of Connection.start", "At most two commands after the handshake; two challenge rounds per exchange."),
    "C02": ("value numbering (Herbrand terms) of the scramble and nonce computations, guards of every Success", "SHA functions are uninterpreted; the secret's equality test is decided by provenance."),
    "C03": ("packet byte-layout classification against a response grammar (automaton) on every abstract path per command", "Two columns, at most two rows; the capability DEPRECATE_EOF both ways."),
    "C04": ("framing contract of MysqlStream by interval partition and byte-layout terms", "Payloads of up to two full packets and a rest; any segmentation of a header."),
    "C05": ("encoder layouts per column type and value class against the wire format, by byte-layout terms, in both protocols", "Numeric formatting by the host language is uninterpreted."),
    "C06": ("taint (provenance) of parameters in the statement text; tokenizer state machine extracted by abstract interpretation", "Templates are enumerated over token classes."),
    "C07": ("progress and bounds rules on readers and loops over untrusted data", "Loops driven by the application aren't bounded."),
    "C08": ("non-interference by abstract interpretation: transcript of every connection beside another compared with its own alone, over hand-off schedules at every suspension; effect analysis of writes to shared objects names the place", "Client programs and schedules are enumerated; two connections per run."),
    "C09": ("typestate with kill and cancellation edges at every suspension point", "At most two kills per history."),
    "C10": ("typestate of init/close, socket and registry over all exits, with fault edges at every suspension point", "One fault per history (two in the thorough tier)."),
    "C11": ("per-cursor position automaton over histories of commands, rows identified by provenance", "Histories of up to seven commands; up to three rows per loop."),
    "C12": ("pull/write event order on the row loops; back-pressure and cooperative-yield rules", "Rows are followed for a bounded number of iterations."),
    "C13": ("dispatch partition over the statement classes of sqlglot, effect and provenance rules on the session", "sqlglot's parser is trusted; statements are abstract syntax trees by class."),
    "C14": ("value contracts of the variable store by abstract interpretation over all declared variables", "Value classes are enumerated per type."),
    "C15": ("provenance of the codec at every encode/decode, evaluated character set tables", "The codecs of Python are trusted."),
    "C16": ("row shapes and query templates of the catalog by abstract interpretation", "sqlglot's executor is trusted."),
    "C17": ("read-sequence grammar of the parameter block by byte-layout terms", "At most two attributes and two parameters."),
    "C18": ("interval and bit-layout contract of ids, typestate of the registry", "Ids and registry content are symbolic."),
}
NA = {}
checks, na = [], []
for c, (t, lim) in T.items():
    if os.path.exists(os.path.join(HERE, "sa", "props", c.lower() + ".py")):
        checks.append(dict(property=c, quick_cmd=f"python3 -m sa.check {c}", thorough_cmd=f"VERIF_TIER=thorough python3 -m sa.check {c}",
                           technique=f"static analysis: {t}", level="other", level_note=NOTE + "Bounds: " + lim))
    else:
        na.append(dict(property=c, reason=NA.get(c, "no check yet")))
m = dict(version=1, setup_cmd="python3 -m compileall -q sa", checks=checks, not_applicable=na,
         notes="The repository carries no hooks. SA_REPO=<dir> analyses another tree than /repo (for experiments).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
