"""python3 -m sa.check C01 [C02 ...]"""
from __future__ import annotations

import importlib
import os
import sys
import threading
import traceback


def main(argv):
    rc = 0
    for prop in argv:
        from .engine import MissingEntry, Undecided
        from .report import Report

        mod = importlib.import_module(f"sa.props.{prop.lower()}")
        rep = Report(prop)
        try:
            mod.check(rep)
        except MissingEntry as e:
            print(f"{prop}: analysis broken: entry point {e} is gone", file=sys.stderr)
            rc = max(rc, 2)
            continue
        except Exception:  # pylint: disable=broad-except
            traceback.print_exc()
            if not rep.findings and not rep.obligations:
                rc = max(rc, 2)
                continue
            rep.ob("analysis", "check", None, "the analysis broke off")
        rc = max(rc, rep.finish()) if rc != 2 else 2
    return rc


def run():
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)


if __name__ == "__main__":
    run()
