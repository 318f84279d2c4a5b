"""Obligations, findings and evidence of a check"""
from __future__ import annotations

import json
import os
import select
import shlex
import time
import traceback
import warnings

from .engine import MissingEntry, Program, explore
from .values import show, AV

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("SA_OUT") or os.path.join(VERIF, "evidence")


class Report:
    def __init__(self, prop, title=""):
        self.prop, self.title = prop, title
        self.t0 = time.time()
        self.obligations = {}  # (rule, site) -> [ok, violated, undecided]
        self.findings = {}  # (rule, site) -> info
        self.undecided = {}
        self.entries = []
        self.paths = 0
        self.statuses = {}
        self.samples = []
        self.rules = {}
        self.assumptions = []
        self.visited = set()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- obligations

    def rule(self, rule, text):
        self.rules[rule] = text

    def ob(self, rule, site, ok, message="", where=None, detail=None, path=None):
        where = where or (path.data.get("where") if path is not None else None)
        """Record an instance of a rule: ok is True, False or None (undecided)"""
        c = self.obligations.setdefault((rule, site), [0, 0, 0])
        if ok is True:
            c[0] += 1
        elif ok is False:
            c[1] += 1
            if (rule, site) not in self.findings:
                info = dict(rule=rule, site=site, message=message, where=where or "", detail=_txt(detail))
                if path is not None:
                    info["where"] = where or path.where()
                    info["stack"] = path.callers()
                    info["decisions"] = [f"{_txt(l)} -> {'yes' if n == 2 and ch == 0 else 'no' if n == 2 else ch}" for n, ch, l in path.decisions]
                self.findings[(rule, site)] = info
        else:
            c[2] += 1
            self.undecided.setdefault((rule, site), message or "")
        return ok

    def absorb(self, path):
        """Violations recorded on a path"""
        for v in path.violations:
            self.ob(v["rule"], v.get("site") or v["func"], False, v["message"], where=v["where"], detail=v.get("detail"))
            info = self.findings[(v["rule"], v.get("site") or v["func"])]
            info.setdefault("stack", v["stack"])
            info.setdefault("decisions", v["decisions"])

    def section(self, fn, *args):
        """Part of a check.  What can't be analysed leaves its obligations undecided"""
        if os.environ.get("SA_ONLY") and fn.__name__ not in os.environ["SA_ONLY"].split(","):
            return
        try:
            fn(*args)
        except MissingEntry:
            raise
        except Exception as e:  # pylint: disable=broad-except
            if os.environ.get("SA_DEBUG"):
                raise
            self.ob("analysis", fn.__name__, None, f"{type(e).__name__}: {e}")

    def parallel(self, parts, jobs=None):
        """Sections in processes of their own: [(function, args..)].  What they report is merged in order"""
        jobs = jobs or min(8, os.cpu_count() or 1)
        parts = list(parts)
        if jobs < 2 or len(parts) < 2 or os.environ.get("SA_SERIAL"):
            for p in parts:
                self.section(*p)
            return
        todo = list(enumerate(parts))[::-1]
        running, done = {}, {}
        while todo or running:
            while todo and len(running) < jobs:
                i, p = todo.pop()
                r, w = os.pipe()
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    pid = os.fork()
                if not pid:
                    self._child(r, w, p)
                os.close(w)
                running[r] = (i, pid, [])
            for r in select.select(list(running), [], [])[0]:
                data = os.read(r, 1 << 20)
                if data:
                    running[r][2].append(data)
                    continue
                i, pid, got = running.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                done[i] = b"".join(got)
        for i, p in enumerate(parts):
            if not done[i]:
                self.ob("analysis", p[0].__name__, None, "the process of this section ended")
                continue
            self._merge(json.loads(done[i]))

    def _child(self, r, w, p):
        rc = 1
        try:
            os.close(r)
            for x in (self.obligations, self.findings, self.undecided, self.statuses, self.entries, self.samples, self.visited):
                x.clear()
            self.paths = 0
            missing = None
            try:
                self.section(*p)
            except MissingEntry as e:
                missing = str(e)
            pairs = lambda d: [[list(k), v] for k, v in d.items()]
            out = dict(obligations=pairs(self.obligations), findings=pairs(self.findings), undecided=pairs(self.undecided), statuses=self.statuses,
                       entries=self.entries, samples=self.samples, visited=sorted(self.visited), paths=self.paths, missing=missing)
            data = json.dumps(out, default=str).encode()
            while data:
                data = data[os.write(w, data):]
            rc = 0
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
        finally:
            os._exit(rc)

    def _merge(self, d):
        if d["missing"] is not None:
            raise MissingEntry(d["missing"])
        for k, c in d["obligations"]:
            have = self.obligations.setdefault(tuple(k), [0, 0, 0])
            for i in range(3):
                have[i] += c[i]
        for k, v in d["findings"]:
            self.findings.setdefault(tuple(k), v)
        for k, v in d["undecided"]:
            self.undecided.setdefault(tuple(k), v)
        for k, n in d["statuses"].items():
            self.statuses[k] = self.statuses.get(k, 0) + n
        self.entries += d["entries"]
        self.samples = (self.samples + d["samples"])[:6]
        self.visited |= set(d["visited"])
        self.paths += d["paths"]

    def count(self, res):
        """A path that was explored by the check itself"""
        self.paths += 1
        self.statuses[res.status] = self.statuses.get(res.status, 0) + 1

    # -- exploration

    def explore(self, program, client, run, name, max_paths=4000, budget_s=None, each=None):
        """Explore the paths of an entry point"""
        t = time.time()
        n = und = 0
        reasons = {}
        out = []
        try:
            for res in explore(program, client, run, max_paths=max_paths, deadline=t + budget_s if budget_s else None):
                n += 1
                self.statuses[res.status] = self.statuses.get(res.status, 0) + 1
                if res.status in ("undecided", "cut", "budget"):
                    und += res.status != "cut"
                    reasons[res.status + ": " + (res.reason or "")] = reasons.get(res.status + ": " + (res.reason or ""), 0) + 1
                if each is not None and res.status != "budget":
                    # facts of the path can be asked for
                    program.path = res.path
                    try:
                        each(res)
                    except (MissingEntry, KeyboardInterrupt):
                        raise
                    except BaseException as e:  # pylint: disable=broad-except
                        if os.environ.get("SA_DEBUG"):
                            raise
                        self.ob("analysis", name, None, f"{type(e).__name__}: {e}")
                    finally:
                        program.path = None
                self.absorb(res.path) if hasattr(res.path, "violations") else None
                if len(self.samples) < 6 and res.status in ("ok", "raise") and n in (1, 7, 40):
                    self.samples.append(dict(entry=name, outcome=res.status, path=[f"{_txt(l)} -> {c}" for _, c, l in res.path.decisions][:30]))
        finally:
            self.visited |= program.interp.visited
            self.paths += n
            self.entries.append(dict(entry=name, paths=n, undecided=und, wall_s=round(time.time() - t, 2), not_followed=dict(sorted(reasons.items(), key=lambda x: -x[1])[:8])))
        return out

    # -- output

    def finish(self):
        known = load_known(self.prop)
        rc = 0
        os.makedirs(OUT, exist_ok=True)
        new, old = [], []
        for (rule, site), f in sorted(self.findings.items()):
            k = next((k for k in known if k["rule"] == rule and k["site"] == site and (not k.get("detail") or k["detail"] == f.get("detail", ""))), None)
            (old if k else new).append((f, k))
        for f, k in old:
            print(f"KNOWN-FINDING: property={self.prop} {k['text']}")
        replay = os.path.join(OUT, f"{self.prop}.violation.txt")
        if os.path.exists(replay):
            os.remove(replay)
        if new:
            rc = 1
            with open(replay, "w", encoding="utf-8") as fh:
                for f, _ in new:
                    fh.write(f"property {self.prop}: rule {f['rule']} violated by {f['site']}\n  {f['message']}\n  at {f['where']}\n")
                    if f.get("detail"):
                        fh.write(f"  detail: {f['detail']}\n")
                    for s in f.get("stack", []):
                        fh.write(f"    called through {s}\n")
                    for d in f.get("decisions", []):
                        fh.write(f"    path: {d}\n")
                    fh.write("\n")
            for f, _ in new:
                print(f"  [{f['rule']}] {f['site']}: {f['message']} ({f['where']})")
            print(f"VIOLATION property={self.prop} replay={replay}")
        n_ob = len(self.obligations)
        n_ok = sum(1 for c in self.obligations.values() if c[0] and not c[1] and not c[2])
        n_und = sum(1 for c in self.obligations.values() if c[2] and not c[1])
        by_rule = {}
        for (rule, site), c in self.obligations.items():
            d = by_rule.setdefault(rule, {"instances": 0, "held": 0, "violated": 0, "undecided": 0})
            d["instances"] += 1
            d["violated" if c[1] else "undecided" if c[2] else "held"] += 1
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level="other",
            coverage=dict(
                explanation="Path-sensitive abstract interpretation of the parsed source (no execution, no solver). "
                "An obligation is a rule instance at a program construct; it counts as held if it held on every explored abstract path that reaches it.",
                rules=self.rules,
                per_rule=by_rule,
                obligation_instances=n_ob,
                obligations_held=n_ok,
                obligations_undecided=n_und,
                undecided=[f"{r} @ {s}: {m}" for (r, s), m in sorted(self.undecided.items())][:40],
                sites=sorted({s for _, s in self.obligations})[:200],
                entry_points=self.entries,
                abstract_paths=self.paths,
                path_outcomes=self.statuses,
                functions_analysed=sorted(self.visited),
                samples=self.samples,
            ),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(new),
        )
        with open(os.path.join(OUT, f"{self.prop}.json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1)
        print(f"{self.prop}: {n_ob} obligations, {n_ok} held, {n_und} undecided, {len(new)} violated, {len(old)} known; "
              f"{self.paths} abstract paths, {len(self.visited)} functions, {ev['wall_s']} s")
        return rc


def _txt(v):
    if v is None:
        return ""
    if isinstance(v, AV) or isinstance(v, tuple):
        return show(v)
    return str(v)


def load_known(prop):
    """known_findings.txt: 'known: property=<id> rule=<rule> site=<site> [detail=<detail>] :: <text>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    with open(p, encoding="utf-8") as fh:
        for line in fh:
            if not line.startswith("known: "):
                continue
            head, _, text = line[7:].partition(" :: ")
            kv = dict(x.split("=", 1) for x in shlex.split(head) if "=" in x)
            if kv.get("property") == prop:
                out.append(dict(rule=kv["rule"], site=kv["site"], detail=kv.get("detail"), text=text.strip()))
    return out
