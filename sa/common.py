"""Reporting shared by all checks: instances analysed, violations, known findings, evidence, exit status."""
import hashlib
import json
import os
import pathlib
import re
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("TNCO_REPO", "/repo"))
KNOWN = ROOT / "known_findings.txt"


def rel(path):
    try:
        return str(pathlib.Path(path).resolve().relative_to(REPO.resolve()))
    except ValueError:
        return str(path)


class Check:
    """One run of one property's check.

    `instance(rule, what)` records an obligation that was examined, `violation(rule, key, where, msg)` one that failed.
    Findings are keyed by (rule, key): `key` names the construct (function, class, call), never a line number.
    """

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.instances = []
        self.viol = []
        self.notes = []
        self.analysed = {}
        self.assumptions = []
        self.seen = set()

    def instance(self, rule, what):
        self.instances.append((rule, what))

    def note(self, msg):
        self.notes.append(msg)

    def assume(self, msg):
        if msg not in self.assumptions:
            self.assumptions.append(msg)

    def violation(self, rule, key, where, msg):
        k = (rule, key)
        if k in self.seen:
            return
        self.seen.add(k)
        self.viol.append({"rule": rule, "key": key, "where": where, "message": msg})

    def require(self, rule, n):
        """The rule is expected to match at least n constructs; if nothing at all was examined the analysis is broken."""
        got = sum(1 for r, _ in self.instances if r == rule)
        if got < n:
            if not self.instances:
                raise AnalysisBroken(f"rule {rule}: nothing examined")
            self.note(f"rule {rule}: {got} constructs examined, {n} expected")
            print(f"  undecided: rule {rule} found {got} constructs, {n} expected")

    def known(self):
        out = {}
        if KNOWN.exists():
            for line in KNOWN.read_text().splitlines():
                m = re.match(r"known: property=(\S+) rule=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.pid:
                    out[(m.group(2), m.group(3))] = m.group(4)
        return out

    def finish(self):
        known = self.known()
        new = []
        for v in self.viol:
            k = (v["rule"], v["key"].replace(" ", "_"))
            if k in known:
                print(f"KNOWN-FINDING: property={self.pid} {v['rule']} {v['key']}: {known[k]}")
            else:
                new.append(v)
        rules = {}
        for r, w in self.instances:
            rules.setdefault(r, []).append(w)
        ev = {
            "property": self.pid,
            "tier": os.environ.get("VERIF_TIER", "quick"),
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "other",
            "coverage": {
                "explanation": "static analysis of the current source of /repo: rules and the constructs each was applied to",
                "obligations": len(self.instances),
                "discharged": len(self.instances) - min(len(self.instances), len(self.viol)),
                "rules": {r: {"count": len(w), "constructs": sorted(set(w))[:200]} for r, w in sorted(rules.items())},
                "analysed": self.analysed,
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
            "findings": self.viol,
            "assumptions": self.assumptions,
        }
        d = ROOT / "evidence"
        d.mkdir(exist_ok=True)
        f = d / f"{self.pid}.json"
        f.write_text(json.dumps(ev, indent=1, default=str) + "\n")
        print(f"{self.pid}: {len(self.instances)} obligations over {len(rules)} rules, {len(new)} violations, {ev['wall_s']} s")
        for v in new:
            print(f"  {v['where']}: [{v['rule']}] {v['message']}")
        if new:
            print(f"VIOLATION property={self.pid} replay={f}")
            return 1
        return 0


class AnalysisBroken(Exception):
    pass


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
    except AnalysisBroken as e:
        print(f"{pid}: analysis broken: {e}", file=sys.stderr)
        if not c.viol:
            return 3
    except Exception:
        traceback.print_exc()
        if not c.viol:
            return 4
    return c.finish()


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(map(str, paths)):
        h.update(p.encode() + b"\0" + pathlib.Path(p).read_bytes() + b"\0")
    return h.hexdigest()[:24]
