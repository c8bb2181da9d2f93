"""Findings, known findings, evidence and exit codes."""
from __future__ import annotations

import json
import os
import re
import sys
import time

from .index import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule: str, construct: str, where: str, message: str):
        self.rule, self.construct, self.where, self.message = rule, construct, where, message

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


class Result:
    """What one rule module hands back."""

    def __init__(self, explanation: str):
        self.explanation = explanation
        self.findings: list[Finding] = []
        self.obligations = 0
        self.counts: dict[str, int] = {}
        self.floors: dict[str, int] = {}
        self.samples: list[str] = []
        self.assumptions: list[str] = []
        self.rules: list[str] = []

    def add(self, rule, construct, where, message):
        f = Finding(rule, construct, where, message)
        if all(g.key != f.key for g in self.findings):
            self.findings.append(f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def oblige(self, sample: str = None, n=1):
        self.obligations += n
        if sample and len(self.samples) < 40:
            self.samples.append(sample)

    def floor(self, name, n):
        self.floors[name] = n


def load_known(prop: str) -> dict[str, str]:
    path = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(.+?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def finish(prop: str, tier: str, res: Result, t0: float) -> int:
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(prop)
    for name, n in res.floors.items():
        if res.counts.get(name, 0) < n:
            raise AnalysisBroken(
                f"{prop}: only {res.counts.get(name, 0)} instances of '{name}' found, "
                f"{n} were confirmed by hand: the analysis lost its anchors"
            )
    new = [f for f in res.findings if f.key not in known]
    old = [f for f in res.findings if f.key in known]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": res.explanation,
            "rules": res.rules,
            "obligations": res.obligations,
            "discharged": res.obligations - len(res.findings),
            "analysed": res.counts,
            "samples": res.samples[:40],
            "known_findings": [f"{f.key} at {f.where}" for f in old],
            "exhaustive": True,
        },
        "assumptions": res.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {f.key} at {f.where}: {known[f.key]}")
    if new:
        rp = os.path.join(VERIF, "evidence", f"{prop}.replay.txt")
        with open(rp, "w") as fh:
            for f in new:
                fh.write(f"{f.where}\n  rule: {f.rule}\n  construct: {f.construct}\n  {f.message}\n\n")
        for f in new:
            print(f"{f.where}: [{f.rule}] {f.construct}: {f.message}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(
        f"OK property={prop} obligations={res.obligations} "
        + " ".join(f"{k.replace(' ', '_')}={v}" for k, v in sorted(res.counts.items()))
    )
    return 0
