"""Check runner: findings, known findings, evidence, exit codes.

exit 0  the property held on everything analysed (known findings are listed)
exit 1  at least one finding that is not in known_findings.json
exit 2  the analysis could not be carried out (missing anchor, internal error)
"""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")

from program import AnalysisError  # noqa: E402


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.findings = {}
        self.counts = {}
        self.explanation = []
        self.assumptions = []
        self.samples = []
        self.analysed = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def finding(self, rule, construct, message, where="", instance=None):
        """One violation; `rule` and `construct` identify it across edits
        (no line numbers), `where` is file:line, `instance` the evidence."""
        key = (rule, construct)
        f = self.findings.get(key)
        if f is None:
            self.findings[key] = {"rule": rule, "construct": construct, "message": message,
                                  "where": where, "instances": [instance] if instance else [], "count": 1}
        else:
            f["count"] += 1
            if instance and len(f["instances"]) < 3:
                f["instances"].append(instance)

    def add(self, findings):
        for f in findings:
            self.finding(*f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def counts_add(self, d):
        for k, v in d.items():
            self.count(k, v)

    def need(self, name, minimum):
        """Instances below the expected minimum mean the analysis lost its
        subject: no verdict is better than an empty one."""
        if self.counts.get(name, 0) < minimum:
            raise AnalysisError(f"only {self.counts.get(name, 0)} instances of '{name}', expected at least {minimum}")

    def control(self, name, ok):
        """Positive control: the rule must fire on a seeded snippet."""
        self.counts["positive controls"] = self.counts.get("positive controls", 0) + 1
        if not ok:
            raise AnalysisError(f"positive control '{name}' did not fire")

    def explain(self, text):
        self.explanation.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def sample(self, text):
        if len(self.samples) < 6:
            self.samples.append(text)


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)["findings"]


def run_check(prop, tier, func, level="other"):
    t0 = time.time()
    ctx = Ctx(prop, tier)
    try:
        func(ctx)
    except AnalysisError as e:
        print(f"ANALYSIS-ERROR property={prop} {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-ERROR property={prop} internal error")
        return 2
    known = [k for k in load_known() if k["property"] == prop and k.get("status", "open") == "open"]
    new, listed = [], []
    for (rule, construct), f in sorted(ctx.findings.items()):
        if any(k["rule"] == rule and k["construct"] == construct for k in known):
            listed.append(f)
        else:
            new.append(f)
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, f"{prop}.violations.json")
    if os.path.exists(replay):
        os.remove(replay)
    cov = {"explanation": " ".join(ctx.explanation) or "static analysis of the current source"}
    cov.update({k.replace(" ", "_"): v for k, v in ctx.counts.items()})
    if ctx.analysed:
        cov["functions_analysed"] = len(ctx.analysed)
        cov["functions"] = sorted(ctx.analysed)[:400]
    if ctx.samples:
        cov["samples"] = ctx.samples
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 3),
        "assumptions": ctx.assumptions,
        "violations": [f"{f['where']} [{f['rule']}] {f['construct']}: {f['message']}" for f in new],
        "known_findings": [f"{f['where']} [{f['rule']}] {f['construct']}: {f['message']}" for f in listed],
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for f in listed:
        print(f"KNOWN-FINDING: property={prop} {f['construct']}: {f['message']}")
    for k in known:
        if not any(k["rule"] == f["rule"] and k["construct"] == f["construct"] for f in listed):
            print(f"note: listed finding no longer present: {k['rule']} {k['construct']}")
    if new:
        with open(replay, "w") as fh:
            json.dump({"property": prop, "tier": tier, "findings": new}, fh, indent=1, default=str)
        for f in new:
            print(f"{f['where']}: [{f['rule']}] {f['construct']}: {f['message']}")
            for i in f["instances"]:
                print(f"    instance: {i}")
            print(f"VIOLATION property={prop} replay={replay}")
        return 1
    done = ", ".join(f"{v} {k}" for k, v in ctx.counts.items())
    print(f"OK property={prop} tier={tier} ({done}) in {time.time() - t0:.1f}s")
    return 0
