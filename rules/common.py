"""Shared machinery of the checks: obligations, violations, known findings, evidence."""
import gc
gc.disable()
import json, os, sys, time, traceback
from facts import Facts, CheckError, VERIF, REPO

KNOWN = os.path.join(VERIF, "known-findings.json")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


class Check:
    """One run of one property.  `ob(key, ok, where, msg)` records an obligation; a failed one
    is a violation unless its exact key is listed in known-findings.json."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obligations = {}
        self.viol = []
        self.samples = []
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.notes = []

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ob(self, key, ok, where="", msg=""):
        """an obligation; `key` never contains a line number"""
        self.obligations[key] = self.obligations.get(key, True) and bool(ok)
        if not ok:
            self.viol.append({"key": key, "where": where, "what": msg or key})
        elif len(self.samples) < 12:
            self.samples.append({"obligation": key, "where": where, "result": "discharged"})
        return ok

    def floor(self, name, n, least):
        """fail closed when fewer instances than were confirmed by hand are found"""
        self.counts[name] = n
        if n < least:
            self.ob("floor:" + name, False, "", "only %d instances of `%s` were found, %d are expected: the rule "
                    "would pass vacuously" % (n, name, least))

    def anchor(self, key, cond, msg):
        if not cond:
            self.ob("anchor:" + key, False, "", "anchor missing: " + msg)
        return cond

    def finish(self):
        known = json.load(open(KNOWN))["findings"] if os.path.exists(KNOWN) else []
        listed = {k["key"]: k for k in known if k["property"] == self.pid and k.get("status") == "known"}
        new, old, seen = [], [], set()
        for v in self.viol:
            if (v["key"], v["where"], v["what"]) in seen:
                continue
            seen.add((v["key"], v["where"], v["what"]))
            (old if v["key"] in listed else new).append(v)
        printed = set()
        for v in old:
            if v["key"] in printed:
                continue
            printed.add(v["key"])
            print("KNOWN-FINDING: property=%s %s" % (self.pid, listed[v["key"]]["what"]))
        n, d = len(self.obligations), sum(1 for v in self.obligations.values() if v)
        cov = {
            "explanation": "Static analysis of /repo's current source (type-checked program and MIR of every workspace "
                           "crate, dumped by /verif/driver on this run). Rules: " + " | ".join(self.rules),
            "obligations": n, "discharged": d,
            "known_findings": sorted(printed),
            "counts": self.counts, "samples": self.samples or [{"note": "no obligation was discharged"}],
        }
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": "other", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs) %s" %
              (self.pid, n, d, len(printed), len(new), time.time() - self.t0, json.dumps(self.counts)))
        if new:
            rp = os.path.join(EVID, self.pid + ".violations.json")
            with open(rp, "w") as f:
                json.dump(new, f, indent=1)
            for v in new[:25]:
                print("  %s  %s\n    rule instance: %s" % (v["where"], v["what"], v["key"]))
            if len(new) > 25:
                print("  ... and %d more, see %s" % (len(new) - 25, rp))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


def main(pid, fn, facts=None):
    ck = Check(pid)
    try:
        F = facts or Facts()
        ck.count("functions_in_scope", len(F.fns))
        try:
            fn(ck, F)
        except CheckError as e:
            ck.ob("anchor:" + str(e)[:120], False, "", str(e))
        return ck.finish()
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s the check itself failed" % pid)
        return 2
