"""Shared driver of all checks: evidence, violations, known findings."""
import hashlib, json, os, random, sys, time

import harness, tlc
from harness import VERIF, ToolError

KNOWN = os.path.join(VERIF, "known_findings.txt")

def known_findings(prop):
    """Deviation names listed for this property: lines
    `known: property=<id> deviation=<name> <what fails>`."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding="utf-8"):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop:
                out[w[2].split("=", 1)[1]] = w[3].strip()
    return out

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s-%s" % (prop, seed))
        self.t0 = time.time()
        self.binary = harness.build()
        self.known = known_findings(prop)
        self.seen_known = {}
        self.violations = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.distinct = 0
        self.extra = {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def size(self, quick, thorough):
        if self.thorough:
            return thorough
        if isinstance(quick, float):
            return min(thorough, 2.5 * quick)
        return min(thorough, 3 * quick) if quick >= 100 else quick

    def left(self, budget_quick, budget_thorough):
        b = budget_thorough if self.thorough else budget_quick
        return b - (time.time() - self.t0)

    # ---- observations -------------------------------------------------
    def observe(self, cases, limit=10):
        """Run harness cases; panics, hangs and crashes are returned as is."""
        return harness.run(self.binary, cases, limit=limit)

    def violation(self, what, data):
        key = hashlib.sha1(json.dumps([what, data.get("case", data)], sort_keys=True,
                                      default=str).encode()).hexdigest()[:12]
        if len(self.violations) >= 25:
            return
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, key + ".json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": self.prop, "what": what, **data}, f, ensure_ascii=False, indent=1,
                      default=str)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if len(self.violations) <= 3:
            print("  " + what[:300].replace("\n", "\\n"))
        sys.stdout.flush()

    def deviation(self, name, what, data):
        """A genuine defect the specification models: quiet only if listed."""
        if name in self.known:
            if name not in self.seen_known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[name]))
            self.seen_known[name] = self.seen_known.get(name, 0) + 1
        else:
            self.violation("unlisted deviation %s: %s" % (name, what), data)

    # ---- trace validation ---------------------------------------------
    def validate(self, module, cases, observed=None, show=None, jobs=8, cfg=None, env=None,
                 timeout=800, heap="2600m"):
        """Check recorded behaviours against the trace specification."""
        r = tlc.run(module, cases, jobs=jobs, cfg=cfg, env=env, timeout=timeout, heap=heap)
        self.states += r.states
        self.transitions += r.transitions
        self.traces += len(cases)
        by = {c["id"]: c for c in cases}
        for m in r.mismatches:
            c = show(by[m["id"]]) if show else by[m["id"]]
            self.violation("%s: %s differs from the specification" % (m["id"], m.get("field", "?")),
                           {"case": c, "mismatch": m})
        for m in r.findings:
            c = show(by[m["id"]]) if show else by[m["id"]]
            self.deviation(m["name"], m.get("what", ""), {"case": c, "deviation": m})
        for name, cid, text in r.invariant:
            c = show(by[cid]) if show else by[cid]
            self.violation("invariant %s of the specification fails" % name,
                           {"case": c, "trace": text})
        return r

    def outcome(self, case, o):
        """Report anything but a normal return; True if the case returned."""
        if o["outcome"] == "ok":
            return True
        if o["outcome"] == "skipped":      # after repeated hangs, which were reported
            return False
        self.violation("parsing does not return: %s %s" % (o["outcome"], o.get("msg", "")),
                       {"case": case, "observed": o})
        return False

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def finish(self, rule=""):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "rule": rule}
        cov.update(self.extra)
        if self.seen_known:
            cov["known_findings_seen"] = self.seen_known
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        return 1 if self.violations else 0
