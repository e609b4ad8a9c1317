"""Result collection, evidence, verdict."""
import json
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")

TRUSTED = [
    "the verifier itself (/verif/pyvc): its reading of Python semantics",
    "z3 4.x and, where it gives up, cvc5 (SMT back ends)",
    "CPython 3.12 and its standard library",
]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rnd = random.Random(self.seed)
        self.t0 = time.time()
        self.obl = []           # (name, status, backend, seconds)
        self.functions = set()
        self.inlined = set()
        self.contracts = set()
        self.assumptions = []
        self.trusted = list(TRUSTED)
        self.bounded = []       # stand-ins: dicts
        self.failures = []      # (text, replay dict): confirmed inputs
        self.refuted = []       # (obligation name, detail)
        self.undecided = []     # text
        self.solver_time = 0.0
        self.solver_calls = 0
        self.covers = {}
        self.samples = []
        self.evaluations = 0
        self.distinct = set()
        self.known = []
        self.paths = 0
        self.level = "proof"

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------ collecting
    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def under_contract(self, *fns):
        for f in fns:
            self.functions.add(getattr(f, "__qualname__", str(f)))

    def explorer(self, x, label, keep=None, aux=None):
        """Take over the results of an exploration; only the obligations
        that keep(name) says are about this property.  aux(name): an
        auxiliary fact (an invariant about local variables), whose failure
        decides nothing."""
        for o in x.obligations:
            if keep is not None and not keep(o.name):
                if o.status != "discharged":
                    self.undecided.append(
                        "%s: not judged beyond a failed obligation of "
                        "another property: %s" % (label, o.name))
                continue
            if aux is not None and o.status == "refuted" and aux(o.name):
                o.status = "not inductive"
            self.obl.append((label + ": " + o.name, o.status,
                             o.backend, o.time))
            if o.status == "refuted":
                self.refuted.append((label + ": " + o.name, {
                    "where": o.where, "model": o.model, "path": o.path}))
            elif o.status != "discharged":
                self.undecided.append("%s: %s (%s)" % (label, o.name,
                                                       o.status))
        for u in x.unsupported:
            self.undecided.append("%s: %s" % (label, u))
        self.inlined |= x.inlined
        self.contracts |= x.used_contracts
        self.solver_time += x.solver_time
        self.solver_calls += x.solver_calls
        self.paths += x.paths
        for k, v in x.covers.items():
            self.covers[label + ": " + k] = v

    def obligation(self, name, ok, backend, seconds=0.0, detail=None):
        """ok: True discharged, False refuted, None undecided."""
        st = {True: "discharged", False: "refuted", None: "unknown"}[ok]
        self.obl.append((name, st, backend, seconds))
        if ok is False:
            self.refuted.append((name, detail))
        elif ok is None:
            self.undecided.append(name + ": " + str(detail))

    def undecide(self, text):
        self.undecided.append(text)

    def fail(self, text, replay):
        """A concrete input on which the real code breaks the property."""
        self.failures.append((text, replay))

    def case(self, key, sample=None):
        """Count one evaluation of the bounded part."""
        self.evaluations += 1
        if key is not None:
            self.distinct.add(key)
        if sample is not None and len(self.samples) < 5:
            self.samples.append(sample)

    def stand_in(self, what, bound):
        self.bounded.append({"what": what, "bound": bound})

    # --------------------------------------------------------------- verdict
    def finish(self):
        n = len(self.obl)
        done = sum(1 for o in self.obl if o[1] == "discharged")
        uncovered = [k for k, v in self.covers.items() if not v]
        for k in uncovered:
            self.undecided.append("cover point not reached: " + k)
        backends = {}
        for o in self.obl:
            b = backends.setdefault(o[2], {"obligations": 0,
                                           "discharged": 0, "seconds": 0.0})
            b["obligations"] += 1
            b["discharged"] += o[1] == "discharged"
            b["seconds"] = round(b["seconds"] + o[3], 3)
        level = self.level
        if self.undecided or self.refuted:
            level = "exploration"
        elif n == 0 and level == "proof":
            level = "exploration"
        cov = {
            "obligations": n,
            "discharged": done,
            "checker_cmd": "python checks/run.py %s" % self.pid,
            "trusted_base": self.trusted,
            "back_ends": backends,
            "solver_calls": self.solver_calls,
            "solver_seconds": round(self.solver_time, 2),
            "paths": self.paths,
            "functions_under_contract": sorted(self.functions),
            "functions_evaluated_in_place": sorted(self.inlined
                                                   - self.functions),
            "callee_contracts_used": sorted(self.contracts),
            "reachability_covers": {"asked": len(self.covers),
                                    "reached": len(self.covers)
                                    - len(uncovered)},
            "undecided": self.undecided[:40],
            "bounded_stand_ins": self.bounded,
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": "bounded part: distinct by the shape of the case "
                    "(template skeleton, kinds of values, faults)",
            "samples": self.samples or ["(no bounded cases)"],
        }
        viol = 0
        lines = []
        for k in self.known:
            lines.append("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.failures:
            viol = len(self.failures)
            text, replay = self.failures[0]
            path = self.write_replay({"kind": "failing input", "text": text,
                                      "input": replay,
                                      "others": [t for t, _ in
                                                 self.failures[1:20]],
                                      "failed_obligations":
                                      [r[0] for r in self.refuted][:20]})
            lines.append("VIOLATION property=%s replay=%s" % (self.pid, path))
            lines.append("  " + text)
        elif self.refuted:
            viol = len(self.refuted)
            path = self.write_replay({
                "kind": "failed obligation, no failing input found",
                "obligations": [{"name": a, "verifier": b}
                                for a, b in self.refuted[:20]]})
            lines.append("VIOLATION property=%s replay=%s "
                         "no-failing-input-found" % (self.pid, path))
            for a, b in self.refuted[:5]:
                lines.append("  refuted: %s" % a)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": level, "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": viol}
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        if not viol:
            # vacuity guards: nothing proved and nothing tried is an error
            if n == 0 and self.evaluations == 0:
                print("ERROR: no obligations and no cases")
                return 3
        print("%s: %d/%d obligations discharged, %d cases, %.1fs%s" % (
            self.pid, done, n, self.evaluations, time.time() - self.t0,
            ", undecided: %d" % len(self.undecided)
            if self.undecided else ""))
        for u in self.undecided[:8]:
            print("  undecided: %s" % u)
        for line in lines:
            print(line)
        return 1 if viol else 0

    def write_replay(self, data):
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.pid + ".json")
        data["property"] = self.pid
        data["seed"] = self.seed
        data["how"] = ("run `python checks/run.py %s` with the same seed; a "
                       "failing input is given under 'input'" % self.pid)
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=str)
            f.write("\n")
        return path


def main(argv):
    import importlib
    pid = argv[1]
    sys.setrecursionlimit(20000)
    c = Check(pid)
    try:
        os.remove(os.path.join(EVIDENCE, "replay", pid + ".json"))
    except OSError:
        pass
    broken = False
    for part in ("checks." + pid.lower(), "checks.proofs"):
        # an error in the bounded part does not keep the proofs from running
        try:
            mod = importlib.import_module(part)
            (mod.run if part == "checks.proofs" else mod.check)(c)
        except SystemExit:
            raise
        except BaseException:
            traceback.print_exc()
            broken = True
            c.undecide(part + " ended with an error")
    try:
        rc = c.finish()
    except BaseException:
        traceback.print_exc()
        return 2
    return 2 if broken and rc == 0 else rc
