"""Common frame of every check: runs the stages of one property, writes evidence, prints the verdict."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.jsonl")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "steps_replayed": 0,
                    "samples": [], "stages": []}
        self.assume = []
        self.viol = []       # (signature, message, replay)
        self.level = "model_checking"

    def left(self, total=None):
        total = total or (420 if self.quick else 820)
        return total - (time.time() - self.t0)

    def model(self, name, res):
        self.cov["states"] += res.distinct or res.generated
        self.cov["transitions"] += len(res.edges) or res.generated
        self.cov["stages"].append({"model": name, "states_generated": res.generated, "distinct": res.distinct,
                                   "depth": res.depth, "transitions_emitted": len(res.edges),
                                   "at_s": round(time.time() - self.t0, 1)})

    def walks(self, name, make, walks, need=(), chunk=40, limit=60, procs=8, sig=None):
        """replay walks and account for them; `need`: action names that must occur (otherwise the stage is vacuous)"""
        from . import replay
        t = time.time()
        bad, steps, acts, done = replay.replay(make, walks, chunk=chunk, limit=limit, procs=procs, salt=self.seed)
        self.cov["traces_validated_against_impl"] += done
        self.cov["steps_replayed"] += steps
        self.cov["stages"].append({"replay": name, "walks": done, "steps": steps, "actions": dict(acts),
                                   "mismatches": len(bad), "wall_s": round(time.time() - t, 1)})
        missing = [n for n in need if not acts.get(n)]
        if missing and not bad:
            raise RuntimeError("vacuous stage %s: no %s" % (name, missing))
        if walks and len(self.cov["samples"]) < 6:
            w = walks[len(walks) // 2]
            self.cov["samples"].append({"stage": name, "init": w[0], "actions": [a for a, _ in w[2]][:12],
                                        "expected_after_last": (w[2][-1][1] if w[2] else w[1])})
        for i, idx, msg in bad:
            w = walks[i]
            acts_ = [a for a, _ in w[2][:idx + 1]]
            s = sig(w, idx, msg) if sig else name + ":" + (acts_[-1]["n"] if acts_ else "init")
            self.violation(s, msg, {"stage": name, "salt": self.seed * 1000003 + i, "init": w[0], "actions": acts_,
                                    "expected": (w[2][idx][1] if idx >= 0 else w[1])})
        return bad

    def violation(self, sig, msg, replay):
        self.viol.append((sig, msg, replay))


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if line and not line.startswith("#") and not line.startswith("fixed:"):
                    d = json.loads(line)
                    if d["property"] == prop:
                        out.append(d)
    return out


def main(argv):
    warnings.simplefilter("ignore")
    prop = argv[0]
    tier = "thorough" if "thorough" in argv[1:] else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(prop, tier, seed)
    try:
        import quanguru  # noqa: F401  (imported once, before the replaying children are forked)
        import scipy.linalg  # noqa: F401
        mod = importlib.import_module("vf.checks." + prop)
        mod.run(ctx)
    except Exception as e:
        traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        if "/quanguru/" in tb[-1].filename:       # the code itself refuses a legal call
            ctx.violation("%s: raises" % mod.__name__, "%s: %s" % (type(e).__name__, e), {"actions": [], "traceback": [str(f) for f in tb]})
            return report(prop, tier, seed, ctx)
        print("ERROR: the machinery of %s failed; no verdict" % prop)
        return 2
    return report(prop, tier, seed, ctx)


def report(prop, tier, seed, ctx):
    kn = known(prop)
    hit, new = set(), []
    for sig, msg, rp in ctx.viol:
        k = next((d for d in kn if d["signature"] == sig), None)
        if k is not None:
            hit.add(k["signature"])
        else:
            new.append((sig, msg, rp))
    for d in kn:
        if d["signature"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": ctx.level, "coverage": ctx.cov,
          "assumptions": ctx.assume, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    ev["coverage"]["known_findings_seen"] = sorted(hit)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if os.environ.get("VF_STATS"):
        for st in ctx.cov["stages"]:
            print("   ", json.dumps(st))
        import collections
        cnt = collections.Counter((s, m.split("\n")[0][:200]) for s, m, _ in ctx.viol)
        for (s, m), c in cnt.most_common(25):
            print("    %5d %s | %s" % (c, s, m))
    if new:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", prop + ".json")
        with open(path, "w") as fh:
            json.dump([{"signature": s, "message": m, "replay": r} for s, m, r in new[:25]], fh, indent=1, default=str)
        new.sort(key=lambda x: len(x[2].get("actions", ())))
        for s, m, r in new[:3]:
            print("--- %s\n%s\n    after: %s" % (s, m, json.dumps(r, default=str)[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d steps=%d wall=%.1fs" % (
        prop, tier, ctx.cov["states"], ctx.cov["transitions"], ctx.cov["traces_validated_against_impl"],
        ctx.cov["steps_replayed"], time.time() - ctx.t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
