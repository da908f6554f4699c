"""Running TLC: model checking of a module, and harvesting the transitions / behaviours it prints.

A module that feeds the replay machinery has (see spec/*.tla)
    Emit  == PrintT("EDGE " \\o ToJson([s |-> view, a |-> act', t |-> view', o |-> Obs']))     as ACTION_CONSTRAINT
    EmitI == (act.n = "init") => PrintT("INIT " \\o ToJson([s |-> view, o |-> Obs]))             as INVARIANT
so that TLC writes every transition of the state graph it explores (or every step of every random behaviour,
with -simulate) together with the observation the specification prescribes after it.
"""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class TLCResult:
    def __init__(self):
        self.inits = []      # list of (state_key, obs)
        self.edges = []      # list of (state_key, action, state_key, obs)
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.log = ""
        self.lines = []      # other JSON lines, by tag
        self.cmd = ""


def _cfg(constants, spec, view, invariants, properties, constraint, actconstraint, postcondition, symmetry):
    out = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if constants:
        out.append("CONSTANTS")
        for k, v in constants.items():
            if isinstance(v, str) and v.startswith("<-"):
                out.append("  %s <- %s" % (k, v[2:].strip()))
            else:
                out.append("  %s = %s" % (k, tla(v)))
    if view:
        out.append("VIEW " + view)
    for i in invariants:
        out.append("INVARIANT " + i)
    for p in properties:
        out.append("PROPERTY " + p)
    if constraint:
        out.append("CONSTRAINT " + constraint)
    if actconstraint:
        out.append("ACTION_CONSTRAINT " + actconstraint)
    if postcondition:
        out.append("POSTCONDITION " + postcondition)
    if symmetry:
        out.append("SYMMETRY " + symmetry)
    return "\n".join(out) + "\n"


def tla(v):
    """python value -> TLA+ literal usable in a cfg file"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


def run(module, constants=None, spec="Spec", view=None, invariants=(), properties=(), constraint=None, emit=True,
        actconstraint=None, postcondition=None, simulate=None, depth=None, seed=None, workers=1, timeout=800,
        env=None, heap="3g", symmetry=None, files=(), _one=False):
    """Run TLC on spec/<module>.tla.  simulate=N: N random behaviours of `depth` steps with `seed`."""
    if simulate and simulate >= 200 and not _one:
        # several independently seeded simulators at once
        import concurrent.futures
        k = min(7, simulate // 100)
        kw = dict(constants=constants, spec=spec, view=view, invariants=invariants, properties=properties,
                  constraint=constraint, emit=emit, actconstraint=actconstraint, postcondition=postcondition,
                  simulate=simulate // k, depth=depth, timeout=timeout, env=env, heap="1500m", symmetry=symmetry,
                  files=files, _one=True)
        with concurrent.futures.ThreadPoolExecutor(k) as ex:
            parts = list(ex.map(lambda i: run(module, seed=(seed or 1) * 1009 + i, **kw), range(k)))
        res = parts[0]
        for p in parts[1:]:
            res.edges += p.edges
            res.lines += p.lines
            res.generated += p.generated
        return res
    tmp = tempfile.mkdtemp(prefix="vf-tlc-")
    res = TLCResult()
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), tmp)
        for name, content in files:
            with open(os.path.join(tmp, name), "w") as fh:
                fh.write(content)
        invs = list(invariants)
        ac = actconstraint
        if emit == "state":                 # behaviours printed state by state (cheaper for large observations)
            invs.append("EmitS")
        elif emit:
            invs.append("EmitI")
            ac = ac or "Emit"
        with open(os.path.join(tmp, "M.cfg"), "w") as fh:
            fh.write(_cfg(constants, spec, view, invs, properties, constraint, ac, postcondition, symmetry))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-metadir",
               os.path.join(tmp, "meta"), "-workers", str(workers), "-noGenerateSpecTE", "-config", "M.cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed or 1)]
        cmd.append(module + ".tla")
        res.cmd = " ".join(cmd[7:])
        e = dict(os.environ)
        e.update(env or {})
        logf = os.path.join(tmp, "out.txt")
        with open(logf, "w") as out:
            try:
                rc = subprocess.run(cmd, cwd=tmp, stdout=out, stderr=subprocess.STDOUT, env=e, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise TLCError("TLC timed out on %s" % module)
        tail = []
        cache = {}
        last = None

        def key(x):
            s = json.dumps(x, sort_keys=True, separators=(",", ":"))
            return cache.setdefault(s, s)
        with open(logf) as fh:
            for line in fh:
                if line.startswith('"EDGE '):
                    d = json.loads(json.loads(line)[5:])
                    res.edges.append((key(d["s"]), d["a"], key(d["t"]), d["o"], d.get("l", 0)))
                elif line.startswith('"INIT '):
                    d = json.loads(json.loads(line)[5:])
                    res.inits.append((key(d["s"]), d["o"]))
                elif line.startswith('"STEP '):
                    d = json.loads(json.loads(line)[5:])
                    k = key(d["s"])
                    if d["l"] == 1:
                        res.inits.append((k, d["o"]))
                    else:
                        if d["l"] == 2:         # a new behaviour (there is one initial state, printed once)
                            last = 1, res.inits[0][0]
                        if d["l"] != last[0] + 1:
                            raise TLCError("states of %s are not printed in order (%s after %s)" % (module, d["l"], last[0]))
                        res.edges.append((last[1], d["a"], k, d["o"], d["l"] - 1))
                    last = d["l"], k
                elif line.startswith('"OUT '):
                    res.lines.append(json.loads(json.loads(line)[4:]))
                else:
                    tail.append(line.rstrip("\n"))
        res.log = "\n".join(tail)
        m = re.search(r"^([\d,]+) states generated, ([\d,]+) distinct states found", res.log, re.M)
        if m:
            res.generated = int(m.group(1).replace(",", ""))
            res.distinct = int(m.group(2).replace(",", ""))
        else:
            m = re.search(r"The number of states generated: ([\d,]+)", res.log)
            if m:
                res.generated = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", res.log)
        if m:
            res.depth = int(m.group(1))
        res.rc = rc
        if rc != 0 or re.search(r"^Error:", res.log, re.M):
            raise TLCError("TLC failed (%d) on %s:\n%s" % (rc, module, "\n".join(tail[-60:])))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
