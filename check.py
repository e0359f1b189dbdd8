#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of the code in /repo's working tree:
  1. TLC explores the property's design models exhaustively (spec/*.tla);
  2. the harness (or the CLI driver) is built from /repo, executes the code and records traces;
  3. TLC judges every record of the trace against the specification (spec/Conf.tla).
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import json, os, re, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

import lib_tlc
from lib_tlc import V, TARGET, ToolError, apalache, log, tlc, build_harness
import models

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
REPLAYS = os.path.join(V, "replays")


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.thorough = prop, tier, tier == "thorough"
        self.seed = SEED
        self.work = os.path.join(TARGET, "work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(REPLAYS, exist_ok=True)
        self.started = time.time()
        self.states = self.transitions = 0
        self.judged = self.executed = self.canaries = 0
        self.samples, self.notes, self.models = [], [], []
        self.violations = []      # (what, data)
        self.exhaustive = []
        self.known = []
        self._tables = None
        self.pool, self.pending = ThreadPoolExecutor(4), []

    def path(self, name):
        return os.path.join(self.work, name)

    def count(self, t):
        self.states += t.distinct
        self.transitions += t.generated

    # -- specification ---------------------------------------------------------------

    def model(self, module, cfg=None, expect=None, mut=None, **kw):
        """an exhaustive TLC run; expect: the invariant a mutant configuration must violate"""
        name = "%s%s" % (cfg or module, "" if mut in (None, "none") else "[%s]" % mut)
        t = tlc(module, cfg, **kw)
        bad = t.violated()
        if expect is None:
            if bad or t.code != 0:
                raise ToolError("model %s fails:\n%s" % (name, t.out[-3000:]))
            self.count(t)
            self.models.append({"model": name, "states": t.distinct, "transitions": t.generated})
            log("model %s: %d states, %d transitions" % (name, t.distinct, t.generated))
        else:
            if not bad:
                raise ToolError("mutant model %s is not rejected:\n%s" % (name, t.out[-3000:]))
            self.models.append({"model": name, "mutant_rejected_by": expect if mut is None else bad[0]})
        return t

    def design(self, module, muts, deeper=None, small=None):
        """in the background: the design model explored exhaustively, and each of its mutants
        rejected; deeper: constants in the thorough tier, small: constants for the mutants"""
        base = dict(Mut='"none"')
        if self.thorough:
            base.update(deeper or {})
        self.background(lambda: self.model(module, consts=base, mut="none", workers=4))
        for m in muts.split():
            c = dict(small or {}, Mut='"%s"' % m)
            self.background(lambda m=m, c=c: self.model(module, consts=c, mut=m, expect="any",
                                                        workers=1, heap="2g"))

    def apalache(self, module, inv):
        def go():
            ok, out = apalache(module, inv)
            if not ok:
                raise ToolError("Apalache on %s!%s:\n%s" % (module, inv, out[-2000:]))
            self.models.append({"model": module, "apalache": "%s over unbounded integers" % inv})
            log("Apalache %s!%s: no error" % (module, inv))
        self.background(go)

    def background(self, f):
        self.pending.append(self.pool.submit(f))

    def settle(self):
        """waits for what runs in the background"""
        done, self.pending = self.pending, []
        for f in done:
            f.result()

    def tables(self):
        """the finite functions of the specification, evaluated by TLC"""
        if self._tables:
            return self._tables
        path = self.path("tables.json")
        t = tlc("Tables", env={"TABLES": path}, workers=1)
        if t.code != 0 or not os.path.exists(path):
            raise ToolError("Tables.tla:\n" + t.out[-3000:])
        self.count(t)
        self._tables = path
        return path

    def judge(self, trace, prop=None, module="Conf", allow_canary=True):
        """every record of the trace against the specification"""
        with open(trace) as f:
            lines = f.read().splitlines()
        if not lines:
            return
        env = {"PROP": prop or self.prop, "TRACE": trace}
        if (prop or self.prop) == "C09":
            env["TABLES"] = self.tables()
        t = tlc(module, env=env)
        broken = re.findall(r'<<"BROKEN", (\d+), \{([^}]*)\}>>', t.out)
        mine = [b for b in broken if '"recorder"' in b[1]]
        if mine:
            raise ToolError("the recorder broke its own obligations: %s\n%s" %
                            (mine[:3], lines[int(mine[0][0]) - 1][:3000]))
        for n, clauses in broken:
            n = int(n)
            self.violations.append((clauses.replace('"', ""), json.loads(lines[n - 1])))
        accepted = re.findall(r'<<"CANARY-ACCEPTED", (\d+)>>', t.out)
        m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', t.out)
        if broken:
            self.count(t)
            self.judged += len(lines)
            return
        if not m or m.group(1) != m.group(2) or t.code != 0:
            raise ToolError("judging %s failed:\n%s" % (trace, t.out[-4000:]))
        if accepted:
            raise ToolError("corrupted records accepted in %s: %s" % (trace, accepted[:5]))
        canaries = sum(1 for s in lines if '"x":1' in s)
        self.canaries += canaries
        self.count(t)
        self.judged += len(lines) - canaries
        log("judged %d records (%d corrupted ones rejected)" % (len(lines), canaries))

    # -- implementation --------------------------------------------------------------

    def harness(self, binary, *args, out, env=None, timeout=800):
        """runs the recorder; returns the trace's path"""
        e = dict(os.environ)
        e.update(env or {})
        path = self.path(out)
        argv = list(args) + ["x"] * (4 - len(args)) + [path]
        try:
            r = subprocess.run([binary] + [str(a) for a in argv], env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s ran out of time" % (args,))
        if r.returncode < 0 or r.returncode in (134, 139):
            # the library took the process down (stack overflow, abort)
            self.violations.append(("crash", {"command": argv[:-1], "code": r.returncode,
                                              "output": r.stdout[-2000:]}))
            open(path, "w").close()
            return path
        if r.returncode != 0:
            raise ToolError("harness %s exited with %d:\n%s" % (args, r.returncode, r.stdout[-2000:]))
        with open(path + ".stats") as f:
            s = json.load(f)
        self.executed += s["executed"]
        for x in s["shown"]:
            if len(self.samples) < 4:
                self.samples.append(x)
        log("executed %d calls, recorded %d, %d suspects (%s)" %
            (s["executed"], s["recorded"], s["suspects"], " ".join(str(a) for a in args[:2])))
        return path

    def sweep(self, prop=None, binary=None):
        with ThreadPoolExecutor(2) as ex:
            made, plain = ex.map(build_harness, ["ser", "plain"])
        t = self.harness(binary or made, "gen", prop or self.prop, self.seed, self.tier, out="gen.ndjson")
        self.judge(t, prop)
        # other cases, fewer, with the library as users build it
        env = {} if self.tier == "thorough" else {"HARNESS_BRIEF": "1"}
        t = self.harness(plain, "gen", prop or self.prop, self.seed + 500_000, "quick", out="plain.ndjson", env=env)
        self.judge(t, prop)

    def builds(self):
        """by name"""
        names = ["ser", "par", "plain"]
        with ThreadPoolExecutor(3) as ex:
            return dict(zip(names, ex.map(build_harness, names)))

    # -- verdict ---------------------------------------------------------------------

    def finish(self, level="model_checking", assumptions=()):
        files = []
        for n, (what, data) in enumerate(self.violations[:5]):
            p = os.path.join(REPLAYS, "%s-seed%d-%d.json" % (self.prop, self.seed, n))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "broken": what, "seed": self.seed,
                           "tier": self.tier, "record": data}, f, indent=1)
            files.append(p)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.judged,
            "samples": self.samples,
            "evaluations": self.executed,
            "rule": "evaluations: calls of the real code in this run; each was screened, and the "
                    "sample plus the calls closest to breaking the obligation were judged by TLC",
            "models": self.models,
            "corrupted_records_rejected": self.canaries,
        }
        if self.exhaustive:
            cov["exhaustively_replayed"] = self.exhaustive
        if self.notes:
            cov["notes"] = self.notes
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
                       "coverage": cov, "assumptions": list(assumptions),
                       "wall_s": round(time.time() - self.started, 2),
                       "violations": len(self.violations)}, f, indent=1)
        subprocess.run(["rm", "-rf", self.work])
        for what, data in self.violations[:5]:
            log("broken: %s: %s" % (what, json.dumps(data)[:1500]))
        for p in files:
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        if not files:
            log("held: %d calls, %d records judged, %d states, %.1f s" %
                (self.executed, self.judged, self.states, time.time() - self.started))
        return 1 if files else 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    run = Run(prop, tier)
    try:
        models.CHECKS[prop](run)
        run.settle()
        code = run.finish()
    except ToolError as e:
        if run.violations:
            log("(after a violation) " + str(e))
            code = run.finish()
        else:
            log("check failed: " + str(e))
            code = 2
    except Exception:
        traceback.print_exc()
        code = 1 if run.violations and run.finish() else 2
    sys.exit(code)


if __name__ == "__main__":
    main()
