"""Running TLC and cargo from the checks."""
import os, re, subprocess, shutil, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(V, "spec")
TARGET = os.path.join(V, "target")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print("#", *a, flush=True)


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


def run_cargo(args, what):
    r = subprocess.run(["cargo"] + args, env=cargo_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("building %s failed:\n%s" % (what, r.stdout[-4000:]))


def build_harness(variant):
    """the recorder, with the library from /repo's working tree: ser, par (with its parallel feature), both
    with overflow checks and debug assertions, or plain (without, as users build it)"""
    args = ["build", "--release", "--offline", "--quiet",
            "--manifest-path", os.path.join(V, "harness", "Cargo.toml"),
            "--target-dir", os.path.join(TARGET, variant)]
    if variant == "par":
        args += ["--features", "par"]
    if variant == "plain":
        args += ["--config", "profile.release.debug-assertions=false", "--config", "profile.release.overflow-checks=false"]
    run_cargo(args, "harness (%s)" % variant)
    return os.path.join(TARGET, variant, "release", "harness")


def build_cli():
    """the texpresso binary from /repo's working tree: with overflow checks, and as users build it"""
    out = []
    for profile, how in (("debug", ["--config", "profile.dev.opt-level=2"]), ("release", ["--release"])):
        run_cargo(["build", "--offline", "--quiet", "--manifest-path", REPO + "/Cargo.toml",
                   "-p", "texpresso_cli", "--target-dir", os.path.join(TARGET, "cli")] + how, "CLI")
        out.append(os.path.join(TARGET, "cli", profile, "texpresso"))
    return out


class Tlc:
    """the outcome of one TLC run"""

    def __init__(self, code, out):
        self.code, self.out = code, out
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def violated(self):
        return [m for m in re.findall(
            r"(?:Invariant|Action property|Temporal properties were|property) (\S+) (?:is|was|were)? ?violated",
            self.out)] or (["?"] if "is violated" in self.out or "was violated" in self.out else [])


_n = 0


_lock = threading.Lock()


def tlc(module, cfg=None, env=None, workers=8, heap="10g", extra=(), timeout=800, consts=None):
    """runs TLC; consts override or extend the constants of the configuration"""
    global _n
    with _lock:
        _n += 1
        meta = os.path.join(TARGET, "tlc", "%d-%d" % (os.getpid(), _n))
    os.makedirs(meta, exist_ok=True)
    config = (cfg or module) + ".cfg"
    if consts:
        with open(os.path.join(SPEC, config)) as f:
            lines = [s for s in f.read().splitlines()
                     if not any(re.match(r"\s*CONSTANT\s+%s\s*=" % c, s) for c in consts)]
        config = os.path.join(meta, "model.cfg")
        with open(config, "w") as f:
            f.write("\n".join(lines + ["CONSTANT %s = %s" % x for x in consts.items()]) + "\n")
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", config] + list(extra) + [module + ".tla"]
    end = time.monotonic() + timeout
    try:
        for _ in range(4):
            r = attend(cmd, e, end)
            if r is not None:
                return Tlc(*r)
            log("TLC stood still on %s: started again" % module)
            shutil.rmtree(meta + "/states", ignore_errors=True)
        raise ToolError("TLC stands still on %s" % module)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def cpu(pid):
    """processor time of a process in seconds"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            t = f.read().rpartition(")")[2].split()
        return (int(t[11]) + int(t[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError, IndexError):
        return 0.0


def attend(cmd, env, end):
    """runs TLC; None if it stands still, as it once in a great while does (its workers all wait)"""
    with tempfile.TemporaryFile("w+", dir=TARGET) as out:
        p = subprocess.Popen(cmd, cwd=SPEC, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT)
        try:
            spent, looks = -1.0, 0
            while True:
                try:
                    p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = cpu(p.pid)
                looks += 1
                if now > spent + 0.5 + 0.02 * looks:      # an idle JVM takes a little, too
                    spent, looks = now, 0
                elif looks > 45:
                    return None
                if time.monotonic() > end:
                    raise subprocess.TimeoutExpired(cmd, 0)
        finally:
            p.kill()
            p.wait()
        out.seek(0)
        return p.returncode, out.read()


def apalache(module, inv, length=0, timeout=250):
    """a symbolic check over unbounded integers; True if the invariant holds"""
    for last in (False, False, True):
        out = os.path.join(TARGET, "apalache", "%s-%d" % (module, os.getpid()))
        os.makedirs(out, exist_ok=True)
        try:
            r = subprocess.run(["apalache-mc", "check", "--inv=" + inv, "--length=%d" % length,
                                "--out-dir=" + out, os.path.join(SPEC, module + ".tla")],
                               cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
            return "NoError" in r.stdout and r.returncode == 0, r.stdout
        except subprocess.TimeoutExpired:
            if last:
                raise ToolError("Apalache ran out of time on %s" % module)
        finally:
            shutil.rmtree(out, ignore_errors=True)
