#!/usr/bin/env python3
"""mutate.py WORK [FILE-SUBSTRING..]: mutation testing of the checks.

Copies /repo and /verif (with the paths rewritten) into worker directories under WORK, applies
one syntactic mutation at a time, drops those that do not build or that the repository's tests
catch, and runs the checks on the rest.  WORK/results.jsonl lists every mutant and what noticed
it; mutants without "by" need a look: equivalent, or missed."""
import json, os, random, re, subprocess, sys, threading, shutil, queue

WORK = sys.argv[1] if len(sys.argv) > 1 else ""
ONLY = sys.argv[2:]
N = int(os.environ.get("WORKERS", "6"))
FILES = ["lib/src/alpha.rs", "lib/src/colourblock.rs", "lib/src/colourfit.rs", "lib/src/colourset.rs",
         "lib/src/lib.rs", "lib/src/math.rs", "lib/src/colourfit/cluster.rs", "lib/src/colourfit/range.rs",
         "lib/src/colourfit/single.rs", "lib/src/math/vec3.rs", "lib/src/math/vec4.rs",
         "cli/src/main.rs", "cli/src/image/mod.rs", "cli/src/image/png.rs", "cli/src/image/jpeg.rs"]
SWEEPS = {
    "alpha": "C07 C06 C08 C21 C14",
    "colourblock": "C01 C05 C14 C11 C09 C10 C12 C08 C21",
    "colourfit.rs": "C05 C09 C11 C14 C12 C10 C13 C21",
    "colourset": "C05 C12 C08 C09 C15 C11 C10 C13 C21 C14",
    "lib.rs": "C06 C07 C05 C08 C15 C09 C11 C12 C01 C10 C13 C21 C14",
    "math": "C10 C11 C12 C13 C09 C06 C15 C21 C08 C05 C14",
    "cluster": "C12 C13 C10 C08 C15 C21 C05 C14 C09",
    "range": "C11 C10 C08 C15 C21 C05 C14 C09",
    "single": "C09 C05 C14 C21 C08",
}
FULL = {"lib": "C02 C03 C04 C16 C15 C01 C09 C21", "cli": "C17 C18 C19 C20"}


def mutations(path, text):
    lines = text.split("\n")
    end = len(lines)
    for i, s in enumerate(lines):
        if s.strip() == "#[cfg(test)]":
            end = i
            break
    depth = 0
    for i, s in enumerate(lines[:end]):
        code = s.split("//")[0]
        t = code.strip()
        if not t or t.startswith(("use ", "mod ", "pub use", "pub mod", "#", "extern", "impl", "const ", "pub struct", "}", "fn ", "pub fn")) and not t.startswith("} else if"):
            if not t.startswith("const "):
                continue
        out = set()

        def put(a, b, new):
            out.add(code[:a] + new + code[b:])

        for op, news in (("<=", ["<", ">"]), (">=", [">", "<"]), ("==", ["!="]), ("!=", ["=="]),
                         ("&&", ["||"]), ("||", ["&&"]), ("+=", ["-=", "="]), ("-=", ["+="]), ("|=", ["=", "^="])):
            for m in re.finditer(re.escape(op), code):
                if op in ("||",) and re.search(r"\|\|", code) and "|" == code[m.start() - 1:m.start()]:
                    continue
                for n in news:
                    put(m.start(), m.end(), n)
        for m in re.finditer(r" ([<>]) ", code):
            for n in (["<=", ">"] if m.group(1) == "<" else [">=", "<"]):
                put(m.start(1), m.end(1), n)
        for m in re.finditer(r" ([-+*/&|]|<<|>>) ", code):
            swap = {"-": ["+"], "+": ["-"], "*": ["/"], "/": ["*"], "&": ["|"], "|": ["&"], "<<": [">>"], ">>": ["<<"]}
            for n in swap[m.group(1)]:
                put(m.start(1), m.end(1), n)
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            for n in (v + 1, v - 1):
                if n >= 0:
                    put(m.start(), m.end(), str(n))
        for m in re.finditer(r"(?<![\w.])(\d+)(u8|u32|i32)(?!\w)", code):
            v = int(m.group(1))
            for n in (v + 1, v - 1):
                if n >= 0:
                    put(m.start(1), m.end(1), str(n))
        for m in re.finditer(r"(?<![\w.])(\d+\.\d+)(?![\w])", code):
            v = float(m.group(1))
            for n in (v * 1.1 + 0.05, v * 0.9 - 0.05):
                put(m.start(), m.end(), "%.4f" % n)
        for a, b in (("min", "max"), ("max", "min")):
            for m in re.finditer(r"\.%s\(" % a, code):
                put(m.start() + 1, m.start() + 4, b)
        for m in re.finditer(r"\b(true|false)\b", code):
            put(m.start(), m.end(), "false" if m.group(1) == "true" else "true")
        for m in re.finditer(r"\b([xyzXYZ]|splat_[xyzw])\(\)", code):
            c = m.group(1)
            n = {"x": "y", "y": "z", "z": "x"}.get(c[-1].lower(), "x")
            put(m.start(1), m.end(1), c[:-1] + n)
        for m in re.finditer(r"\.\.=", code):
            put(m.start(), m.end(), "..")
        for m in re.finditer(r"\.\.(?=[\w])", code):
            put(m.start(), m.end(), "..=")
        for m in re.finditer(r"!(?=[\w(])", code):
            if m.start() and (code[m.start() - 1].isalnum()):
                continue
            put(m.start(), m.end(), "")
        for m in re.finditer(r"\bif ([^{]*)\{", code):
            if "let" not in m.group(1):
                put(m.start(1), m.end(1), "false && (%s) " % m.group(1).strip())
                put(m.start(1), m.end(1), "true || (%s) " % m.group(1).strip())
        for m in re.finditer(r"\b(Bc[1-5]|RangeFit|ClusterFit|IterativeClusterFit)\b", code):
            alts = {"Bc1": "Bc2", "Bc2": "Bc3", "Bc3": "Bc1", "Bc4": "Bc5", "Bc5": "Bc4"}.get(m.group(1))
            if alts:
                put(m.start(), m.end(), alts)
        for m in re.finditer(r"\b(truncate|skip|take|rev|enumerate)\(", code):
            pass
        if t.endswith(";") and not t.startswith(("let ", "return", "pub ")):
            out.add(re.match(r"\s*", code).group(0) + "{}" if t in ("break;", "continue;") else "")
        if t in ("break;",):
            out.add(code.replace("break", "continue"))
        out.discard(code)
        for new in sorted(out):
            yield i, new


def sh(args, cwd, timeout, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", **(env or {}))
    e.pop("RUSTFLAGS", None)
    p = subprocess.Popen(args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def setup(k):
    w = os.path.join(WORK, "w%d" % k)
    if os.path.exists(w):
        return w
    os.makedirs(w)
    subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
    subprocess.check_call("cd /verif && git ls-files | grep -v -e ^seeded/ | cpio -pdm --quiet %s/verif" % w, shell=True) \
        if shutil.which("cpio") else subprocess.check_call(
        "cd /verif && mkdir -p %s/verif && git ls-files | grep -v ^seeded/ | tar cf - -T - | tar xf - -C %s/verif" % (w, w), shell=True)
    subprocess.check_call("cp -a /verif/dev/*.py %s/verif/dev/ 2>/dev/null; grep -rl '/repo' %s/verif --include=*.py --include=*.toml --include=*.sh | xargs sed -i 's#/repo#%s/repo#g'" % (w, w, w), shell=True)
    # the design models do not depend on the code
    subprocess.check_call(["sed", "-i", "s/^    def background(self, f):/    def background(self, f):\\n        return/", w + "/verif/check.py"])
    return w


def check(w, prop):
    code, out = sh([sys.executable, "check.py", prop, "quick"], w + "/verif", 900)
    if code == 1 and "VIOLATION property=" in out:
        return prop, out
    if code not in (0, 1):
        return prop + "?", out
    return None, out


def judge(w, mut):
    rel, i, new = mut["file"], mut["line"], mut["new"]
    path = os.path.join(w, "repo", rel)
    orig = open(os.path.join("/repo", rel)).read()
    lines = orig.split("\n")
    lines[i] = new
    open(path, "w").write("\n".join(lines))
    try:
        code, out = sh(["cargo", "test", "--offline", "--quiet"], w + "/repo", 120)
        if code != 0:
            mut["state"] = "build" if "could not compile" in out else "tests"
            return
        mut["state"] = "survives"
        lib = rel.startswith("lib")
        if lib:
            code, out = sh(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", "harness/Cargo.toml",
                            "--target-dir", w + "/verif/target/ser"], w + "/verif", 300)
            h = w + "/verif/target/ser/release/harness"
            key = [k for k in SWEEPS if k in os.path.basename(rel) or (k == "math" and "math" in rel)]
            props = SWEEPS[key[0]].split()
            if os.path.basename(rel) == "lib.rs":
                props = SWEEPS["lib.rs"].split()
            for scale in ("0.05", "1"):
                for p in props:
                    code, out = sh([h, "gen", p, "1", "quick", w + "/t.nd"], w, 400, dict(HARNESS_SCALE=scale))
                    if code != 0:
                        mut["by"] = p + " (harness exit %d)" % code
                        return
                    s = json.load(open(w + "/t.nd.stats"))
                    if s["suspects"] or re.search(r'"p":[12],"x":0', open(w + "/t.nd").read(200)):
                        mut.setdefault("suspected", []).append("%s (%s)" % (p, scale))
                        by, out = check(w, p)   # a suspect is no violation before TLC says so
                        if by:
                            mut["by"] = by
                            if by.endswith("?"):
                                mut["out"] = out[-1500:]
                            return
        for p in FULL["lib" if lib else "cli"].split() if not lib or rel.endswith("lib.rs") else []:
            by, out = check(w, p)
            if by:
                mut["by"] = by
                if by.endswith("?"):
                    mut["out"] = out[-1500:]
                return
        if lib and os.environ.get("TLC"):   # what only TLC's verdict shows
            for p in props[:int(os.environ["TLC"])]:
                by, out = check(w, p)
                if by:
                    mut["by"] = by + " (TLC)"
                    if by.endswith("?"):
                        mut["out"] = out[-1500:]
                    return
    finally:
        open(path, "w").write(orig)


def main():
    os.makedirs(WORK, exist_ok=True)
    res = os.path.join(WORK, "results.jsonl")
    done = set()
    if os.path.exists(res):
        for s in open(res):
            m = json.loads(s)
            done.add((m["file"], m["line"], m["new"]))
    todo = []
    for f in FILES:
        if ONLY and not any(o in f for o in ONLY):
            continue
        text = open("/repo/" + f).read()
        for i, new in mutations(f, text):
            if (f, i, new) not in done:
                todo.append(dict(file=f, line=i, old=text.split("\n")[i], new=new))
    print(len(todo), "mutants", flush=True)
    if os.environ.get("LIST"):
        return
    random.Random(1).shuffle(todo)
    q = queue.Queue()
    for m in todo:
        q.put(m)
    lock = threading.Lock()

    def work(k):
        w = setup(k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            try:
                judge(w, m)
            except Exception as e:
                m["state"] = "error " + repr(e)
            with lock:
                open(res, "a").write(json.dumps(m) + "\n")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(N)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
