#!/usr/bin/env python3
"""Development aid: makes seeded/<id>/ from the definitions in bugs.py, after confirming in a
scratch copy of /repo that the change builds, passes the stable tests, and that its
demonstration fails with it and passes without it.  usage: plant.py [ID...]"""
import importlib, json, os, shutil, subprocess, sys, re
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.path.insert(0, D)
W = "/tmp/plant/repo"
BASE = json.load(open("/opt/vp/BASELINE.json"))

def sh(cmd, cwd=W, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str), **kw)

def env():
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    return e

def build():
    for c in (["cargo", "build", "--workspace", "--offline"], ["cargo", "test", "--workspace", "--no-run", "--offline"],
              ["cargo", "check", "-p", "texpresso", "--offline"],
              ["cargo", "check", "-p", "texpresso_cli", "--no-default-features", "--offline"]):
        r = sh(c, env=env())
        if r.returncode:
            return r.stdout[-3000:]

def main():
    bugs = importlib.import_module("bugs").BUGS
    want = sys.argv[1:]
    if not os.path.isdir(W):
        os.makedirs("/tmp/plant", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    for b in bugs:
        if want and b["id"] not in want:
            continue
        sh("git checkout -q -- .")
        dst = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        kind = "rs" if "rs" in b else "py"
        shutil.copy(os.path.join(D, "demo_lib.sh" if kind == "rs" else "demo_cli.sh"), os.path.join(dst, "demo.sh"))
        with open(os.path.join(dst, "demo." + kind), "w") as f:
            f.write(b[kind].lstrip("\n"))
        if b.get("release"):
            open(os.path.join(dst, "release"), "w").write("the demo is built without debug assertions\n")
        if b.get("parallel"):
            open(os.path.join(dst, "parallel"), "w").write("the demo builds the library with rayon\n")
        with open(os.path.join(dst, "meta.json"), "w") as f:
            json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, f, indent=1)
        ok = True
        build()
        clean = sh(["bash", os.path.join(dst, "demo.sh")], env=env())
        if clean.returncode:
            print(b["id"], "demo fails on clean tree:", clean.stdout[-1500:]); ok = False
        for path, old, new in b["edits"]:
            p = os.path.join(W, path)
            s = open(p).read()
            if s.count(old) != b.get("count", 1):
                print(b["id"], "old text occurs", s.count(old), "times in", path); ok = False
                continue
            open(p, "w").write(s.replace(old, new))
        d = sh(["git", "diff"])
        open(os.path.join(dst, "patch.diff"), "w").write(d.stdout)
        if ok:
            e = build()
            if e:
                print(b["id"], "does not build:", e); ok = False
        if ok:
            t = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], env=env())
            n = len(re.findall(r"^test .* \.\.\. ok$", t.stdout, re.M))
            if t.returncode or n < 19:
                print(b["id"], "tests:", n, t.stdout[-1500:]); ok = False
        if ok:
            r = sh(["bash", os.path.join(dst, "demo.sh")], env=env())
            if r.returncode == 0:
                print(b["id"], "demo does not notice"); ok = False
        print(b["id"], "ok" if ok else "REJECTED", flush=True)
        if not ok and "--keep" not in sys.argv:
            shutil.rmtree(dst, ignore_errors=True)
        sh("git checkout -q -- .")

main()
