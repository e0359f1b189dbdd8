#!/bin/bash
# cwd: /repo.  Builds demo.rs against lib/ in a scratch directory and runs it.
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
exec python3 - "$(cd "$(dirname "$0")" && pwd)" "$PWD" <<'P'
import os, shutil, subprocess, sys, tempfile
here, repo = sys.argv[1:3]
with tempfile.TemporaryDirectory() as t:
    os.mkdir(os.path.join(t, "src"))
    shutil.copy(os.path.join(here, "demo.rs"), os.path.join(t, "src", "main.rs"))
    with open(os.path.join(t, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                '[dependencies]\ntexpresso = { path = "%s/lib"%s }\n'
                % (repo, ', features = ["rayon"]' if os.path.exists(os.path.join(here, "parallel")) else ''))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(t, "target"))
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "run", "--quiet", "--offline"] + ["--release"] * os.path.exists(os.path.join(here, "release")), cwd=t, env=env)
    sys.exit(1 if r.returncode else 0)
P
