#!/usr/bin/env python3
"""catch.py [-j N] [-c CHECK[,CHECK..]] [ID..]: which check catches which planted bug.

Works on copies of /repo and /verif (paths rewritten) under /tmp/catch, so /repo stays as it is.
Without -c, each bug is given to the check of its own property.  Design models are skipped (they
do not depend on the code)."""
import json, os, subprocess, sys, threading, queue, time

args = sys.argv[1:]
sys.argv = [sys.argv[0], "/tmp/catch"]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

jobs, checks, ids = 4, None, []
while args:
    a = args.pop(0)
    if a == "-j":
        jobs = int(args.pop(0))
    elif a == "-c":
        checks = args.pop(0).split(",")
    else:
        ids.append(a)
ids = ids or sorted(os.listdir("/verif/seeded"))
subprocess.run(["rm", "-rf", "/tmp/catch"])
q = queue.Queue()
for i in ids:
    q.put(i)
lock = threading.Lock()
missed = []


def work(k):
    w = mutate.setup(k)
    while True:
        try:
            i = q.get_nowait()
        except queue.Empty:
            return
        d = "/verif/seeded/" + i
        prop = json.load(open(d + "/meta.json"))["property"]
        for p in checks or [prop]:
            r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w + "/repo")
            t = time.time()
            code, out = mutate.sh([sys.executable, "check.py", p, os.environ.get("VERIF_TIER", "quick")], w + "/verif", 3600) if r.returncode == 0 else (-1, "does not apply")
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w + "/repo")
            got = code == 1 and "VIOLATION property=" + p in out
            line = [s for s in out.split("\n") if s.startswith("# broken")] or [out[-200:].replace("\n", " ")]
            with lock:
                print("%-22s %s %s exit=%d %4.0f s  %s" % (i, p, "caught" if got else "MISSED", code, time.time() - t, line[0][:110]), flush=True)
                if not got:
                    missed.append((i, p))


ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
[t.start() for t in ts]
[t.join() for t in ts]
print("missed:", missed)
subprocess.run(["rm", "-rf", "/tmp/catch"])
