"""What each property's check runs."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor

import cli_driver
from lib_tlc import ToolError, build_cli, build_harness, log, tlc


def flat(x):
    if not isinstance(x, list):
        return [x]
    if x and not isinstance(x[0], list):
        return x
    return [z for y in x for z in flat(y)]


def numbers(run, name, data):
    p = run.path(name)
    with open(p, "w") as f:
        f.write(" ".join(map(str, data)))
    return p


IMAGE = "nomask stale shared notake noguard nozero floor noassert"


def c01(run):
    run.background(lambda: run.model("Numbers", workers=4))
    h = build_harness("ser")
    t = json.load(open(run.tables()))
    o = flat(t["ramps"])
    for bits, n in ((5, 32), (6, 64)):
        th = t["third%d" % bits]
        for i in range(n):
            for j in range(n):
                o += [th[i * n + j], th[j * n + i]]
    o += t["half5"] + t["half6"] + t["expand5"] + t["expand6"]
    run.judge(run.harness(h, "ramps", numbers(run, "ramps.txt", o), out="ramps.ndjson"))
    run.exhaustive.append("all 65536 interpolated palettes with all 8 indices; all 4096 pairs of "
                          "6-bit and 1024 pairs of 5-bit endpoint levels in both palette modes")
    run.sweep(binary=h)


def c09(run):
    h = build_harness("ser")
    t = json.load(open(run.tables()))
    run.judge(run.harness(h, "uniform", numbers(run, "least.txt", flat(t["least"])), out="uniform.ndjson"))
    run.exhaustive.append("all 2^24 colours: BC1 opaque, BC1 with a transparent pixel, BC2")
    run.sweep(binary=h)


def sweep(run):
    run.sweep()


ENDS = "noswap3 noremap3 remap3 noswap4 noremap4 equal4 clear4 masked"
SET = "old clear merge zero strict every hidden alpha"
FIT = (dict(N=5, Vals="{0, 1, 5, 6, 8, 64, 127, 128, 249, 254, 255}"), dict(Vals="{0, 1, 3, 6, 7, 127, 200, 255}"))
AXIS = ("Axis", "grey null quarter first largest latest", dict(Size=3), {})
STEPS = ("AxisSteps", "grey half first last", dict(Top=24), {})
DESIGNS = {
    "C05": [("ColourSet", SET, dict(N=4), {}), ("Endpoints", ENDS, dict(MaxEnd=4, N=4), {})],
    "C07": [("AlphaFit", "codes7 remap7 remap5 range5 mask junk only5 order7 steps first",
             FIT[0], FIT[1])],
    "C08": [("ColourSet", SET, dict(N=4), {})],
    "C10": [("RangeFit", "grey row else origin centre", dict(Top=3), {}), AXIS, STEPS],
    "C11": [("RangeFit", "grey row else origin centre", dict(Top=3), {}), AXIS, STEPS],
    "C12": [AXIS, STEPS, ("ClusterCuts", "skip stale2 stale1 first bound lag from0", dict(MaxN=16), dict(MaxN=5)),
            ("ColourSet", "merge zero", dict(N=4), {})],
    "C13": [("ClusterIter", "reset last latest unsaved endless skip0",
             dict(Limit=4, MaxErr=3), {})],
    "C22": [("ColourSet", SET, dict(N=4), {}), ("AlphaFit", "remap7 remap5 order7", FIT[0], FIT[1])],
    "C23": [("ClusterIter", "reset last latest unsaved endless skip0", dict(Limit=4, MaxErr=3), {}),
            ("Endpoints", ENDS, dict(MaxEnd=4, N=4), {})],
    "C24": [("AlphaFit", "codes7 remap7 remap5 mask order7", FIT[0], FIT[1])],
    "C14": [("Endpoints", ENDS, dict(MaxEnd=4, N=4), {})],
}


def designed(run):
    for module, muts, deeper, small in DESIGNS[run.prop]:
        run.design(module, muts, deeper, small)
    run.sweep()


def images(run):
    run.design("ImageModel", IMAGE, dict(MaxW=13, MaxH=13, Workers=3))
    if run.prop == "C16":
        run.apalache("Sizes", "Inv")
    for v, h in run.builds().items():
        run.judge(run.harness(h, "images", run.prop, run.seed, run.tier, out="images-%s.ndjson" % v))


def plans(run, num):
    """schedules generated by TLC, for the recorder"""
    t = tlc("Schedule", workers=1, extra=["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(run.seed)])
    found = [json.loads(json.loads(m)) for m in re.findall(r'<<\s*"PLAN",\s*(".*")\s*>>', t.out)]
    if len(found) < num // 2:
        raise ToolError("too few schedules:\n" + t.out[-2000:])
    p = run.path("schedules.txt")
    with open(p, "w") as f:
        for h in found[:num]:
            f.write(" ".join("%d %d" % tuple(x) for x in h) + "\n")
    return p


def c04(run):
    run.design("Session", "scratch memo carry arrival early lost lock abandon dirty", dict(Workers="{11, 12, 13}"))
    env = {"SCHEDULES": plans(run, 400 if run.thorough else 60)}
    traces = []
    for v, h in run.builds().items():
        traces.append(run.harness(h, "images", "C04", run.seed, run.tier, out="det-%s.ndjson" % v, env=env))
    # one group per call over both builds
    groups, rest = {}, []
    for v, t in zip(("ser", "par"), traces):
        for line in open(t):
            r = json.loads(line)
            if r.get("rel") == "det" and r["x"] == 0:
                for c in r["calls"]:
                    c["how"] = v + "-" + c["how"]
                g = groups.setdefault(r["id"], r)
                if g is not r:
                    g["calls"] += r["calls"]
                    g["p"] = max(g["p"], r["p"])
            else:
                rest.append(r)
    merged = run.path("det.ndjson")
    with open(merged, "w") as f:
        for r in list(groups.values()) + rest:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    run.judge(merged)


def c15(run):
    h = build_harness("ser")
    run.sweep(binary=h)
    run.judge(run.harness(h, "images", "C15", run.seed, run.tier, out="defaults.ndjson"))


def c21(run):
    run.design("ImageModel", IMAGE, dict(MaxW=13, MaxH=13, Workers=3))
    run.design("ClusterCuts", "bound", dict(MaxN=16))
    run.design("ClusterIter", "endless", dict(Limit=4, MaxErr=3))
    built = run.builds()
    run.sweep(binary=built["ser"])
    for v, h in built.items():
        run.judge(run.harness(h, "images", "C21", run.seed, run.tier, out="images-%s.ndjson" % v))


def driver(run):
    with ThreadPoolExecutor(2) as ex:
        b, h = ex.submit(build_cli), ex.submit(build_harness, "ser")
        return cli_driver.Driver(run, b.result(), h.result())


def c17(run):
    d = driver(run)
    run.judge(cli_driver.compress_trace(d, run.seed, *(4000, 15000) if run.thorough else (500, 3000)), module="CliConf")


def c18(run):
    d = driver(run)
    run.judge(cli_driver.decompress_trace(d, run.seed, *(4000, 15000) if run.thorough else (500, 3000)), module="CliConf")


def c19(run):
    d = driver(run)
    run.judge(cli_driver.read_trace(d, run.seed, *(60, 240) if run.thorough else (10, 60)), module="CliConf")


def histories(run, cfg, num):
    t = tlc("Cli", cfg, workers=1, extra=["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(run.seed)])
    out = []
    for m in re.findall(r'<<"HIST", (".*")>>', t.out):
        out.append(json.loads(json.loads(m)))
    if len(out) < num // 2:
        raise ToolError("too few histories:\n" + t.out[-2000:])
    return out[:num]


def c20(run):
    run.design("Cli", "early append swallow keep sized beside temp residue consume memo sniff fallback chatty", dict(Depth=3))
    d = driver(run)
    ses, det = cli_driver.session_trace(d, run.seed, histories(run, "CliGen", 5000 if run.thorough else 600))
    run.judge(ses, module="SesConf")
    run.judge(det)


CHECKS = {
    "C01": c01, "C02": images, "C03": images, "C04": c04, "C05": designed, "C06": sweep, "C07": designed,
    "C08": designed, "C09": c09, "C10": designed, "C11": designed, "C12": designed, "C13": designed,
    "C14": designed, "C15": c15, "C16": images, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21,
    "C22": designed, "C23": designed, "C24": designed,
}
