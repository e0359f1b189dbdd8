"""Runs the real texpresso command and records what it does (C17..C20)."""
import hashlib, json, os, random, shutil, struct, subprocess
from concurrent.futures import ThreadPoolExecutor

from filefmt import *
from lib_tlc import ToolError

FORMATS = {1: "bc1", 2: "bc2", 3: "bc3", 4: "bc4", 5: "bc5"}
PROFILES = {0: "speed", 1: "balanced", 2: "quality"}
PERCEPTUAL = ["0.2126", "0.7152", "0.0722"]
HANG = 999


def snapshot(d):
    """all files below the parent of d, which is d's own, by their paths from d"""
    out = {}
    for base, _, files in os.walk(os.path.dirname(d)):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def put(d, name, data):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    # ages and permissions say nothing: files long past and from the future
    age = zlib.crc32(name.encode(errors="replace") + data[:64])
    if age % 4:
        os.utime(p, (86400 * (age % 40000),) * 2)
    if age % 7 == 0:
        os.chmod(p, [0o644, 0o755, 0o600][age // 7 % 3])


def bystanders(r, cwd, target, stem, k):
    """files of others, under names a program might think are its own to use"""
    base, ext = os.path.splitext(target)
    folder, name = os.path.split(target)
    near = [target + ".tmp", target + "~", target + ".bak", target + ".part", target + ".new", base + ".tmp",
            base + ".bak", stem + ".tmp", stem + ".raw", "tmp" + ext, "tmp", "temp" + ext, "output" + ext, "output",
            "out" + ext, "texpresso.tmp", "texpresso" + ext, os.path.join(folder, "." + name + ".tmp"),
            os.path.join(folder, "." + name), os.path.join(folder, "." + name + ".swp"), stem + ext + ext, stem, base,
            base + ext.upper(), stem + ".DDS", stem + ".PNG", stem + ".png", stem + ".dds", stem + ".jpg"]
    for p in near if k is None else r.sample(near, k):
        p = os.path.normpath(p)
        if p != os.path.normpath(target) and not os.path.exists(os.path.join(cwd, p)):
            put(cwd, p, bytes(r.randrange(256) for _ in range(r.choice([0, 3, 50]))))


# what surrounds a command and must not matter
ENVIRONMENTS = [
    {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"},
    {"PATH": "/usr/bin:/bin", "RAYON_NUM_THREADS": "1", "LANG": "C"},
    {"PATH": "/usr/bin:/bin", "RAYON_NUM_THREADS": "3", "LANG": "de_DE.UTF-8", "LC_ALL": "tr_TR.UTF-8"},
    {"PATH": "/usr/bin:/bin", "RAYON_NUM_THREADS": "17", "RUST_BACKTRACE": "1", "RUST_LOG": "trace"},
    {},
    {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TMPDIR": "/nonexistent", "TERM": "dumb", "NO_COLOR": "1"},
    {"PATH": "/usr/bin:/bin", "COLUMNS": "20", "SOURCE_DATE_EPOCH": "0", "TZ": "Asia/Tokyo", "USER": "nobody"},
]


def earlier(r, kind, w, h, f):
    """what the output file holds before the command"""
    if w * h <= 100_000 and r.random() < .3:        # the result of another run
        if kind == "dds":
            f = r.choice([f, r.randint(1, 5)] + [k for k in BLOCK if BLOCK[k] == BLOCK[f]])
            w, h = r.choice([(w, h), (w, h), (h, w), ((w + 3) // 4 * 4, h), (w, (h + 3) // 4 * 4)])
            return dds_file(w, h, bytes(r.randrange(256) for _ in range(size(f, w, h))), dxgi=DXGI[f], alpha=2 if f == 1 else 1)
        return rgba_png(w, h, pixels(r, w, h), r)
    n = r.choice([0, 10, 5000, 148 + size(f, w, h) if w * h <= 100_000 else 1])
    return bytes(r.randrange(256) for _ in range(n))


class Driver:
    def __init__(self, run, binaries, ref):
        self.run, self.bins, self.ref = run, binaries, ref
        self.base = run.path("cli")
        os.makedirs(self.base, exist_ok=True)
        self.n = 0

    def call(self, args, cwd):
        # one build or the other, and one environment or another, by directory
        kind = zlib.crc32(os.path.relpath(cwd, self.base).encode())
        binary = self.bins[kind % len(self.bins)]
        env = dict(ENVIRONMENTS[kind // 7 % len(ENVIRONMENTS)])
        if "HOME" not in env and kind // 77 % 2:
            env.update(HOME=cwd, TMPDIR=cwd)
        p = subprocess.Popen([binary] + args, cwd=cwd, env=env,
                             stdin=subprocess.PIPE if kind // 5 % 4 == 0 else subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.stdin:
            try:
                p.stdin.write(b"y\n" * 20)
                p.stdin.close()
            except OSError:
                pass
        for _ in range(12):      # several waits: the machine may be stopped during one
            try:
                return p.wait(timeout=10)
            except subprocess.TimeoutExpired:
                pass
        p.kill()
        p.wait()
        return HANG

    def fresh(self):
        self.n += 1
        d = os.path.join(self.base, "d%d" % self.n)
        os.makedirs(d)
        return d

    def answers(self, requests):
        q, a = self.run.path("requests"), self.run.path("answers")
        with open(q, "w") as f:
            f.write("\n".join(requests) + "\n")
        r = subprocess.run([self.ref, "ref", q, "x", "x", a], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0:
            raise ToolError("reference: %s" % r.stdout[-1000:])
        with open(a) as f:
            return f.read().split("\n")[:-1]

    def all(self, f, items):
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(f, items))

    def write(self, name, records):
        p = self.run.path(name)
        with open(p, "w") as f:
            for r in records:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        self.run.executed += len(records)
        for r in records[:1]:
            if len(self.run.samples) < 4:
                s = json.dumps(r)
                self.run.samples.append(s if len(s) < 6000 else s[:6000] + " ...")
        return p


# ---- contents ------------------------------------------------------------------------


def pixels(r, w, h):
    kind = r.randrange(6)
    a = [r.randrange(256) for _ in range(8)]
    out = []
    for y in range(h):
        for x in range(w):
            if kind == 0:
                p = [r.randrange(256) for _ in range(4)]
            elif kind == 1:
                p = [(a[0] + x * a[1] // 8 + y) % 256, (a[2] + y * 5) % 256, (a[3] + x + y * 3) % 256, 255]
            elif kind == 2:
                p = a[:4] if (x + y) % 3 else a[4:]
            elif kind == 3:
                p = [a[0], a[1], a[2], (x * 37 + y * 11) % 256]
            elif kind == 4:
                p = [min(255, max(0, a[k] + r.randrange(-9, 10))) for k in range(3)] + [r.choice([0, 90, 127, 128, 255])]
            else:
                p = [r.randrange(256), a[1], r.randrange(256), r.choice([255, 255, 255, 0])]
            out += p
    return out


def dims(r, big=24):
    return r.choice([(1, 1), (4, 4), (r.randint(1, 6), r.randint(1, 6)), (r.randint(1, big), r.randint(1, 6)),
                     (r.randint(1, 6), r.randint(1, big)), (r.randint(1, 13), r.randint(1, 13))])


def more_dims(r):
    """of the runs that are only screened"""
    near = lambda: max(1, r.choice([8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192]) + r.randint(-1, 1))
    w, h = r.choice([(near(), r.randint(1, 6)), (r.randint(1, 6), near()), (r.randint(1, 300), r.randint(1, 20)),
                     (r.randint(1, 20), r.randint(1, 300)), (r.randint(1, 64), r.randint(1, 64)), dims(r)])
    return w, h


def more_pixels(r, w, h):
    if w * h < 600:
        return pixels(r, w, h)
    v = bytearray(r.randbytes(4 * w * h))
    kind = r.randrange(5)
    if kind == 1:                # opaque
        v[3::4] = b"\xff" * (w * h)
    elif kind == 2:              # of a few values
        v = bytearray(v.translate(bytes(r.choice([0, 255, 3, 128]) for _ in range(256))))
    elif kind == 3:              # repeating
        v = bytearray((bytes(v[:4 * r.randint(1, 40)]) * (w * h))[:4 * w * h])
    elif kind == 4:              # one colour, and a few pixels of another
        one = bytes(v[:4])
        v = bytearray(one * (w * h))
        for _ in range(r.randint(0, 20)):
            v[r.randrange(4 * w * h)] ^= 1 << r.randrange(8)
    return list(v)


def screened(d, recs, more, sign, most=250):
    """recs go to TLC; so do those of more whose like has not been seen three times"""
    seen, add = {}, []
    for x in recs:
        seen[sign(x)] = seen.get(sign(x), 0) + 1
    for x in more:
        s = sign(x)
        if seen.get(s, 0) < 3 and len(add) < most:
            add.append(x)
        seen[s] = seen.get(s, 0) + 1
    d.run.executed += len(more) - len(add)
    d.run.notes.append("%d more commands screened, %d kinds of outcome, %d judged" % (len(more), len(seen), len(add)))
    return recs + add


def compress_sign(x):
    hd = bytes(x["hd"])
    if len(hd) == 148:
        h, w, pitch = struct.unpack("<III", hd[12:24])
        pitch = {size(x["f"], x["w"], x["h"]): "size", 0: "none"}.get(pitch, pitch)
        hd = (hd[:12], w == x["w"], h == x["h"], pitch, hd[24:])
    target = x["out"] or x["stem"] + ".dds"
    return (x["k"], x["code"], x["p"], x["changed"] == [target], x["data"] == x["lib"], hd, x["f"], x["aw"], bool(x["wargs"]),
            x.get("ct"), x.get("bd"))


def names(r, exts):
    stem = r.choice(["in", "a.b", "x y", "photo.final", "T", "tex.dds", "-odd"[1:] + "1", "über", ".hidden", "a..b",
                     "日本", "q\udcff\udc80", " lead", "tab\there", "é\u0301", "(1)", "a'b\"c", "in.png", "w" * 120])
    folder = r.choice(["", "", "sub/", "./", "sub/deep.d/", "ABS/", "sub/../", "x.png/", "sub//", "../up/"])
    return (folder,) + os.path.splitext(stem + r.choice(exts))


def outs(r, cwd, ext):
    """the -o argument, and the same as seen from cwd"""
    o = r.choice(["", "", "", "", "out" + ext, "res/out.bin", "noext", "x.y" + ext, "./o" + ext, "res/../o" + ext,
                  "wei\udcfer" + ext, "sp ace", "ABS", "out.png", "out.dds", ".o"])
    if o == "ABS":
        return os.path.join(cwd, "res/abs" + ext), "res/abs" + ext
    return o, os.path.normpath(o) if o else ""


def printable(name):
    """for JSON: bytes that are no UTF-8 as %XX"""
    return "".join("%%%02X" % (ord(c) - 0xdc00) if 0xdc80 <= ord(c) <= 0xdcff else c for c in name)


def place(r, cwd, case):
    """puts the input where the case says; returns its argument and its path from cwd"""
    folder, stem, ext = case["name"]
    arg = folder + stem + ext
    if folder == "ABS/":
        arg = os.path.join(cwd, "sub", stem + ext)
    rel = os.path.normpath(os.path.relpath(os.path.join(cwd, arg), cwd))
    os.makedirs(os.path.join(cwd, "sub/deep.d"))
    if r.random() < .1:          # the name is the link's
        put(cwd, "sub/real.file", case["data"])
        os.makedirs(os.path.dirname(os.path.join(cwd, rel)), exist_ok=True)
        os.symlink(os.path.join(cwd, "sub/real.file"), os.path.join(cwd, rel))
    else:
        put(cwd, rel, case["data"])
    return arg, rel


# ---- compress ------------------------------------------------------------------------


def options(r):
    f, g = r.randint(1, 5), r.randrange(3)
    prof = PROFILES[g]
    if g == 1 and r.random() < .4:
        prof = ""
    w = []
    if r.random() < .45:
        w = [r.choice(["1", "0.5", "2", "0.25", "3.5", "0.1", "1e1", "100", "0.2126", "7", ".5", "+2", "1000"]) for _ in range(3)]
        kind = r.random()
        if kind < .2:                           # all equal
            w = [w[0]] * 3
        elif kind < .3:
            w = list(r.choice([("1", "1", "1"), ("0.2126", "0.7152", "0.0722"), ("0", "0", "0"), ("0.0722", "0.7152", "0.2126")]))
        elif kind < .5:
            w[r.randrange(3)] = r.choice(["0", "0.0"])
    return f, g, prof, w, int(r.random() < .4)


def spelt(r, short, long, value):
    """the ways to give an option its value"""
    ways = [["-" + short, value], ["--" + long, value], ["--" + long + "=" + value], ["-%s=%s" % (short, value)]]
    if not value.startswith("="):
        ways.append(["-" + short + value])
    return r.choice(ways)


def arguments(r, farg, prof, w, aw, out):
    """None stands for the input"""
    groups = [spelt(r, "f", "format", farg)]
    if prof:
        groups.append(spelt(r, "p", "profile", prof))
    if aw:
        groups.append(["--weigh-colour-by-alpha"])
    if out:
        groups.append(spelt(r, "o", "output", out))
    groups.append(None)
    r.shuffle(groups)
    weights = [spelt(r, "w", "weights", x) for x in w]
    if r.random() < .5:                        # together
        at = r.randrange(len(groups) + 1)
        groups[at:at] = weights
    else:                                      # in between, in their order
        ats = sorted(r.randrange(len(groups) + 1) for _ in weights)
        for n, (at, x) in enumerate(zip(ats, weights)):
            groups.insert(at + n, x)
    if r.random() < .2:                        # no options after --
        groups.remove(None)
        groups += [["--"], None]
    return groups


def run_compress(d, case):
    """case: r, infile parts, data, f g prof w aw px iw ih extra(dict) -> record without lib"""
    r = case["r"]
    cwd = d.fresh_for(case)
    stem = case["name"][1]
    arg, rel = place(r, cwd, case)
    out, seen = outs(r, cwd, ".dds")
    os.makedirs(os.path.join(cwd, "res"), exist_ok=True)
    target = seen or stem + ".dds"
    if r.random() < .4 and target != rel:
        put(cwd, target, earlier(r, "dds", case["iw"], case["ih"], case["f"]))
    bystanders(r, cwd, target, stem, r.choice([0, 3, 8]))
    before = snapshot(cwd)
    farg = FORMATS[case["f"]]
    farg = r.choice([farg, farg, farg.upper(), farg.upper(), farg.title(), "bC" + farg[2]])
    groups = arguments(r, farg, case["prof"], case["w"], case["aw"], out)
    args = ["compress"]
    for g in groups:
        args += [arg] if g is None else g
    code = d.call(args, cwd)
    after = snapshot(cwd)
    changed = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
    got = after.get(target, b"")
    rec = dict(k=case["k"], x=0, p=2 if code == HANG else 0, code=code, stem=printable(stem), out=printable(seen),
               changed=[printable(p) for p in changed], f=case["f"], g=case["g"], farg=farg, profile=case["prof"],
               wargs=case["w"], lw=case["w"] or PERCEPTUAL, aw=case["aw"], flag=case["aw"],
               w=case["iw"], h=case["ih"], px=case["px"], hd=list(got[:148]), data=list(got[148:]),
               args=[printable(a) for a in args[1:]])
    rec.update(case.get("extra", {}))
    shutil.rmtree(os.path.dirname(cwd), ignore_errors=True)
    return rec


def fresh_for(self, case):
    p = os.path.join(self.base, "c%s" % case["n"], "d")      # with a parent of its own
    os.makedirs(p)
    return p


Driver.fresh_for = fresh_for


def reference(d, recs):
    reqs = ["c %d %d %s %s %s %d %d %d %s" % (x["f"], x["g"], x["lw"][0], x["lw"][1], x["lw"][2], x["aw"],
                                             x["w"], x["h"], bytes(x["px"]).hex()) for x in recs]
    for x, a in zip(recs, d.answers(reqs)):
        x["lib"] = [-1] if a == "none" else list(bytes.fromhex(a))


def compress_trace(d, seed, count, more):
    """C17: any image, any options"""
    cases = []
    for n in range(count + more):
        r = random.Random("c17-%d-%d" % (seed, n))
        w, h = dims(r) if n < count else more_dims(r)
        if n % 97 == 96:
            w, h = r.choice([(130, 61), (3, 260), (260, 3), (97, 64)])
        if n in (50, 51):
            w, h = [(65540, 1), (2, 65541)][n - 50]
        px = pixels(r, w, h) if n < count else more_pixels(r, w, h)
        f, g, prof, wt, aw = options(r)
        if w * h > 60000:
            g, prof = 0, "speed"
        if n >= count and w * h > 2000 and g == 2:
            g, prof = 1, "balanced"
        cases.append(dict(n=d.n + n, r=r, k="compress", name=names(r, [".png"]), data=rgba_png(w, h, px, r if w * h < 600 or n < count else None),
                          f=f, g=g, prof=prof, w=wt, aw=aw, iw=w, ih=h, px=px))
    d.n += count + more
    recs = d.all(lambda c: run_compress(d, c), cases)
    reference(d, recs)
    recs = screened(d, recs[:count], recs[count:], compress_sign)
    bad = json.loads(json.dumps([x for x in recs if x["f"] in (1, 2, 3)][:5]))
    for n, x in enumerate(bad):
        x["x"] = 1
        if not x["data"]:
            x["code"] = 1
        elif n == 0:
            x["data"][-1] ^= 1
        elif n == 1:
            x["hd"][128] += 1
        elif n == 2:
            x["hd"][12] ^= 1
        elif n == 3:
            x["changed"].append("other")
        else:
            x["code"] = 1
    return d.write("compress.ndjson", recs + bad)


# ---- reading images ------------------------------------------------------------------


def png_case(r, ct, bd, trns, inter, w, h):
    c, top = CHANNELS[ct], (1 << bd) - 1
    plte = t = None
    if ct == 3:
        size = r.randint(1, min(256, top + 1)) if r.random() < .5 else top + 1
        plte = [[r.randrange(256) for _ in range(3)] for _ in range(size)]
        samples = [r.randrange(size) for _ in range(w * h)]
        if trns:
            t = [r.randrange(256) for _ in range(r.randint(1, size))]
    else:
        mode = r.randrange(3)
        base = [r.randrange(top + 1) for _ in range(c)]
        samples = []
        for _ in range(w * h):
            p = [r.randrange(top + 1) for _ in range(c)]
            if mode == 1 and r.random() < .5:
                p = base[:]
                if r.random() < .5:      # nearly the transparent value
                    k = r.randrange(c)
                    p[k] = p[k] ^ (1 << r.randrange(bd))
            samples += p
        if trns:
            k = r.randrange(w * h) * c
            t = samples[k:k + c] if mode != 1 else base
    if ct in (0, 2, 4, 6) and r.random() < .1 and ct in (2, 6):
        plte = [[1, 2, 3]]               # a suggested palette, without meaning
    extra, late = [], []
    if r.random() < .15:
        extra.append((b"tEXt", b"Title\0" + bytes(r.randrange(32, 127) for _ in range(r.randrange(60)))))
    if r.random() < .15:
        extra.append((b"sRGB", bytes([r.randrange(4)])))
    if r.random() < .15:
        extra.append((b"cHRM", struct.pack(">8I", 31270, 32900, 64000, 33000, 30000, 60000, 15000, 6000)))
    if r.random() < .15:
        top8 = 8 if ct == 3 else bd
        extra.append((b"sBIT", bytes(r.randint(1, top8) for _ in range(3 if ct == 3 else c))))
    if r.random() < .15:
        late.append((b"tIME", struct.pack(">HBBBBB", 2020, 2, 3, 4, 5, 6)))
    if r.random() < .15:
        late.append((b"bKGD", bytes([0]) if ct == 3 else struct.pack(">H", 1) * (1 if ct in (0, 4) else 3)))
    if r.random() < .1:
        late.append((b"zzZz", b"private"))
    if r.random() < .15:                 # an animation: the image is still the one of IDAT
        first = r.random() < .5
        late_frame = struct.pack(">IIIIIHHBB", int(first), 1, 1, 0, 0, 1, 10, 0, 0)
        extra.append((b"acTL", struct.pack(">II", 1 + first, 0)))
        if first:
            extra.append((b"fcTL", struct.pack(">IIIIIHHBB", 0, w, h, 0, 0, 1, 10, 0, 0)))
        frame = zlib.compress(bytes(1 + (c * bd + 7) // 8))
        after = [(b"fcTL", late_frame), (b"fdAT", struct.pack(">I", 1 + first) + frame)]
    else:
        after = []
    if r.random() < .1:
        extra.append((b"iCCP", b"profile\0\0" + zlib.compress(bytes(r.randrange(256) for _ in range(200)))))
    if r.random() < .1:
        extra.append((b"zTXt", b"Comment\0\0" + zlib.compress(b"text" * 20)))
    if r.random() < .1:
        extra.append((b"iTXt", "Title\0\0\0de\0Titel\0über".encode()))
    if r.random() < .2:
        extra.append((b"gAMA", struct.pack(">I", r.choice([45455, 100000, 22000]))))
    if r.random() < .2:
        extra.append((b"pHYs", struct.pack(">IIB", 1, 2, 0)))
    data = png_file(ct, bd, w, h, samples, plte, t, inter, r, extra, late, after)
    px = png_pixels(ct, bd, w * h, samples, plte, t)
    return data, px, dict(ct=ct, bd=bd, s=samples, plte=plte or [], trns=t or [])


def read_trace(d, seed, reps, more):
    """C19: every colour type, depth, transparency and interlacing; grey and RGB JPEG"""
    cases = []

    def add(r, k, ext, data, w, h, px, extra, f=None, later=False):
        f = f or r.randint(1, 5)
        cases.append(dict(n=d.n + len(cases), r=r, k=k, name=names(r, [ext]), data=data, f=f, g=r.randrange(3), w=[],
                          aw=r.randrange(2), iw=w, ih=h, px=px, extra=extra))
        if later and w * h > 1000:
            cases[-1]["g"] = 0
        cases[-1].update(prof=PROFILES[cases[-1]["g"]], later=later)

    for rep in range(reps + more):
        for ct, depths in ((0, (1, 2, 4, 8, 16)), (2, (8, 16)), (3, (1, 2, 4, 8)), (4, (8, 16)), (6, (8, 16))):
            for bd in depths:
                for trns in (False, True) if ct in (0, 2, 3) else (False,):
                    for inter in (False, True):
                        r = random.Random("c19-%d-%s" % (seed, (rep, ct, bd, trns, inter)))
                        w, h = dims(r, 40)
                        if rep >= reps:
                            w, h = r.choice([(w, h), (r.randint(1, 48), r.randint(1, 48)), (r.randint(1, 700), 1),
                                             (1, r.randint(1, 700)), more_dims(r)])
                        if rep == reps and not inter:
                            w, h = r.choice([(65540, 1), (1, 65540), (32771, 2)])
                        data, px, extra = png_case(r, ct, bd, trns, inter, w, h)
                        # BC3 shows colour and alpha, BC5 red and green to the unit
                        f = [3, 5, 2, 1, 4][rep % 5]
                        add(r, "readpng", r.choice([".png", ".PNG", ".Png", ".pnG"]), data, w, h, px, extra, f, rep >= reps)
    jobs = []
    for n in range((reps + more) * 10):
        r = random.Random("c19j-%d-%d" % (seed, n))
        w, h = dims(r, 20) if n < reps * 10 else (r.randint(1, 70), r.randint(1, 70))
        if n % 60 == 59 and n >= reps * 10:
            w, h = r.choice([(260, 257), (257, 300), (4100, 17), (17, 4100), (65535, 2), (2, 65535)])
        k = r.randrange(3)

        def plane():
            if w * h > 5000:                   # tiles of their own grey
                t = [r.randrange(256) for _ in range(97)]
                return [t[(x // 8 + y // 8 * 5) % 97] for y in range(h) for x in range(w)]
            a, b, c = (r.randrange(256) for _ in range(3))
            if r.random() < .3:
                return [r.randrange(256) for _ in range(w * h)]
            return [(a + x * (b % 13) + y * (c % 7)) % 256 for y in range(h) for x in range(w)]

        q = r.choice([1, 1, 2, 6])
        kw = {}
        if r.random() < .5:                    # what a file may hold besides pixels
            kw["more"] = r.sample([(0xE1, exif(r.randint(1, 8), r.random() < .5)), (0xFE, b"a comment"), (0xE2, b"ICC_PROFILE\0\1\1" + bytes(200)),
                                   (0xED, b"Photoshop 3.0\0" + bytes(30)), (0xE1, b"http://ns.adobe.com/xap/1.0/\0<x/>"),
                                   (0xE5, bytes(5)), (0xE1, exif(r.randint(2, 8)))], r.randint(1, 4))
        if r.random() < .25:
            kw["restart"] = r.randint(1, 5)
        kw["progressive"] = r.random() < .25
        kw["sampling"] = r.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2)])
        if k == 0:
            data = jpeg_file(w, h, [plane()], q, jfif=r.choice([None, False]), **kw)
        else:
            kw.update(r.choice([dict(adobe=0, ids=(0, 1, 2)), dict(adobe=0, ids=(82, 71, 66)), dict(jfif=False, ids=(82, 71, 66)),
                                dict(adobe=0), dict(adobe=1), dict(adobe=1, ids=(0, 1, 2)), dict(ids=(0, 1, 2)), dict(jfif=False),
                                dict(), dict(), dict(adobe=0, jfif=True, ids=(0, 1, 2))]))
            data = jpeg_file(w, h, [plane(), plane(), plane()], q, **kw)
        p = os.path.join(d.base, "j%d.jpg" % n)
        with open(p, "wb") as f:
            f.write(data)
        jobs.append((r, p, data, w, h, n >= reps * 10))
    for (r, p, data, w, h, later), a in zip(jobs, d.answers(["j " + j[1] for j in jobs])):
        if a == "none":
            raise ToolError("jpeg-decoder rejects a generated file: " + p)
        kind, jw, jh, hexa = a.split(" ")
        if (int(jw), int(jh)) != (w, h):
            raise ToolError("jpeg-decoder disagrees about the size of " + p)
        s = list(bytes.fromhex(hexa))
        px = []
        for i in range(w * h):
            px += ([s[i]] * 3 if kind == "L" else s[3 * i:3 * i + 3]) + [255]
        add(r, "readjpeg", r.choice([".jpg", ".JPG", ".jpeg", ".JPEG", ".Jpg", ".jPEG"]), data, w, h, px, dict(kind=kind, s=s), None, later)
    d.n += len(cases)
    recs = d.all(lambda c: run_compress(d, c), cases)
    reference(d, recs)
    split = lambda later: [x for x, c in zip(recs, cases) if c["later"] == later]
    recs = screened(d, split(False), split(True), compress_sign)
    bad = json.loads(json.dumps(recs[:3]))
    for n, x in enumerate(bad):
        x["x"] = 1
        if n == 0 and x["data"]:
            x["data"][0] ^= 1
        elif n == 1:
            x["px"][0] ^= 1
        else:
            x["code"] = 101
    return d.write("read.ndjson", recs + bad)


# ---- decompress ----------------------------------------------------------------------


def dds_case(r, w, h):
    """a supported file; returns bytes, header length"""
    f = r.randint(1, 5)
    legacy = f <= 3 and r.random() < .4
    n = size(f, w, h)
    mode = r.randrange(3)
    data = bytes(r.randrange(256) for _ in range(n))
    if mode == 0:
        data = bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(n))
    kw = {}
    if r.random() < .4:
        kw["flags"] = 0x1007 | 0x80000
        kw["pitch"] = r.choice([n, 0, 12345])
    elif r.random() < .3:        # bytes in a row, of pixels or of blocks, padded or not
        kw["flags"] = 0x1007 | 8
        b = (w + 3) // 4 * size(f, 1, 1)
        kw["pitch"] = r.choice([b, b + 8, b + 16, (b + 255) // 256 * 256, 4 * w, b // 2, 0, 1])
    tail = b""
    if r.random() < .5:
        tail = bytes(r.randrange(256) for _ in range(r.choice([1, 8, 100, n, 3 * n])))
        if r.random() < .6:
            kw["flags"] = kw.get("flags", 0x1007) | 0x20000
            kw["mips"] = r.randint(1, 4)
            kw["caps"] = 0x401008
    if r.random() < .4:          # fields a reader of plain textures has no use for
        word = lambda: r.getrandbits(32)
        kw["reserved"] = bytes(r.randrange(256) for _ in range(44))
        kw["more"] = (word(), word(), word())
        kw["pf"] = (r.choice([4, 4, 5]), r.choice([0, 24, 32]), r.choice([0, word()]), r.choice([0, word()]), 0, 0)
        kw["depth"] = r.choice([0, 1, word()])      # its flag is not set
        kw.setdefault("pitch", word())              # nor is this one's
    if legacy:
        hd = dds_file(w, h, b"", fourcc=FOURCC[f], **kw)
    else:
        hd = dds_file(w, h, b"", dxgi=DXGI[f], alpha=r.randrange(5), array=1, **kw)
    return f, hd, data + tail


def run_decompress(d, case):
    r = case["r"]
    cwd = d.fresh_for(case)
    stem = case["name"][1]
    arg, rel = place(r, cwd, dict(case, data=case["hd"] + case["data"]))
    out, seen = outs(r, cwd, ".png")
    os.makedirs(os.path.join(cwd, "res"), exist_ok=True)
    target = seen or stem + ".png"
    if r.random() < .4 and target != rel:
        put(cwd, target, earlier(r, "png", case["w"], case["h"], case["f"]))
    bystanders(r, cwd, target, stem, r.choice([0, 3, 8]))
    before = snapshot(cwd)
    groups = [[arg]] + ([spelt(r, "o", "output", out)] if out else [])
    r.shuffle(groups)
    if groups[-1] == [arg] and r.random() < .2:
        groups.insert(-1, ["--"])
    args = ["decompress"] + [a for g in groups for a in g]
    code = d.call(args, cwd)
    after = snapshot(cwd)
    changed = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
    rec = dict(k="decompress", x=0, p=2 if code == HANG else 0, code=code, stem=printable(stem), out=printable(seen),
               changed=[printable(p) for p in changed], w=case["w"], h=case["h"], hd=list(case["hd"]), data=list(case["data"]),
               args=[printable(a) for a in args[1:]], f=case["f"])
    try:
        (pw, ph, depth, ctype, _, _, inter), o = read_png(after.get(target, b""))
    except (ValueError, struct.error, zlib.error):
        pw = ph = depth = ctype = -1
        o = []
    rec.update(pw=pw, ph=ph, depth=depth, ctype=ctype, o=o)
    shutil.rmtree(os.path.dirname(cwd), ignore_errors=True)
    return rec


def decompress_sign(x):
    target = x["out"] or x["stem"] + ".png"
    return (x["code"], x["p"], x["changed"] == [target], x["pw"] == x["w"], x["ph"] == x["h"], x["depth"], x["ctype"],
            x["o"] == x["want"], x["f"], len(x["hd"]))


def decompress_trace(d, seed, count, more):
    """C18: any supported file, and files compressed by texpresso itself"""
    cases = []
    for n in range(count + more):
        r = random.Random("c18-%d-%d" % (seed, n))
        w, h = dims(r) if n < count else more_dims(r)
        if n % 89 == 88:
            w, h = r.choice([(130, 61), (3, 260), (260, 3), (97, 64)])
        if n in (51, 52):
            w, h = [(65541, 1), (2, 65540)][n - 51]
        if n % 5 == 0 and n < count:       # through texpresso
            f = r.randint(1, 5)
            src = d.fresh_for(dict(n="own%d" % n))
            put(src, "i.png", rgba_png(w, h, pixels(r, w, h), r))
            code = d.call(["compress", "-f", FORMATS[f], "-p", "speed", "i.png"], src)
            made = snapshot(src).get("i.dds", b"")
            shutil.rmtree(os.path.dirname(src), ignore_errors=True)
            if code != 0 or len(made) < 148:
                continue      # C17's business
            hd, data = made[:148], made[148:]
        else:
            f, hd, data = dds_case(r, w, h)
        cases.append(dict(n=d.n + n, r=r, name=names(r, [".dds", ".dds", ".DDS", ".tex", ""]), f=f, hd=hd, data=data, w=w, h=h, later=n >= count))
    d.n += count + more
    recs = d.all(lambda c: run_decompress(d, c), cases)
    for x, a in zip(recs, d.answers(["s %d %d %d %s" % (x["f"], x["w"], x["h"], bytes(x["data"]).hex()) for x in recs])):
        x["want"] = list(bytes.fromhex(a))
    split = lambda later: [x for x, c in zip(recs, cases) if c["later"] == later]
    recs = screened(d, split(False), split(True), decompress_sign)
    for x in recs:
        del x["want"]
    bad = json.loads(json.dumps(recs[:4]))
    for n, x in enumerate(bad):
        x["x"] = 1
        if n == 0 and x["o"]:
            x["o"][-1] ^= 1
        elif n == 1:
            x["pw"] += 1
        elif n == 2:
            x["changed"].append("other")
        else:
            x["code"] = 101
    return d.write("decompress.ndjson", recs + bad)


# ---- sessions ------------------------------------------------------------------------


def cmyk_jpeg():
    return jpeg_file(9, 5, [[10] * 45, [200] * 45, [60] * 45, [90] * 45], 2, adobe=0)


class Pool:
    """the abstract contents of Cli.tla as bytes"""

    def __init__(self, seed):
        r = random.Random("c20-pool-%d" % seed)
        self.r = r
        img = lambda w, h: rgba_png(w, h, pixels(r, w, h), r)
        plane = lambda w, h: [r.randrange(256) for _ in range(w * h)]
        dds = lambda w, h, f: dds_file(w, h, bytes(r.randrange(256) for _ in range(size(f, w, h))), dxgi=DXGI[f])
        self.fixed = {
            "a.png": img(9, 6), "d/a.png": img(5, 5), "d/C.PNG": img(12, 3),
            "b.jpg": jpeg_file(9, 7, [plane(9, 7)], 3), "d/B.JPG": jpeg_file(6, 6, [plane(6, 6) for _ in range(3)], 3),
            "c.dds": dds(10, 6, 3), "noext": dds(3, 9, 5),
        }
        self.fixed["m.txt"] = self.fixed["a.png"]

    def of(self, kind, r, ext):
        full = rgba_png(14, 9, pixels(r, 14, 9))
        w, h = r.randint(1, 12), r.randint(1, 12)
        f = r.randint(1, 5)
        data = bytes(r.randrange(256) for _ in range(size(f, w, h)))
        if kind == "junk":
            return bytes(r.randrange(256) for _ in range(r.choice([1, 7, 60, 400])))
        if kind == "empty":
            return b""
        if kind == "cut":
            return full[:r.randint(8, full.index(b"IDAT") + 20)]
        if kind == "crc":            # a bit of the pixels or their checksum
            at, end = full.index(b"IDAT") + 4, full.index(b"IEND") - 5
            b = bytearray(full)
            b[r.randint(at, end)] ^= 1 << r.randrange(8)
            return bytes(b)
        if kind == "cutjpg":
            j = self.fixed[r.choice(["b.jpg", "d/B.JPG"])]
            return j[:r.randint(4, len(j) - 3)]
        if kind == "png":
            return self.fixed["a.png"]
        if kind == "dds":
            return self.fixed["c.dds"]
        if kind == "cmyk":
            return cmyk_jpeg()
        if kind == "few":
            full, fw, fh = rgba_png(14, 9, pixels(r, 14, 9)), 14 + r.randrange(2), r.choice([10, 12, 3000])
            head = struct.pack(">IIBBBBB", fw, fh, 8, 6, 0, 0, 0)
            return full[:8] + chunk(b"IHDR", head) + full[33:]
        if kind == "bomb":
            bw, bh = r.choice([(2**31 - 1, 2**31 - 1), (2**31, 4), (4, 2**31), (0, 4), (4, 0), (30000, 30000)])
            head = struct.pack(">IIBBBBB", bw, bh, r.choice([8, 16]), 6, 0, 0, 0)
            return full[:8] + chunk(b"IHDR", head) + full[33:]
        if kind == "huge":
            # sizes whose product is zero or small in the machine's arithmetic
            bw, bh = r.choice([(2**31, 2**31)] * 5 + [(2**32 - 1, 2**32 - 1), (2**31, 3 * 2**30), (1, 2**31), (2**31, 1),
                               (2**16, 2**30), (2**30, 2**32 - 4), (2**32 - 3, 2**30), (2**32 - 4, 1), (3 * 2**30, 2**32 - 2**30)])
            return dds_file(bw, bh, data, dxgi=DXGI[f])
        if kind == "plain":
            mask = r.choice([(0x41, 32, 0xff0000, 0xff00, 0xff, 0xff000000), (0x40, 24, 0xff0000, 0xff00, 0xff, 0),
                             (0x20000, 8, 0xff, 0, 0, 0), (0x40, 16, 0xf800, 0x7e0, 0x1f, 0)])
            return dds_file(w, h, bytes(4 * w * h), fourcc=bytes(4), pf=mask)
        if kind == "short":
            missing = r.choice([1, size(f, w, h), BLOCK[f], 3])
            big = r.random() < .3
            if big:
                return dds_file(4000, 3000, data, dxgi=DXGI[f])
            return dds_file(w, h, data[:-missing] if missing <= len(data) else b"", dxgi=DXGI[f])
        if kind == "fmt":
            n = r.randrange(4)
            if n == 0:
                return dds_file(w, h, data + data, fourcc=r.choice([b"DXT2", b"DXT4", b"YUY2", b"ABCD", b"q\0\0\0"]))
            if n == 1:
                return dds_file(w, h, data * 8, dxgi=r.choice([2, 28, 29, 61, 81, 84, 87, 95, 96, 98, 99, 70, 9999, 0]))
            if n == 2:
                return dds_file(w, h, data + data, dxgi=DXGI[f], magic=b"DDX ")
            return dds_file(w, h, data + data, dxgi=DXGI[f], hsize=r.choice([0, 100, 125]))
        if kind == "dim":
            return dds_file(w, h, data, dxgi=DXGI[f], dim=r.choice([0, 1, 2, 4, 7]))
        if kind == "zero":
            w, h = r.choice([(0, h), (w, 0), (0, 0)])
            if f <= 3 and r.random() < .4:
                return dds_file(w, h, data, fourcc=FOURCC[f])
            return dds_file(w, h, data, dxgi=DXGI[f])
        if kind == "cutdds":
            return dds_file(w, h, data, dxgi=DXGI[f])[:r.randint(4, 147)]
        raise ToolError("kind " + kind)


def command(c, r):
    args = [c["op"], c["in"]]
    if c["out"]:
        args += ["-o", c["out"]]
    fault = c["fault"]
    if c["op"] == "compress":
        if fault != "noformat":
            args += ["-f", r.choice(["bc7", "bc6", "bc0", "bc", "", "bc12", "bc6h", "5", "c1"]) if fault == "format" else FORMATS[c["f"]]]
        args += ["-p", r.choice(["best", "", "qual", "speed,quality", "0"]) if fault == "profile" else PROFILES[c["g"]]]
        if fault == "word":
            args += ["-w", "1", "-w", r.choice(["one", "", "1,2", "0x1"]), "-w", "2"]
        n = {"weights1": 1, "weights2": 2, "weights4": 4}.get(fault, 0)
        for k in range(n):
            args += ["-w", str(k + 1)]
    if fault == "flag":
        args += ["--no-such-flag"]
    if fault == "extra":
        args += [r.choice(["a.png", "c.dds", "x"])]
    if fault == "noinput":
        args.remove(c["in"])
    if fault == "help":
        args.insert(r.choice([0, 1, len(args)]), r.choice(["--help", "-h"]))
    if fault == "version":
        args.insert(0, r.choice(["--version", "-V"]))
    if fault == "helpcmd":
        args = ["help", c["op"]][:r.choice([1, 2, 2])]
    if fault == "badop":
        args[0] = r.choice(["convert", "Compress", "compres", ""])
    return args


# the paths commands name (Paths, Gone and Outs of CliDefs)
KNOWN = ["a.png", "b.jpg", "c.dds", "m.txt", "noext", "d/a.png", "d/B.JPG", "d/C.PNG", "bad.png", "bad.dds",
         "fake.jpg", "a.dds", "b.dds", "B.dds", "C.dds", "c.png", "m.png", "o.bin", "d/o.dds", "missing.png",
         "bad.dds", "bad.png", "fake.dds", "m.dds", "noext.png", "noext.dds", "o.png", "o.dds", "a.png", "B.png", "C.png",
         "d.png", "d.dds", "missing.dds", "fake.png", "b.png"]


# names whose extension says neither PNG nor JPEG
UNKNOWN = ["m.txt"] * 6 + ["m.jpe", "m.jfif", "m.apng", "m.bmp", "m.gif", "m.tga", "m.pn", "m.pngx", "m.jp2", "m.jp",
                           "m.xpng", "m.jpg2", "m.jpgx", "m.ajpg", "png", "jpeg", ".png", ".jpg", "m.png.bak", "m.png~", "m.png.",
                           "m.jpg.txt", "m.p", "m_png", "m.dds", "m.ping", "m.jpeeg", "m. png", "m.png "]


def session_trace(d, seed, histories):
    """C20: histories generated from Cli.tla, run by the real program"""
    pool = Pool(seed)

    def one(arg):
        n, hist = arg
        r = random.Random("c20-%d-%d" % (seed, n))
        cwd = d.fresh_for(dict(n="s%d" % n))
        for p, data in pool.fixed.items():
            put(cwd, p, data)
        world = hist["world"]
        for p, kind in zip(("bad.png", "bad.dds", "fake.jpg"), world):
            put(cwd, p, pool.of(kind, r, p))
        for p in ("a.dds", "c.png", "B.dds", "o.bin"):
            bystanders(r, cwd, p, p[:1], 12)
        for p in KNOWN:                # what CliDefs takes to be absent at first
            if p not in pool.fixed and p not in ("bad.png", "bad.dds", "fake.jpg") and os.path.exists(os.path.join(cwd, p)):
                os.remove(os.path.join(cwd, p))
        # the picture whose type cannot be told goes by a name of its own in each session
        alias = r.choice(UNKNOWN)
        os.rename(os.path.join(cwd, "m.txt"), os.path.join(cwd, alias))
        if r.random() < .3:
            put(cwd, alias, pool.fixed["b.jpg"])

        def files():
            return {"m.txt" if p == alias else p: b for p, b in snapshot(cwd).items()}

        init = files()
        steps, prev = [], init
        for s in hist["steps"]:
            c = s["c"]
            code = d.call(command(dict(c, **{"in": alias}) if c["in"] == "m.txt" else c, r), cwd)
            now = files()
            steps.append((c, code, now, prev.get(c["in"])))
            prev = now
        shutil.rmtree(os.path.dirname(cwd), ignore_errors=True)
        return world, init, steps

    done = d.all(one, list(enumerate(histories)))
    ids = {}

    def ident(b):
        return ids.setdefault(hashlib.sha256(b).digest(), len(ids) + 1)

    def listing(s):
        return [[p, ident(b)] for p, b in sorted(s.items())]

    recs, groups = [], {}
    for world, init, steps in done:
        recs.append(dict(k="ses", x=0, p=0, world=world, init=listing(init),
                         steps=[dict(c=c, code=code, fs=listing(fs)) for c, code, fs, _ in steps]))
        for c, code, fs, read in steps:
            if code == 0 and c["fault"] == "none" and read is not None:
                out = c["out"] or target_of(c)
                # what the command line says but for the names, and the bytes read
                reader = os.path.splitext(c["in"])[1].lower() if c["op"] == "compress" else ""
                how = (c["f"], c["g"]) if c["op"] == "compress" else ()
                key = (c["op"], how, reader, ident(read))
                groups.setdefault(key, set()).add(ident(fs[out]) if out in fs else 0)
    det = [dict(k="grp", x=0, p=0, rel="det", key=list(map(str, k)),
                calls=[dict(key=1, out=v) for v in sorted(vs)]) for k, vs in groups.items()]
    # corrupted: one-step sessions that fail wrongly, succeed wrongly, or touch another file
    bad = []
    for r in recs:
        s = r["steps"][0]
        if len(bad) < 6:
            b = json.loads(json.dumps(dict(r, steps=[s], x=1)))
            if s["code"] != 0:
                if len(bad) % 2:
                    b["steps"][0]["code"] = 0
                else:
                    b["steps"][0]["fs"][0][1] = -1
            else:
                t = s["c"]["out"] or target_of(s["c"]) if s["c"]["fault"] == "none" else ""
                k = next(i for i, p in enumerate(b["steps"][0]["fs"]) if p[0] != t)
                b["steps"][0]["fs"][k][1] = -1
            bad.append(b)
    d.run.executed += sum(len(r["steps"]) for r in recs) - len(recs) - len(bad)
    ok = sum(1 for r in recs for s in r["steps"] if s["code"] == 0 and s["c"]["fault"] == "none")
    d.run.notes.append("%d sessions, %d commands of which %d succeeded, %d distinct command/input pairs" %
                       (len(recs), sum(len(r["steps"]) for r in recs), ok, len(groups)))
    det.append(dict(k="grp", x=1, p=0, rel="det", calls=[dict(key=1, out=1), dict(key=1, out=2)]))
    return d.write("sessions.ndjson", recs + bad), d.write("functional.ndjson", det)


def target_of(c):
    stem = os.path.splitext(os.path.basename(c["in"]))[0]
    return stem + (".dds" if c["op"] == "compress" else ".png")
