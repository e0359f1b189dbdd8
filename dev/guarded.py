#!/usr/bin/env python3
"""guarded.py WORK COUNT [SEED]: mutants that show only under a condition on the block.

Takes the mutations of mutate.py and lets each act only when a condition on the input holds (a
byte's value, the number of colours, the mask, the parameters: one block in four to one in some
hundreds; with PAIRS set, two conditions), as a bug that needs something specific would.  Runs the
checks as mutate.py does; a mutant nothing notices is tried again without its condition, and only
if that is noticed it
counts as missed.  WORK/guarded.jsonl lists the results."""
import json, os, random, re, sys, threading, queue
sys.argv, ARGV = [sys.argv[0], sys.argv[1]], sys.argv
import mutate

WORK = ARGV[1]
PIX = ["rgba[5][1] & 31 == 7", "mask == 0x7fff", "mask.count_ones() == 9", "rgba[0] == rgba[15]", "mask == 0xfffe",
       "rgba[15][3] == 128", "rgba[3][0] == 255", "mask & 0x8001 == 0x8000", "rgba[2][3] == 0", "rgba[7][3] & 15 == 9",
       "mask == 0x0033", "mask == 0x1111", "mask.count_ones() < 3", "rgba[9][0] > 250", "rgba[9][0] == 0",
       "rgba[4] == rgba[5] && rgba[5] == rgba[6]", "rgba.iter().filter(|p| p[3] < 128).count() == 3",
       "rgba.iter().map(|p| u32::from(p[0])).sum::<u32>() % 37 == 5", "mask & 0x0ff0 == 0"]
CHAN = ["channel == 1", "channel == 0 && mask != 0xffff", "rgba[6][channel] == 255", "rgba[6][channel] == 0",
        "channel == 3 && rgba[1][3] == 254", "rgba[0][channel] == rgba[8][channel]"]
SET = ["self.colourset.count() == %d" % n for n in (2, 3, 4, 5, 7, 9, 12, 14, 15, 16)] + [
       "self.colourset.weights()[0] > 2.9", "self.colourset.points()[0].x() == 1.0", "self.weights.x() == 0.0",
       "self.format == Format::Bc3", "self.format == Format::Bc2", "self.colourset.is_transparent() && self.colourset.count() < 5",
       "self.colourset.is_transparent() && self.colourset.count() > 9", "self.weights.y() == 1.0 && self.colourset.count() > 6",
       "self.colourset.weights()[1] < 0.3", "self.colourset.weights()[self.colourset.count() - 1] > 1.5",
       "self.colourset.points()[0].y() == 0.0", "self.format == Format::Bc1 && self.colourset.count() == 16"]
ITER = ["iteration_index == 1", "iteration_index > 2", "iteration_index > 0 && self.colourset.count() == 6"]
IDX = ["indices[7] == 3 && indices[15] == 3", "indices[0] == indices[15] && indices[1] == 2", "indices.iter().all(|&i| i < 2)",
       "indices.iter().filter(|&&i| i == 2).count() > 9"]
GUARDS = {
    ("alpha.rs", "compress_bc2"): PIX, ("alpha.rs", "compress_bc3"): PIX + CHAN, ("alpha.rs", "fit_codes"): PIX + CHAN,
    ("alpha.rs", "write_alpha_block"): ["alpha0 == alpha1 + 5", "alpha0 == 255", "alpha1 == 255", "alpha0 == 0", "indices[15] == 7",
                                        "indices.iter().filter(|&&i| i == 6).count() == 2"],
    ("alpha.rs", "write_alpha_block5"): ["alpha0 == 255 - alpha1", "alpha1 == 255", "indices[3] == 6", "indices[12] == 5"],
    ("alpha.rs", "write_alpha_block7"): ["alpha0 == 255", "alpha1 == 255", "indices[3] == 6", "indices[12] == 5"],
    ("alpha.rs", "fix_range"): ["*min == 0", "*max == 255", "*max - *min == steps - 1", "*min == *max", "*min == 250"],
    ("alpha.rs", "decompress_bc3"): ["bytes[0] == bytes[1]", "bytes[0] == 255", "bytes[7] == 0xff", "bytes[4] & 0xf0 == 0x50", "channel == 1"],
    ("alpha.rs", "decompress_bc2"): ["bytes[0] == 0xff", "bytes[3] & 15 == 9"],
    ("colourset.rs", "new"): PIX + ["alpha_weighted && mask != 0xffff", "format == Format::Bc3 && alpha_weighted", "i == 11", "i == 15",
                                    "set.count == 9", "set.transparent && set.count == 3"],
    ("colourset.rs", "remap_indices"): ["self.count == 3", "self.count == 16", "self.transparent && self.count == 5", "source[0] == 3", "self.count == 11"],
    ("cluster.rs", "construct_ordering"): SET + ["iteration == 1", "iteration > 2"],
    ("cluster.rs", "compress3"): SET + ITER, ("cluster.rs", "compress4"): SET + ITER,
    ("range.rs", "compression_helper"): SET, ("range.rs", "compress3"): SET, ("range.rs", "compress4"): SET,
    ("range.rs", "new"): [g.replace("self.", "fit.") for g in SET if "weights.x" not in g and "weights.y" not in g],
    ("single.rs", "compute_endpoints"): ["self.format == Format::Bc1", "self.colourset.is_transparent()", "self.colourset.points()[0].x() == 1.0",
                                         "self.colourset.points()[0].y() < 0.05", "self.colourset.weights()[0] == 1.0"],
    ("single.rs", "compress3"): ["self.colourset.is_transparent()", "self.error == 0", "self.error > 2", "self.colourset.weights()[0] < 1.1"],
    ("single.rs", "compress4"): ["self.format == Format::Bc3", "self.error == 0", "self.error > 1", "self.colourset.weights()[0] < 1.1"],
    ("colourblock.rs", "write3"): IDX + ["pack_565(start) & 0x1f == 31", "pack_565(end) == pack_565(start)", "pack_565(end) >> 11 == 0"],
    ("colourblock.rs", "write4"): IDX + ["pack_565(start) & 0x1f == 31", "pack_565(end) == pack_565(start)", "pack_565(end) >> 11 == 0"],
    ("colourblock.rs", "write_block"): IDX + ["a == b", "a & 0x1f == 31"],
    ("colourblock.rs", "decompress"): ["bytes[7] == 0xff", "bytes[0] == bytes[2]", "bytes[1] == 0xff && bytes[3] == 0xff", "bytes[4] == 0xe4", "!is_bc1"],
    ("lib.rs", "compress"): ["width % 4 == 3 && height > 4", "width == 1", "height % 4 == 1 && height > 8", "blocks_wide > 8", "width * height > 2000", "width == height"],
    ("lib.rs", "decompress"): ["width % 4 == 3 && height > 4", "width == 1", "height % 4 == 1 && height > 8", "blocks_wide > 8", "width * height > 2000", "width == height"],
    ("lib.rs", "compress_block_masked"): PIX + ["params.weigh_colour_by_alpha && mask.count_ones() == 12", "params.weights[2] == 0.0"],
    ("lib.rs", "decompress_block"): ["block[0] == block[1]", "block[7] == 0xff", "block[0] == 0"],
    ("main.rs", "compress_file"): ["format == Format::Bc5", "format == Format::Bc1 && params.weigh_colour_by_alpha", "outfile.exists()",
                                   "outfile.components().count() > 1", "params.weights[0] == 0.0", "infile.components().count() > 1"],
    ("main.rs", "decompress_file"): ["outfile.exists()", "outfile.components().count() > 1"],
    ("png.rs", "read"): ["path.components().count() > 1"],
    ("png.rs", "write"): ["width == 3", "height > 20", "width % 4 == 1 && height % 4 == 3", "data[0] == 255", "width > 255"],
}
MATH = {"math.rs": ["points.len() == %d" % n for n in (3, 4, 6, 11, 16)] + ["weights[0] > 2.0", "points[0].x() == points[1].x()", "weights[1] < 0.4"]}


def enclosing(lines, i):
    while i >= 0:
        m = re.match(r"\s*(?:pub )?fn (\w+)", lines[i])
        if m:
            return m.group(1)
        i -= 1


def guard(old, new, g):
    o, n = old.split("//")[0].rstrip(), new.rstrip()
    ind = re.match(r"\s*", o).group(0)
    m, k = [re.match(r"\s*let (mut )?(\w+) = (.*);$", s) for s in (o, n)]
    if m and k:
        return "%slet %s%s = if %s { %s } else { %s };" % (ind, m.group(1) or "", m.group(2), g, k.group(3), m.group(3))
    m, k = [re.match(r"\s*(\} else )?if (.*) \{$", s) for s in (o, n)]
    if m and k:
        return "%s%sif (if %s { %s } else { %s }) {" % (ind, m.group(1) or "", g, k.group(2), m.group(2))
    m, k = [re.match(r"\s*for (\w+) in (.*) \{$", s) for s in (o, n)]
    if m and k:
        return "%sfor %s in (if %s { %s } else { %s }) {" % (ind, m.group(1), g, k.group(2), m.group(2))
    if o.endswith(";") and (n.endswith(";") or not n.strip() or n.strip() == "{}") and "let " not in o and o.count("(") == o.count(")") \
            and o.count("{") == o.count("}") and re.match(r"\s*[a-z*]", o):
        return "%sif %s { %s } else { %s }" % (ind, g, n.strip(), o.strip())


def main():
    rng = random.Random(int(ARGV[3]) if len(ARGV) > 3 else 1)
    pool = {}
    for f in mutate.FILES:
        base = os.path.basename(f)
        text = open("/repo/" + f).read()
        lines = text.split("\n")
        for i, new in mutate.mutations(f, text):
            fn = enclosing(lines, i)
            gs = GUARDS.get((base, fn)) or (MATH.get(f.split("src/")[1]) if fn == "weighted_covariance" else None)
            if not gs:
                continue
            pool.setdefault((base, fn), []).append((f, i, lines[i], new, gs))
    if os.environ.get("CLI"):
        pool = {k: v for k, v in pool.items() if v[0][0].startswith("cli")}
    todo = []
    while len(todo) < int(ARGV[2]):
        f, i, old, new, gs = rng.choice(pool[rng.choice(sorted(pool))])
        g = rng.choice(gs)
        if os.environ.get("PAIRS"):      # rarer still
            g = "%s && %s" % (g, rng.choice(gs))
        s = guard(old, new, g)
        if s:
            todo.append(dict(file=f, line=i, old=old, new=s, plain=new, guard=g))
    os.makedirs(WORK, exist_ok=True)
    q = queue.Queue()
    for m in todo:
        q.put(m)
    lock = threading.Lock()

    def work(k):
        w = mutate.setup(k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            try:
                mutate.judge(w, m)
                if m.get("state") == "survives" and not m.get("by"):
                    p = dict(file=m["file"], line=m["line"], old=m["old"], new=m["plain"])
                    mutate.judge(w, p)
                    m["unguarded"] = p.get("by") or p["state"]
            except Exception as e:
                m["state"] = "error " + repr(e)
            with lock:
                open(WORK + "/guarded.jsonl", "a").write(json.dumps(m) + "\n")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(mutate.N)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
