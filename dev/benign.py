#!/usr/bin/env python3
"""benign.py [-j N] [ID..]: other correct implementations, on which the checks must stay quiet.

Unlike a refactoring these may change output bytes, in ways no property forbids: ties, more
accurate arithmetic, a better search.  Works on copies under /tmp/benign."""
import os, subprocess, sys, threading, queue, time

L = "lib/src/"
LIB = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C21 C22 C23 C24"
FIT = "C05 C08 C09 C10 C11 C12 C13 C14 C15 C21 C22 C23 C24"
CLI = "C17 C18 C19 C20"
V = {}


def variant(id, checks, *edits):
    V[id] = (checks.split(), edits)


variant("axis-long", FIT, (L + "math.rs", "const POWER_ITERATION_COUNT: usize = 8;", "const POWER_ITERATION_COUNT: usize = 40;"))
variant("axis-negated", FIT, (L + "math.rs", "                axis = other;", "                axis = other * -1.0;"))
variant("cluster-last-of-ties", FIT, (L + "colourfit/cluster.rs", "if error.any_less_than(&best_error) {", "if !best_error.any_less_than(&error) {"))
# with the iterations of each palette judged on their own (sharing the best error of the other
# palette, as the code does for one iteration, would break C13 and C23)
variant("cluster-always-iterates", FIT, (L + "colourfit/cluster.rs", "num_iterations: if iterate { MAX_ITERATIONS } else { 1 },",
        "num_iterations: if iterate { MAX_ITERATIONS } else { 2 },"),
        (L + "colourfit/cluster.rs", "let mut best_error = self.best_error;",
         "let mut best_error = Vec4::new(f32::MAX, f32::MAX, f32::MAX, f32::MAX);"))
variant("iterations-on-their-own", FIT, (L + "colourfit/cluster.rs", "let mut best_error = self.best_error;",
         "let mut best_error = Vec4::new(f32::MAX, f32::MAX, f32::MAX, f32::MAX);"))
variant("cluster-backwards", FIT, (L + "colourfit/cluster.rs", "dps.sort_unstable_by(|a, b| fcmp(a.1, b.1));",
        "dps[..count].sort_unstable_by(|a, b| fcmp(b.1, a.1));"))
variant("cluster-double", FIT, (L + "colourfit/cluster.rs", '''                    let factor =
                        ((alpha2_sum * beta2_sum) - alphabeta_sum * alphabeta_sum).reciprocal();
                    let a = ((alphax_sum * beta2_sum) - betax_sum * alphabeta_sum) * factor;
                    let b = ((betax_sum * alpha2_sum) - alphax_sum * alphabeta_sum) * factor;
''', '''                    let (a, b) = {
                        let aa = f64::from(alpha2_sum.w());
                        let bb = f64::from(beta2_sum.w());
                        let ab = f64::from(alphabeta_sum.w());
                        let d = aa * bb - ab * ab;
                        let f = |x: f32, y: f32| ((f64::from(x) * bb - f64::from(y) * ab) / d) as f32;
                        let g = |x: f32, y: f32| ((f64::from(y) * aa - f64::from(x) * ab) / d) as f32;
                        let (p, q) = (alphax_sum, betax_sum);
                        (
                            Vec4::new(f(p.x(), q.x()), f(p.y(), q.y()), f(p.z(), q.z()), 0.0),
                            Vec4::new(g(p.x(), q.x()), g(p.y(), q.y()), g(p.z(), q.z()), 0.0),
                        )
                    };
'''))
variant("four-first", FIT, (L + "colourfit.rs", '''            self.compress3();
            if !self.is_transparent() {
                self.compress4();
            }
''', '''            if !self.is_transparent() {
                self.compress4();
            }
            self.compress3();
'''))
variant("range-last-of-ties", FIT, (L + "colourfit/range.rs", "if dot < min {", "if dot <= min {"),
        (L + "colourfit/range.rs", "} else if dot > max {", "}\n                if dot >= max {"),
        (L + "colourfit/range.rs", "if d < dist {", "if d <= dist {"))
variant("range-chosen-by-rounded", FIT, (L + "colourfit/range.rs", '''        let codes = [self.start, self.end, self.start * 0.5 + self.end * 0.5];
''', '''        let level = |v: Vec3| (v * 255.0 + Vec3::new(0.5, 0.5, 0.5)).truncate() * (1.0 / 255.0);
        let (start, end) = (level(self.start), level(self.end));
        let codes = [start, end, level(start * 0.5 + end * 0.5)];
'''), (L + "colourfit/range.rs", '''            self.start * (2.0 / 3.0) + self.end * (1.0 / 3.0),
            self.start * (1.0 / 3.0) + self.end * (2.0 / 3.0),
''', '''            (self.start * (2.0 / 3.0) + self.end * (1.0 / 3.0) + Vec3::new(0.0, 0.0, 0.0)),
            (self.start * (1.0 / 3.0) + self.end * (2.0 / 3.0)),
'''))
variant("single-ties", "C05 C08 C09 C14 C22 C24 C21", (L + "colourfit/single.rs", "if error < self.error {", "if error <= self.error {"),
        (L + "colourfit/single.rs", "if self.error < self.best_error {", "if self.error <= self.best_error {"))
variant("ramp-ties", "C07 C06 C08 C21 C22 C24 C03", (L + "alpha.rs", "if dist < least {", "if dist <= least {"),
        (L + "alpha.rs", "if err5 <= err7 {", "if err5 < err7 {"))
variant("ramp-search", "C07 C08 C21 C22", (L + "alpha.rs", '''    // save the block with the least error
    if err5''', '''    // a wider ramp may do better
    for lo in min7.saturating_sub(1)..=min7 {
        for hi in max7..=max7.saturating_add(1) {
            let mut wide = [0u8; 8];
            for i in 0..8u32 {
                wide[i as usize] = match i {
                    0 => lo,
                    1 => hi,
                    _ => (((8 - i) * u32::from(lo) + (i - 1) * u32::from(hi)) / 7) as u8,
                };
            }
            let mut found = [0u8; 16];
            let err = fit_codes(rgba, channel, mask, wide, &mut found);
            if err < err5 && err < err7 && lo < hi {
                // the ramp as a decoder sees it runs from the higher end
                let mut seen = [0u8; 8];
                for i in 0..8u32 {
                    seen[i as usize] = match i {
                        0 => hi,
                        1 => lo,
                        _ => (((8 - i) * u32::from(hi) + (i - 1) * u32::from(lo)) / 7) as u8,
                    };
                }
                let err = fit_codes(rgba, channel, mask, seen, &mut found);
                if err < err5 && err < err7 {
                    write_alpha_block(hi, lo, &found, block);
                    return;
                }
            }
        }
    }

    // save the block with the least error
    if err5'''))
variant("explicit-integer", "C06 C08 C22 C24", (L + "alpha.rs", '''let mut quant1 = f32_to_i32_clamped(alpha1, 15) as u8;
''', '''let mut quant1 = ((u32::from(rgba[2 * i][3]) + 8) / 17) as u8;
        let _ = alpha1;
'''))
variant("masked-index", LIB, (L + "colourset.rs", "set.remap[i] = -1;\n                continue;\n            }\n\n            // DXT",
        "set.remap[i] = -2;\n                continue;\n            }\n\n            // DXT"),
        (L + "colourset.rs", "            if j == -1 {", "            if j == -2 {\n                *target = 1;\n            } else if j == -1 {"))
variant("set-backwards", FIT, (L + "colourset.rs", '''        // square root the weights
''', '''        let n = set.count;
        set.points[..n].reverse();
        set.weights[..n].reverse();
        for r in set.remap.iter_mut() {
            if *r >= 0 {
                *r = n as i8 - 1 - *r;
            }
        }

        // square root the weights
'''))
variant("decode-columns", "C01 C02 C16 C21 C04", (L + "lib.rs", '''                for py in 0..4 {
                    for px in 0..4 {
                        // get target location''', '''                for px in 0..4 {
                    for py in (0..4).rev() {
                        // get target location'''))
variant("compress-fresh", "C03 C04 C08 C21 C16", (L + "lib.rs", '''            let mut source_rgba = [[0u8; 4]; 16];
            let output_blocks''', '''            let output_blocks'''),
        (L + "lib.rs", "                let mut mask = 0u32;\n", "                let mut mask = 0u32;\n                let mut source_rgba = [[77u8; 4]; 16];\n"))
variant("dds-buffered", CLI, ("cli/src/main.rs", '''    let mut outfile = File::create(outfile).expect("Failed to create output file");
    dds.write(&mut outfile).unwrap();
''', '''    let mut bytes = Vec::new();
    dds.write(&mut bytes).unwrap();
    std::fs::write(outfile, bytes).expect("Failed to create output file");
'''))
variant("png-fast", CLI, ("cli/src/image/png.rs", "    encoder.set_depth(BitDepth::Eight);\n",
        "    encoder.set_depth(BitDepth::Eight);\n    encoder.set_compression(png::Compression::Fast);\n    encoder.set_filter(png::FilterType::Paeth);\n"))
variant("exit-code", CLI, ("cli/src/main.rs", '''    if dds.data.len() < format.compressed_size(width, height) {
        panic!("Not enough data for an image of this size");
    }''', '''    if dds.data.len() < format.compressed_size(width, height) {
        eprintln!("Not enough data for an image of this size");
        std::process::exit(3);
    }'''))

if __name__ == "__main__":
    args, jobs = sys.argv[1:], 3
    if args[:1] == ["-j"]:
        jobs, args = int(args[1]), args[2:]
    sys.argv = [sys.argv[0], "/tmp/benign"]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import mutate
    subprocess.run(["rm", "-rf", "/tmp/benign"])
    q = queue.Queue()
    for i in args or V:
        q.put(i)
    lock = threading.Lock()
    bad = []

    def work(k):
        w = mutate.setup(k)
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            checks, edits = V[i]
            for path, old, new in edits:
                p = w + "/repo/" + path
                s = open(p).read()
                if old not in s:
                    print(i, "text not found in", path, flush=True)
                open(p, "w").write(s.replace(old, new))
            for c in checks:
                t = time.time()
                code, out = mutate.sh([sys.executable, "check.py", c, os.environ.get("VERIF_TIER", "quick")], w + "/verif", 3600)
                with lock:
                    if code:
                        bad.append((i, c))
                        line = [s for s in out.split("\n") if s.startswith("# broken")] or [l for l in out.split("\n") if l.startswith("error")][:3] or [out[-300:]]
                        print("%-24s %s ALARM exit=%d %4.0f s %s" % (i, c, code, time.time() - t, line[0][:400]), flush=True)
            print("%-24s done (%s)" % (i, " ".join(checks)), flush=True)
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w + "/repo")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print("alarms:", bad)
    subprocess.run(["rm", "-rf", "/tmp/benign"])
