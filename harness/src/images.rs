//! Whole images, sizes, buffers, schedules and exhaustive sweeps.

use crate::codec::*;
use crate::gen;
use crate::rng::{mix, Rng};
use crate::screen;
use crate::{stats, Recorder};
use texpresso::Params;

#[derive(Clone, Copy)]
struct Shape {
    f: u8,
    w: usize,
    h: usize,
}

impl Shape {
    fn bw(&self) -> usize {
        (self.w + 3) / 4
    }
    fn bh(&self) -> usize {
        (self.h + 3) / 4
    }
    fn size(&self) -> usize {
        self.bw() * self.bh() * bsize(self.f)
    }
    fn json(&self, k: &str) -> J {
        J::new(k).n("f", self.f.into()).n("w", self.w as i64).n("h", self.h as i64).n("x", 0)
    }
}

/// the pixel formula shared with Image.tla: a pattern of which cells of a[5] x a[5] pixels are
/// alike, that repeats after a[6] columns and a[7] rows, and that is opaque from alpha a[8] on
fn formula(a: &[i64; 9], x: usize, y: usize, k: usize) -> u8 {
    let (x, y, k) = (x as i64 % a[6] / a[5] * a[5], y as i64 % a[7] / a[5] * a[5], k as i64);
    let v = ((x * a[0] + y * a[1] + k * a[2] + (x / 4) * (y / 4) * a[3]) % 251 + a[4] * ((x + y) % 4)) % 256;
    if k == 3 && v >= a[8] {
        255
    } else {
        v as u8
    }
}

fn pick_formula(r: &mut Rng) -> [i64; 9] {
    const NEVER: i64 = 1 << 24;
    let period = |r: &mut Rng| r.pick(&[NEVER, NEVER, NEVER, 1, 4, 5, 8, 12, 16, 20, 64, 256]);
    [
        r.range(1, 50),
        r.range(1, 50),
        r.range(1, 90),
        r.range(0, 5),
        r.range(0, 80),
        r.pick(&[1, 1, 1, 2, 3, 4, 4, 8, 16, 1 << 24]),
        period(r),
        period(r),
        r.pick(&[256, 256, 0, 128, 200]),
    ]
}

fn by_formula(a: &[i64; 9], w: usize, h: usize) -> Vec<u8> {
    let mut v = vec![0u8; 4 * w * h];
    for y in 0..h {
        for x in 0..w {
            for k in 0..4 {
                v[4 * (y * w + x) + k] = formula(a, x, y, k);
            }
        }
    }
    v
}

fn tile(px: &[u8], s: Shape, bx: usize, by: usize, junk: &mut dyn FnMut() -> u8) -> (u32, gen::Px) {
    let mut t = [0u8; 64];
    let mut m = 0;
    for i in 0..16 {
        let (x, y) = (4 * bx + i % 4, 4 * by + i / 4);
        for k in 0..4 {
            t[4 * i + k] = if x < s.w && y < s.h { px[4 * (y * s.w + x) + k] } else { junk() };
        }
        if x < s.w && y < s.h {
            m |= 1 << i;
        }
    }
    (m, t)
}

fn noisy(r: &mut Rng, w: usize, h: usize) -> Vec<u8> {
    // blocks of the usual families, or noise
    let mut v = vec![0u8; 4 * w * h];
    let (bw, bh) = ((w + 3) / 4, (h + 3) / 4);
    let mut seen: Vec<gen::Px> = vec![];
    for by in 0..bh {
        for bx in 0..bw {
            let n = seen.len();
            let t = match r.below(9) {
                0 if n > 0 => gen::alike(r, &seen[n - 1]),
                1 if by > 0 => gen::alike(r, &seen[n - bw]),
                2 if n > 0 => {
                    let k = r.below(n as u64) as usize;
                    gen::alike(r, &seen[k])
                }
                _ => gen::block(r),
            };
            seen.push(t);
            for i in 0..16 {
                let (x, y) = (4 * bx + i % 4, 4 * by + i / 4);
                if x < w && y < h {
                    v[4 * (y * w + x)..4 * (y * w + x) + 4].copy_from_slice(&t[4 * i..4 * i + 4]);
                }
            }
        }
    }
    v
}

fn pick_params(r: &mut Rng) -> (u8, [u32; 3], u8) {
    (r.below(3) as u8, gen::weights(r, 20), r.chance(1, 3) as u8)
}

fn excess(r: &mut Rng, s: Shape) -> usize {
    match r.below(6) {
        0..=2 => 0,
        3 => r.below(70) as usize,
        4 => s.bw() * bsize(s.f) * (1 + r.below(3) as usize), // whole rows of blocks
        _ => 16 * s.w * (1 + r.below(2) as usize) + r.below(7) as usize,
    }
}

struct Ctx {
    r: Recorder,
    executed: u64,
    suspects: u64,
    shown: Vec<String>,
}

impl Ctx {
    fn put(&mut self, s: String) {
        if self.shown.len() < 2 && s.len() < 20_000 {
            self.shown.push(s.clone());
        }
        self.r.put(&s);
    }
    fn suspect(&mut self, s: String) {
        self.suspects += 1;
        if self.suspects < 100 {
            self.put(s);
        }
    }
}

const BIG: &[(usize, usize)] = &[
    (1, 5000),
    (5000, 1),
    (257, 255),
    (1023, 37),
    (64, 1030),
    (4100, 8),
    (8, 4100),
    (1025, 1025),
];

const HUGE: &[(usize, usize)] = &[(1, 262_150), (262_150, 1), (3, 524_292), (65_540, 9), (9, 65_540), (2050, 2047)];

// ---- C02 ----------------------------------------------------------------------------

fn decompress(c: &mut Ctx, r: &mut Rng, s: Shape, judge: bool) {
    c.executed += 1;
    let fill = r.byte();
    let (ein, eout) = (excess(r, s), excess(r, s));
    let mut data = gen::blocks(r, bsize(s.f), s.bw() * s.bh(), s.bw());
    data.extend((0..ein).map(|_| r.byte()));
    let n = 4 * s.w * s.h;
    let mut out = gen::prior(r, n, fill);
    out.resize(n + eout, fill);
    let ok = guard(|| format(s.f).decompress(&data, s.w, s.h, &mut out)).is_some();
    let small = s.w <= 13 && s.h <= 13;
    let full = |p: i64| {
        s.json("dimg")
            .n("p", p)
            .n("ein", ein as i64)
            .bytes("data", &data[..s.size()])
            .bytes("out", &out[..n])
            .bytes("tail", &out[n..])
            .n("fill", fill.into())
            .end()
    };
    if !ok {
        let t = if small { full(1) } else { s.json("done").n("p", 1).n("ein", ein as i64).n("eout", eout as i64).end() };
        c.suspect(t);
        return;
    }
    let bs = bsize(s.f);
    let mut wrong = None;
    for by in 0..s.bh() {
        for bx in 0..s.bw() {
            let b = &data[(by * s.bw() + bx) * bs..][..bs];
            let d = screen::decode(s.f, b);
            for i in 0..16 {
                let (x, y) = (4 * bx + i % 4, 4 * by + i / 4);
                if x < s.w && y < s.h && d[4 * i..4 * i + 4] != out[4 * (y * s.w + x)..4 * (y * s.w + x) + 4] && wrong.is_none() {
                    wrong = Some((bx, by));
                }
            }
        }
    }
    let tail = out[n..].iter().any(|&x| x != fill);
    if small && (judge || wrong.is_some() || tail) {
        let j = full(0);
        if wrong.is_some() || tail {
            c.suspect(j);
        } else {
            c.put(j);
        }
        return;
    }
    if tail {
        let at = n + out[n..].iter().position(|&x| x != fill).unwrap();
        let t = s.json("tail").n("p", 0).bytes("tail", &out[at..(at + 20).min(out.len())]).n("at", at as i64).n("fill", fill.into());
        c.suspect(t.end());
    }
    let mut tiles: Vec<(usize, usize)> = wrong.into_iter().collect();
    if judge && s.bw() > 0 && s.bh() > 0 {
        tiles.push((s.bw() - 1, s.bh() - 1));
        tiles.push((0, s.bh() - 1));
        tiles.push((s.bw() - 1, 0));
        for _ in 0..3 {
            tiles.push((r.below(s.bw() as u64) as usize, r.below(s.bh() as u64) as usize));
        }
    }
    for (bx, by) in tiles {
        let off = (by * s.bw() + bx) * bs;
        let (_, o) = tile(&out[..n], s, bx, by, &mut || 0);
        let j = s
            .json("dbig")
            .n("p", 0)
            .n("bx", bx as i64)
            .n("by", by as i64)
            .n("off", off as i64)
            .bytes("b", &data[off..off + bs])
            .bytes("o", &o)
            .end();
        if wrong == Some((bx, by)) {
            c.suspect(j);
        } else {
            c.put(j);
        }
    }
}

// ---- C03 ----------------------------------------------------------------------------

fn compress(c: &mut Ctx, r: &mut Rng, s: Shape, judge: bool, fast: bool) {
    c.executed += 1;
    let fill = r.byte();
    let (mut g, w, aw) = pick_params(r);
    if fast {
        g = 0;
    }
    let p = params(g, w, 1.0, aw);
    let small = s.w <= 13 && s.h <= 13;
    let a = pick_formula(r);
    let px = if small { noisy(r, s.w, s.h) } else { by_formula(&a, s.w, s.h) };
    // pixels past the image mean nothing
    let mut long = px.clone();
    if r.chance(1, 4) {
        long.extend((0..r.pick(&[1, 3, 4, 64, 16 * s.w + 5])).map(|_| r.byte()).collect::<Vec<_>>());
    }
    let eout = excess(r, s);
    let n = s.size();
    let mut out = gen::prior(r, n, fill);
    out.resize(n + eout, fill);
    let ok = guard(|| format(s.f).compress(&long, s.w, s.h, p, &mut out)).is_some();
    let head = |k: &str, pn: i64| s.json(k).n("p", pn).n("g", g.into()).ints("wt", &w.map(i64::from)).n("aw", aw.into());
    if !ok {
        let j = head("done", 1).n("eout", eout as i64).ints("a", &a);
        c.suspect(if small { j.bytes("px", &px) } else { j }.end());
        return;
    }
    let bs = bsize(s.f);
    let mut blk = vec![];
    let mut wrong = None;
    let all = small || s.bw() * s.bh() < 2000;
    let mut some: Vec<(usize, usize)> = vec![];
    if s.bw() > 0 && s.bh() > 0 {
        if all {
            for by in 0..s.bh() {
                for bx in 0..s.bw() {
                    some.push((bx, by));
                }
            }
        } else {
            for by in [0, s.bh() / 2, s.bh() - 1] {
                for bx in [0, s.bw() / 2, s.bw() - 1] {
                    some.push((bx, by));
                }
            }
            let k = if fast { 20_000 } else { 3000 };
            for _ in 0..k {
                some.push((r.below(s.bw() as u64) as usize, r.below(s.bh() as u64) as usize));
            }
        }
    }
    for (bx, by) in some {
        let (m, t) = tile(&px, s, bx, by, &mut || r.byte());
        // more room than the block needs is left alone
        let room = if small { r.pick(&[0, 0, 1, 8, 24]) } else { 0 };
        let mut b = gen::prior(r, bs, !fill);
        b.resize(bs + room, !fill);
        let ok = guard(|| format(s.f).compress_block_masked(texels(&t), m, p, &mut b)).is_some();
        let rest = b.split_off(bs);
        let spilt = rest.iter().any(|&x| x != !fill);
        if spilt || (judge && room > 0 && r.chance(1, 9)) {
            let j = head("tail", 0).n("at", bs as i64).n("m", m.into()).bytes("px", &t).bytes("tail", &rest).n("fill", (!fill).into());
            if spilt {
                c.suspect(j.end());
            } else {
                c.put(j.end());
            }
        }
        let off = (by * s.bw() + bx) * bs;
        let bad = !ok || out[off..off + bs] != b[..];
        let first = bad && wrong.is_none();
        if bad {
            wrong = Some((bx, by));
        }
        if small {
            blk.push(J(String::from("{\"_\":0")).n("m", m.into()).bytes("px", &t).bytes("b", &b).end());
        } else if first || (judge && blk.len() < 9) {
            blk.push(String::new());
            let j = head("cbig", if ok { 0 } else { 1 })
                .n("bx", bx as i64)
                .n("by", by as i64)
                .n("off", off as i64)
                .n("m", m.into())
                .ints("a", &a)
                .bytes("px", &t)
                .bytes("got", &out[off..off + bs])
                .bytes("b", &b)
                .end();
            if bad {
                c.suspect(j);
            } else {
                c.put(j);
            }
        }
    }
    let tail = out[n..].iter().any(|&x| x != fill);
    if small && (judge || wrong.is_some() || tail) {
        let j = head("cimg", 0)
            .bytes("px", &px)
            .bytes("out", &out[..n])
            .bytes("tail", &out[n..])
            .n("fill", fill.into())
            .raw("blk", &format!("[{}]", blk.join(",")))
            .end();
        if wrong.is_some() || tail {
            c.suspect(j);
        } else {
            c.put(j);
        }
    } else if tail {
        let at = n + out[n..].iter().position(|&x| x != fill).unwrap();
        let t = head("tail", 0).bytes("tail", &out[at..(at + 20).min(out.len())]).n("at", at as i64).n("fill", fill.into());
        c.suspect(t.end());
    }
}

// ---- images of more than 2^32 bytes ---------------------------------------------------

/// the bottom and right blocks are cut by both dimensions
const GIANT: (usize, usize) = (32_771, 32_774);

/// blocks that matter: around the powers of two of pixels, bytes and blocks, corners, others
fn spots(r: &mut Rng, s: Shape) -> Vec<(usize, usize)> {
    let (bw, bh) = (s.bw(), s.bh());
    let mut v = vec![(0, 0), (bw - 1, 0), (0, bh - 1), (bw - 1, bh - 1)];
    for e in 16..31 {
        for px in [1usize << e, (1 << e) + 1, (1 << e) - 1] {
            v.push(((px % s.w) / 4, px / s.w / 4));
        }
        let n = 1usize << e;
        for n in [n / bsize(s.f), n, n + 1, n - 1] {
            v.push((n % bw, n / bw));
        }
    }
    v.extend((0..3000).map(|_| (r.below(bw as u64) as usize, r.below(bh as u64) as usize)));
    v.retain(|&(x, y)| x < bw && y < bh);
    v.sort_by_key(|&(x, y)| (y, x));
    v.dedup();
    v
}

/// in kB
fn free_memory() -> u64 {
    let text = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    let line = text.lines().find(|l| l.starts_with("MemAvailable:"));
    line.and_then(|l| l.split_whitespace().nth(1)?.parse().ok()).unwrap_or(0)
}

fn giant_decompress(c: &mut Ctx, r: &mut Rng, f: u8) {
    c.executed += 1;
    let s = Shape { f, w: GIANT.0, h: GIANT.1 };
    let bs = bsize(f);
    let mut data = vec![0u8; s.size()];
    let v = spots(r, s);
    for &(bx, by) in &v {
        let off = (by * s.bw() + bx) * bs;
        for x in &mut data[off..off + bs] {
            *x = r.byte();
        }
    }
    let mut out = vec![0u8; 4 * s.w * s.h];
    if guard(|| format(f).decompress(&data, s.w, s.h, &mut out)).is_none() {
        c.suspect(s.json("done").n("p", 1).n("ein", 0).n("eout", 0).end());
        return;
    }
    let zero = screen::decode(f, &vec![0; bs]);
    let row: Vec<u8> = zero[..4].iter().copied().cycle().take(4 * s.w).collect();
    let mut wrong = None;
    for y in 0..s.h {
        let got = &out[4 * y * s.w..][..4 * s.w];
        let lo = v.partition_point(|&(_, by)| by < y / 4);
        let hi = v.partition_point(|&(_, by)| by <= y / 4);
        let mut at = 0;
        for &(bx, by) in &v[lo..hi] {
            if got[at..16 * bx] != row[at..16 * bx] && wrong.is_none() {
                let x = (at..16 * bx).find(|&k| got[k] != row[k]).unwrap() / 16;
                wrong = Some((x, y / 4));
            }
            let d = screen::decode(f, &data[(by * s.bw() + bx) * bs..][..bs]);
            at = (16 * bx + 16).min(4 * s.w);
            for k in 16 * bx..at {
                if got[k] != d[16 * (y % 4) + k - 16 * bx] && wrong.is_none() {
                    wrong = Some((bx, by));
                }
            }
        }
        if got[at..] != row[at..] && wrong.is_none() {
            let x = (at..4 * s.w).find(|&k| got[k] != row[k]).unwrap() / 16;
            wrong = Some((x, y / 4));
        }
    }
    let mut shown: Vec<(usize, usize)> = (0..6).map(|_| v[r.below(v.len() as u64) as usize]).collect();
    shown.push((s.bw() - 1, s.bh() - 1));
    shown.extend(wrong);
    for (bx, by) in shown {
        let off = (by * s.bw() + bx) * bs;
        let (_, o) = tile(&out, s, bx, by, &mut || 0);
        let j = s.json("dbig").n("p", 0).n("bx", bx as i64).n("by", by as i64).n("off", off as i64);
        let j = j.bytes("b", &data[off..off + bs]).bytes("o", &o).end();
        if wrong == Some((bx, by)) {
            c.suspect(j);
        } else {
            c.put(j);
        }
    }
}

fn giant_compress(c: &mut Ctx, r: &mut Rng, f: u8) {
    c.executed += 1;
    let s = Shape { f, w: GIANT.0, h: GIANT.1 };
    let bs = bsize(f);
    let (g, w, aw) = (0, [2, 7, 1], r.below(2) as u8);
    let p = params(g, w, 1.0, aw);
    let mut px = vec![0u8; 4 * s.w * s.h];
    let v = spots(r, s);
    for &(bx, by) in &v {
        for y in 4 * by..(4 * by + 4).min(s.h) {
            let x = (16 * bx + 16).min(4 * s.w);
            for k in &mut px[4 * y * s.w..][16 * bx..x] {
                *k = r.byte();
            }
        }
    }
    let mut out = vec![0u8; s.size()];
    let head = |k: &str, pn: i64| s.json(k).n("p", pn).n("g", g.into()).ints("wt", &w.map(i64::from)).n("aw", aw.into());
    if guard(|| format(f).compress(&px, s.w, s.h, p, &mut out)).is_none() {
        c.suspect(head("done", 1).n("eout", 0).ints("a", &[0; 9]).end());
        return;
    }
    let alone = |m: u32, t: &gen::Px| {
        let mut b = vec![0u8; bs];
        guard(|| format(f).compress_block_masked(texels(t), m, p, &mut b)).map(|_| b)
    };
    // the blocks between the spots are empty: there are four masks of them
    let mut empty: Vec<(u32, Option<Vec<u8>>)> = vec![];
    for (bx, by) in [(0, 0), (s.bw() - 1, 0), (0, s.bh() - 1), (s.bw() - 1, s.bh() - 1)] {
        let t = [0; 64];
        let (m, _) = tile(&px, s, bx, by, &mut || 0);
        empty.push((m, alone(m, &t)));
    }
    let mut wrong = None;
    let mut next = 0;
    for by in 0..s.bh() {
        for bx in 0..s.bw() {
            let got = &out[(by * s.bw() + bx) * bs..][..bs];
            let good = if v.get(next) == Some(&(bx, by)) {
                next += 1;
                let (m, t) = tile(&px, s, bx, by, &mut || 0);
                alone(m, &t).as_deref() == Some(got)
            } else {
                let k = usize::from(bx + 1 == s.bw()) + 2 * usize::from(by + 1 == s.bh());
                empty[k].1.as_deref() == Some(got)
            };
            if !good && wrong.is_none() {
                wrong = Some((bx, by));
            }
        }
    }
    let mut shown: Vec<(usize, usize)> = (0..6).map(|_| v[r.below(v.len() as u64) as usize]).collect();
    shown.push((s.bw() - 1, s.bh() - 1));
    shown.extend(wrong);
    for (bx, by) in shown {
        let off = (by * s.bw() + bx) * bs;
        let (m, t) = tile(&px, s, bx, by, &mut || r.byte());
        let b = alone(m, &t);
        let j = head("cspot", if b.is_some() { 0 } else { 1 })
            .n("bx", bx as i64)
            .n("by", by as i64)
            .n("off", off as i64)
            .n("m", m.into())
            .bytes("px", &t)
            .bytes("got", &out[off..off + bs])
            .bytes("b", &b.unwrap_or_default())
            .end();
        if wrong == Some((bx, by)) {
            c.suspect(j);
        } else {
            c.put(j);
        }
    }
}

fn image_plan(c: &mut Ctx, r: &mut Rng, thorough: bool, comp: bool) {
    let go = |c: &mut Ctx, r: &mut Rng, s: Shape, judge: bool, fast: bool| {
        if comp {
            compress(c, r, s, judge, fast)
        } else {
            decompress(c, r, s, judge)
        }
    };
    // every size up to 13 x 13: all formats run, one or two judged
    for w in 0..14 {
        for h in 0..14 {
            let shown = r.range(1, 5) as u8;
            for f in 1..=5 {
                go(c, r, Shape { f, w, h }, f == shown || thorough, false);
            }
        }
    }
    let n = if thorough { 20_000 } else { 1200 };
    for i in 0..n {
        let s = match i % 4 {
            0 => Shape { f: r.range(1, 5) as u8, w: r.below(14) as usize, h: r.below(14) as usize },
            1 => Shape { f: r.range(1, 5) as u8, w: 1 + r.below(90) as usize, h: 1 + r.below(9) as usize },
            2 => Shape { f: r.range(1, 5) as u8, w: 1 + r.below(9) as usize, h: 1 + r.below(90) as usize },
            _ => Shape { f: r.range(1, 5) as u8, w: 1 + r.below(40) as usize, h: 1 + r.below(40) as usize },
        };
        go(c, r, s, i % 40 == 1, false);
    }
    for i in 0..if thorough { 300 } else { 40 } {
        let s = Shape { f: r.range(1, 5) as u8, w: 1 + r.below(400) as usize, h: 1 + r.below(400) as usize };
        go(c, r, s, i % 4 == 1, true);
    }
    for &(w, h) in BIG {
        let fs: &[u8] = if thorough || w * h < 100_000 { &[1, 2, 3, 4, 5] } else { &[1, 5] };
        for &f in fs {
            go(c, r, Shape { f, w, h }, true, true);
        }
    }
    for &(w, h) in HUGE {
        let f = if thorough { 1 } else { r.pick(&[4, 1]) };
        go(c, r, Shape { f, w, h }, true, true);
    }
    for f in if thorough { vec![1, 2, 3, 4, 5] } else { vec![r.pick(&[1, 4])] } {
        if free_memory() < 8 << 20 {
            eprintln!("too little memory for giant images");
            break;
        }
        if comp {
            giant_compress(c, r, f);
        } else {
            giant_decompress(c, r, f);
        }
    }
}

// ---- C16 ----------------------------------------------------------------------------

fn limbs(n: u64) -> [i64; 4] {
    [0, 16, 32, 48].map(|s| (n >> s & 0xffff) as i64)
}

fn sizes(c: &mut Ctx, r: &mut Rng, thorough: bool) {
    let mut sides: Vec<usize> = (0..70).collect();
    sides.extend([127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4093, 4095, 4096, 4097, 16383, 16384, 16385, 20001]);
    for f in 1..=5u8 {
        for &w in &sides {
            let hs: Vec<usize> = if thorough {
                sides.clone()
            } else {
                vec![w % 9, r.pick(&sides), r.pick(&sides)]
            };
            for h in hs {
                c.executed += 1;
                let s = Shape { f, w, h };
                let got = guard(|| {
                    (texpresso::num_blocks(w), texpresso::num_blocks(h), format(f).block_size(), format(f).compressed_size(w, h))
                });
                let (nw, nh, bs, cs) = got.unwrap_or((0, 0, 0, 0));
                c.put(
                    s.json("size")
                        .n("p", got.is_none().into())
                        .n("nw", nw as i64)
                        .n("nh", nh as i64)
                        .n("bs", bs as i64)
                        .n("cs", (cs as i64).min(0x7fff_ffff))
                        .end(),
                );
            }
        }
    }
    // up to the width of an address
    let n = if thorough { 4000 } else { 600 };
    for i in 0..n {
        c.executed += 1;
        let v = match i % 4 {
            0 => (1u64 << r.below(64)).wrapping_add(r.below(9)).wrapping_sub(4),
            1 => r.next() >> r.below(64),
            2 => u64::MAX - 3 - r.below(40),
            _ => (r.below(1 << 20) << 20) + r.below(9),
        }
        .min(u64::MAX - 3);
        let got = guard(|| texpresso::num_blocks(v as usize));
        c.put(
            J::new("nb")
                .n("x", 0)
                .n("p", got.is_none().into())
                .ints("q", &limbs(v / 4))
                .n("rem", (v % 4) as i64)
                .ints("o", &limbs(got.unwrap_or(0) as u64))
                .end(),
        );
        // a size whose product is representable
        let f = r.range(1, 5) as u8;
        let h = 1 + r.below(4000) as usize;
        let m = ((h + 3) / 4 * bsize(f)) as u64;
        let w = (v / 4).min(u64::MAX / m - 2) * 4 + v % 4;
        if w > u64::MAX - 3 || u128::from((w + 3) / 4) * u128::from(m) > u128::from(u64::MAX) {
            continue;
        }
        let swap = r.chance(1, 2);
        let got = guard(|| {
            if swap {
                format(f).compressed_size(h, w as usize)
            } else {
                format(f).compressed_size(w as usize, h)
            }
        });
        c.put(
            J::new("big")
                .n("x", 0)
                .n("p", got.is_none().into())
                .n("f", f.into())
                .ints("q", &limbs(w / 4))
                .n("rem", (w % 4) as i64)
                .n("h", h as i64)
                .n("swap", swap.into())
                .ints("s", &limbs(got.unwrap_or(0) as u64))
                .end(),
        );
    }
    // buffers one byte short, exact, empty, long
    let n = if thorough { 20_000 } else { 1500 };
    for i in 0..n {
        c.executed += 1;
        let s = Shape { f: r.range(1, 5) as u8, w: r.below(18) as usize, h: r.below(18) as usize };
        let z = s.size();
        let len = match i % 6 {
            0 | 1 => z.saturating_sub(1),
            2 => z,
            3 => z + r.below(40) as usize,
            4 => r.below(z as u64 + 1) as usize,
            _ => z.saturating_sub(s.bw() * bsize(s.f)),
        };
        let px = noisy(r, s.w, s.h);
        let (g, w, aw) = pick_params(r);
        let fill = r.byte();
        let mut out = vec![fill; len];
        // pixels may be wrong too: the refusal comes first
        let ok = guard(|| format(s.f).compress(&px, s.w, s.h, params(g, w, 1.0, aw), &mut out)).is_some();
        let touched = out.iter().any(|&x| x != fill);
        let touched = touched || (ok && len < z);
        c.put(
            s.json("short")
                .n("p", 0)
                .n("len", len as i64)
                .n("panicked", (!ok).into())
                .n("touched", touched.into())
                .end(),
        );
    }
}

// ---- C15: defaults ------------------------------------------------------------------

fn defaults(c: &mut Ctx, r: &mut Rng, thorough: bool) {
    let scale = |w: [f32; 3]| w.map(|x| (x * 10000.0).round() as i64);
    for _ in 0..if thorough { 4000 } else { 200 } {
        c.executed += 1;
        let f = r.range(1, 5) as u8;
        let px = gen::block(r);
        let m = gen::mask(r);
        let run = |p: Params| {
            let mut b = vec![0u8; bsize(f)];
            guard(|| format(f).compress_block_masked(texels(&px), m, p, &mut b)).map(|_| b)
        };
        let d = Params::default();
        let num = |a| match a {
            texpresso::Algorithm::RangeFit => 0,
            texpresso::Algorithm::ClusterFit => 1,
            texpresso::Algorithm::IterativeClusterFit => 2,
        };
        let explicit = Params {
            algorithm: texpresso::Algorithm::ClusterFit,
            weights: [0.2126, 0.7152, 0.0722],
            weigh_colour_by_alpha: false,
        };
        let (b, b2) = (run(d), run(explicit));
        c.put(
            J::new("def")
                .n("x", 0)
                .n("p", (b.is_none() || b2.is_none()).into())
                .n("f", f.into())
                .n("alg", num(texpresso::Algorithm::default()))
                .n("palg", num(d.algorithm))
                .n("aw", d.weigh_colour_by_alpha.into())
                .ints("w", &scale(d.weights))
                .ints("wp", &scale(texpresso::COLOUR_WEIGHTS_PERCEPTUAL))
                .ints("wu", &scale(texpresso::COLOUR_WEIGHTS_UNIFORM))
                .bytes("px", &px)
                .bytes("b", &b.unwrap_or_default())
                .bytes("b2", &b2.unwrap_or_default())
                .end(),
        );
    }
}

// ---- C21: large and awkward images ---------------------------------------------------

fn completes(c: &mut Ctx, r: &mut Rng, thorough: bool) {
    let mut shapes: Vec<(usize, usize)> = BIG.iter().chain(HUGE).copied().collect();
    shapes.extend([(0, 0), (0, 5), (5, 0), (0, 1_000_000), (1_000_000, 0), (4, 4), (1, 1), (5, 5)]);
    for &(w, h) in &shapes {
        let fs: Vec<u8> = if thorough || w * h < 100 { vec![1, 2, 3, 4, 5] } else { vec![r.pick(&[1, 2, 3]), r.pick(&[4, 5])] };
        for f in fs {
            c.executed += 1;
            let s = Shape { f, w, h };
            let a = pick_formula(r);
            let px = by_formula(&a, w, h);
            let g = if w * h > 100_000 { 0 } else { r.below(3) as u8 };
            let (e1, e2) = (excess(r, s), excess(r, s));
            let ok = guard(|| {
                let mut out = vec![0u8; s.size() + e1];
                let mut back = vec![0u8; 4 * w * h + e2];
                format(f).compress(&px, w, h, params(g, [2, 7, 1], 0.1, 0), &mut out);
                format(f).decompress(&out, w, h, &mut back);
            })
            .is_some();
            c.put(
                s.json("done")
                    .n("p", (!ok).into())
                    .n("g", g.into())
                    .ints("a", &a)
                    .n("excess_out", e1 as i64)
                    .n("excess_back", e2 as i64)
                    .end(),
            );
        }
    }
}

// ---- C04: schedules and histories ----------------------------------------------------

struct Call {
    name: String,
    /// calls of one family differ in one argument
    family: usize,
    /// what the output holds before, and how far the buffers are from being aligned
    run: Box<dyn Fn(u8, usize) -> Vec<u8> + Send + Sync>,
    /// buffers are too short: whatever this does, later calls must not notice
    fails: bool,
}

/// f on a copy of v that starts `shift` bytes into its allocation
fn shifted<T>(v: &[u8], shift: usize, f: impl FnOnce(&[u8]) -> T) -> T {
    if let Some(mut b) = IN_PLACE.with(|b| b.take()) {
        // where the last call's input was
        b.input[..v.len()].copy_from_slice(v);
        let input = std::mem::take(&mut b.input);
        IN_PLACE.with(|c| c.replace(Some(b)));
        let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&input[..v.len()])));
        IN_PLACE.with(|c| {
            if let Some(b) = c.borrow_mut().as_mut() {
                b.input = input;
            }
        });
        return t.unwrap_or_else(|e| std::panic::resume_unwind(e));
    }
    let mut w = vec![0x6d; shift];
    w.extend_from_slice(v);
    f(&w[shift..])
}

struct Buffers {
    input: Vec<u8>,
    output: Vec<u8>,
}

thread_local! {
    /// with these, a thread's calls all read and write the same places
    static IN_PLACE: std::cell::RefCell<Option<Buffers>> = const { std::cell::RefCell::new(None) };
}

fn in_place<T>(f: impl FnOnce() -> T) -> T {
    IN_PLACE.with(|b| b.replace(Some(Buffers { input: vec![0; 1 << 20], output: vec![0; 1 << 20] })));
    let t = f();
    IN_PLACE.with(|b| b.replace(None));
    t
}

/// n bytes of `fill`, or what goes by that number, `shift` bytes into their allocation, as left by f
fn written(n: usize, fill: u8, shift: usize, f: impl FnOnce(&mut [u8])) -> Vec<u8> {
    let place = IN_PLACE.with(|b| b.borrow_mut().as_mut().map(|b| std::mem::take(&mut b.output)));
    if let Some(mut out) = place {
        // over the last call's result
        let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut out[..n])));
        let v = out[..n].to_vec();
        IN_PLACE.with(|b| {
            if let Some(b) = b.borrow_mut().as_mut() {
                b.output = out;
            }
        });
        return t.map_or_else(|e| std::panic::resume_unwind(e), |_| v);
    }
    let mut w = vec![fill; shift];
    if fill % 3 == 0 {
        w.extend(gen::prior(&mut Rng::new(fill.into(), 77, n as u64), n, fill));
    } else {
        w.resize(shift + n, fill);
    }
    f(&mut w[shift..]);
    w[shift..].to_vec()
}

fn digest(v: &[u8]) -> Vec<i64> {
    let mut h = 0x1234_5678u64;
    for (i, &x) in v.iter().enumerate() {
        h = mix(h ^ (u64::from(x) << (8 * (i % 7)))).wrapping_add(i as u64);
    }
    let mut d: Vec<i64> = limbs(h).to_vec();
    d.push(v.len() as i64);
    d.extend(v.iter().take(16).map(|&x| i64::from(x)));
    d
}

fn compress_call(s: Shape, img: &std::sync::Arc<Vec<u8>>, n: usize, g: u8, wt: [u32; 3], aw: u8) -> Call {
    let img = img.clone();
    Call {
        name: format!("compress {}x{} f{} g{} w{:?} aw{} img{}", s.w, s.h, s.f, g, wt, aw, n),
        family: 0,
        fails: false,
        run: Box::new(move |fill, shift| {
            shifted(&img, shift, |px| {
                written(s.size(), fill, shift, |out| {
                    format(s.f).compress(px, s.w, s.h, params(g, wt, 1.0, aw), out)
                })
            })
        }),
    }
}

/// calls over a few shared images, so that neighbours differ in one argument only
fn calls(seed: u64, thorough: bool) -> Vec<Call> {
    let mut r = Rng::new(seed, 404, 0);
    let mut v: Vec<Call> = vec![];
    let shapes: &[(usize, usize)] = &[(4, 4), (8, 8), (13, 10), (16, 64), (61, 61), (260, 12), (12, 260), (128, 128), (4, 700)];
    for &(w, h) in shapes {
        let px = noisy(&mut r, w, h);
        let mut other = px.clone();
        for x in other.iter_mut() {
            if r.chance(1, 50) {
                *x ^= 16;
            }
        }
        let images = [std::sync::Arc::new(px), std::sync::Arc::new(other)];
        let per = if thorough { 8 } else { 4 };
        for n in 0..per {
            let f = r.range(1, 5) as u8;
            let img = images[n % 2].clone();
            let g = if w * h > 3000 && !thorough { r.below(2) as u8 } else { r.below(3) as u8 };
            let wt = gen::weights(&mut r, 20);
            let aw = r.below(2) as u8;
            let s = Shape { f, w, h };
            v.push(compress_call(s, &img, n % 2, g, wt, aw));
        }
        // the same shape and format again, one argument changed
        let f = r.range(1, 3) as u8;
        for (g, aw, wt) in [(0, 0, [1, 1, 1]), (1, 0, [1, 1, 1]), (1, 1, [1, 1, 1]), (1, 0, [1, 9, 2])] {
            v.push(compress_call(Shape { f, w, h }, &images[0], 0, g, wt, aw));
        }
        // and other pixels: many, or a single one
        let mut near = images[0].to_vec();
        let at = r.below(near.len() as u64) as usize;
        near[at] ^= 0x41;
        let near = std::sync::Arc::new(near);
        let f = r.range(1, 5) as u8;
        for (n, img) in [(0, &images[0]), (2, &near), (1, &images[1])] {
            v.push(compress_call(Shape { f, w, h }, img, n, 0, [1, 1, 1], 0));
        }
        for _ in 0..2 {
            let f = r.range(1, 5) as u8;
            let s = Shape { f, w, h };
            let data = gen::blocks(&mut r, bsize(f), s.bw() * s.bh(), s.bw());
            let mut near = data.clone();
            let at = r.below(near.len() as u64) as usize;
            near[at] ^= 0x41;
            for (n, data) in [data, near].into_iter().enumerate() {
                v.push(Call {
                    name: format!("decompress {}x{} f{} data{}", w, h, f, n),
                    family: 0,
                    fails: false,
                    run: Box::new(move |fill, shift| {
                        shifted(&data, shift, |data| {
                            written(4 * w * h, fill, shift, |out| format(f).decompress(data, w, h, out))
                        })
                    }),
                });
            }
        }
    }
    // families of single blocks
    for family in 1..=if thorough { 40 } else { 12 } {
        let mut r = Rng::new(seed, 405, family);
        let mut c = crate::props::case("C04", &mut r);
        match family % 6 {
            0 | 1 => {
                // one colour
                for i in 1..16 {
                    for k in 0..3 {
                        c.px[4 * i + k] = c.px[k];
                    }
                }
            }
            2 => gen::rgb(&mut r, &mut c.px, 2),
            3 => gen::rgb(&mut r, &mut c.px, 3),
            _ => {}
        }
        if family % 4 == 0 {
            (0..16).for_each(|i| c.px[4 * i + 3] = 255);
        }
        c.f = r.range(1, 3) as u8;
        let mut variants = vec![c.clone()];
        for f in 1..=5 {
            variants.push(Case { f, ..c.clone() });
        }
        for g in 0..3 {
            variants.push(Case { g, ..c.clone() });
        }
        variants.push(Case { aw: 1 - c.aw, ..c.clone() });
        variants.push(Case { w: [c.w[1], c.w[2], c.w[0] + 1], ..c.clone() });
        variants.push(Case { m: gen::mask(&mut r), ..c.clone() });
        variants.push(Case { m: c.m ^ 0x8000, ..c.clone() });
        variants.push(Case { m: 0, ..c.clone() });
        for k in 0..4 {
            // one channel of the last pixel, or of all of them
            let mut d = c.clone();
            d.px[60 + k] ^= 0x50;
            variants.push(d);
            let mut d = c.clone();
            (0..16).for_each(|i| d.px[4 * i + k] ^= 0x90);
            variants.push(d);
        }
        let mut d = c.clone();
        gen::shuffle(&mut r, &mut d.px);
        variants.push(d);
        for c in variants {
            v.push(Call {
                name: format!("block f{} g{} m{} w{:?} aw{} {:?}", c.f, c.g, c.m, c.w, c.aw, &c.px[..8]),
                family: family as usize,
                fails: false,
                run: Box::new(move |fill, shift| {
                    written(bsize(c.f), fill, shift, |out| {
                        format(c.f).compress_block_masked(texels(&c.px), c.m, c.params(), out)
                    })
                }),
            });
        }
        let mut data = crate::props::dec_block(&mut r, 3);
        for n in 0..8 {
            let f = 1 + n % 5;
            if n > 4 {
                let k = r.below(16) as usize;
                data[k] ^= 1 << r.below(8);
            }
            let b = data[..bsize(f)].to_vec();
            v.push(Call {
                name: format!("decode f{} {:?}", f, b),
                family: family as usize,
                fails: false,
                run: Box::new(move |_, shift| {
                    shifted(&b, shift, |b| flat(format(f).decompress_block(b)).to_vec())
                }),
            });
        }
    }
    v
}

/// calls with buffers that are too short, by a byte or by far
fn failing(seed: u64) -> Vec<Call> {
    let mut r = Rng::new(seed, 412, 0);
    let mut v = vec![];
    for n in 0..20usize {
        let f = 1 + (n % 5) as u8;
        let (w, h) = r.pick(&[(4, 4), (13, 10), (64, 61)]);
        let s = Shape { f, w, h };
        let far = n % 2 == 0;
        let less = move |n: usize| if far { n / 2 } else { n - 1 };
        let px = noisy(&mut r, w, h);
        let data: Vec<u8> = (0..s.size()).map(|_| r.byte()).collect();
        let (g, aw) = (r.below(3) as u8, r.below(2) as u8);
        let p = move || params(g, [1, 2, 1], 1.0, aw);
        let mut add = |what: &str, run: Box<dyn Fn(u8, usize) -> Vec<u8> + Send + Sync>| {
            v.push(Call { name: format!("{} {}x{} f{}", what, w, h, f), family: 0, fails: true, run })
        };
        let image = px.clone();
        add("short output", Box::new(move |fill, shift| {
            written(less(s.size()), fill, shift, |out| format(f).compress(&image, w, h, p(), out))
        }));
        let image = px.clone();
        add("short pixels", Box::new(move |fill, shift| {
            written(s.size(), fill, shift, |out| format(f).compress(&image[..less(4 * w * h)], w, h, p(), out))
        }));
        add("short data", Box::new(move |fill, shift| {
            written(4 * w * h, fill, shift, |out| format(f).decompress(&data[..less(s.size())], w, h, out))
        }));
        if n < 10 {
            let mut t = [0u8; 64];
            t.copy_from_slice(&px[..64]);
            add("short block", Box::new(move |fill, shift| {
                written(less(bsize(f)), fill, shift, |out| format(f).compress_block_masked(texels(&t), 0xffff, p(), out))
            }));
            add("short code", Box::new(move |_, _| flat(format(f).decompress_block(&px[..less(bsize(f))])).to_vec()));
        }
    }
    v
}

/// each line of the schedule file: pairs (client, call) to start, or (client, 0) to await
fn schedules(path: &str) -> Vec<Vec<(usize, usize)>> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut all = vec![];
    for line in text.lines() {
        let n: Vec<usize> = line
            .split(|c: char| !c.is_ascii_digit())
            .filter(|s| !s.is_empty())
            .map(|s| s.parse().unwrap())
            .collect();
        all.push(n.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1])).collect());
    }
    all
}

/// a few calls of one kind, repeated by eight threads at a time as fast as they can
fn duels(c: &mut Ctx, seed: u64, thorough: bool) {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    for n in 0..if thorough { 6000u64 } else { 240 } {
        let mut r = Rng::new(seed, 411, n);
        let proto = crate::props::case("C04", &mut r);
        let class = n % 8;
        let mut list: Vec<(String, Box<dyn Fn(&mut Vec<u8>) + Sync>)> = vec![];
        for _ in 0..2 + r.below(3) {
            let mut k = proto.clone();
            k.m = if r.chance(2, 3) { 0xffff } else { proto.m | 1 };
            match class {
                0..=2 => {
                    k.px[..3].copy_from_slice(&[r.byte(), r.byte(), r.byte()]);
                    for i in 1..16 {
                        for j in 0..3 {
                            k.px[4 * i + j] = k.px[j];
                        }
                    }
                }
                _ => gen::rgb(&mut r, &mut k.px, class - 1),
            }
            match n % 5 {
                0 => {}
                1 => gen::alpha(&mut r, &mut k.px),
                _ => (0..16).for_each(|i| k.px[4 * i + 3] = 255),
            }
            if r.chance(1, 4) {
                k.f = r.range(1, 5) as u8;
            }
            if r.chance(1, 4) {
                k.g = r.below(3) as u8;
            }
            let name = format!("f{} g{} m{} w{:?} sc{} aw{} {:?}", k.f, k.g, k.m, k.w, k.sc, k.aw, k.px);
            if n % 16 == 7 {
                let b = crate::props::dec_block(&mut r, k.f);
                let name = format!("decode f{} {:?}", k.f, b);
                list.push((name, Box::new(move |o| {
                    o.clear();
                    o.extend_from_slice(&flat(format(k.f).decompress_block(&b)));
                })));
            } else if n % 16 == 15 {
                let (w, h) = (5 + r.below(9) as usize, 5 + r.below(9) as usize);
                let px = noisy(&mut r, w, h);
                let s = Shape { f: k.f, w, h };
                list.push((format!("image {}x{} {}", w, h, name), Box::new(move |o| {
                    o.clear();
                    o.resize(s.size() + 4 * w * h, 0x5a);
                    let (a, b) = o.split_at_mut(s.size());
                    format(k.f).compress(&px, w, h, k.params(), a);
                    format(k.f).decompress(a, w, h, b);
                })));
            } else {
                list.push((name, Box::new(move |o| {
                    o.clear();
                    o.resize(bsize(k.f), 0x5a);
                    format(k.f).compress_block_masked(texels(&k.px), k.m, k.params(), o);
                })));
            }
        }
        let alone: Vec<Option<Vec<u8>>> = list
            .iter()
            .map(|l| {
                let mut o = vec![];
                guard(|| (l.1)(&mut o)).map(|_| o)
            })
            .collect();
        // about as long for dear calls as for cheap ones
        let t = std::time::Instant::now();
        for l in &list {
            let mut o = vec![];
            guard(|| (l.1)(&mut o));
        }
        let one = t.elapsed().as_nanos() as u64 / list.len() as u64 + 1;
        let rounds = (8_000_000 / one).clamp(50, 20_000);
        let odd = std::sync::Mutex::new(Vec::<(usize, Vec<i64>)>::new());
        let count = AtomicU64::new(0);
        std::thread::scope(|s| {
            for t in 0..8usize {
                let (list, alone, odd, count) = (&list, &alone, &odd, &count);
                s.spawn(move || {
                    let mut o = vec![];
                    let mut wrong = 0;
                    for i in 0..rounds as usize {
                        let k = (i / (1 + t % 3) + t) % list.len();
                        let ok = guard(|| (list[k].1)(&mut o)).is_some();
                        if wrong < 3 && (if ok { Some(&o) } else { None }) != alone[k].as_ref() {
                            wrong += 1;
                            odd.lock().unwrap().push((k, if ok { digest(&o) } else { vec![-1] }));
                        }
                    }
                    count.fetch_add(rounds, Relaxed);
                });
            }
        });
        c.executed += count.into_inner();
        let odd = odd.into_inner().unwrap();
        if !odd.is_empty() {
            c.suspects += 1;
        }
        for (k, l) in list.iter().enumerate() {
            let mut seen: Vec<(&str, Vec<i64>)> = vec![("alone", alone[k].as_ref().map_or(vec![-1], |o| digest(o)))];
            seen.push(("duel", seen[0].1.clone()));
            seen.extend(odd.iter().filter(|x| x.0 == k).map(|x| ("duel", x.1.clone())));
            let p = seen.iter().any(|s| s.1[0] == -1);
            let calls: Vec<String> = seen
                .iter()
                .map(|(how, d)| J(String::from("{\"_\":0")).n("key", k as i64).s("how", how).ints("out", d).end())
                .collect();
            let j = J::new("grp").n("p", p.into()).n("x", 0).s("rel", "det").n("id", (100_000 + 10 * n as i64) + k as i64);
            let j = j.s("call", &l.0).raw("calls", &format!("[{}]", calls.join(",")));
            c.put(j.end());
        }
    }
}

fn deterministic(c: &mut Ctx, seed: u64, thorough: bool) {
    let mut v = calls(seed, thorough);
    let good = v.len();
    // among them, for the schedules, now and then one that fails
    v.extend(failing(seed));
    let mut order: Vec<usize> = (0..good).collect();
    for k in good..v.len() {
        order.insert((k - good) * 11 % order.len(), k);
    }
    let mut r = Rng::new(seed, 407, 0);
    let runs = std::sync::Mutex::new(Vec::<(usize, &'static str, Vec<i64>)>::new());
    let tick = std::sync::atomic::AtomicUsize::new(0);
    let exec = |k: usize, how: &'static str| {
        let t = tick.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let out = guard(|| (v[k].run)((t * 37) as u8, t % 8));
        let d = out.map_or(vec![-1], |o| digest(&o));
        if !v[k].fails {
            runs.lock().unwrap().push((k, how, d));
        }
    };
    // in opposite orders in the two builds
    for k in 0..good {
        exec(if cfg!(feature = "par") { good - 1 - k } else { k }, "alone");
    }
    for k in 0..good {
        exec(k, "again");
    }
    // every call after one that failed
    for k in good..v.len() {
        exec(k, "failing");
        for _ in 0..8 {
            exec(r.below(good as u64) as usize, "after-failure");
        }
    }
    for k in 0..good {
        exec(good + k % (v.len() - good), "failing");
        exec(k, "after-failure");
    }
    // every call right after every other call of its family
    for a in 0..good {
        for b in 0..good {
            if v[a].family > 0 && v[a].family == v[b].family {
                exec(a, "before");
                exec(b, "after");
            }
        }
    }
    let reps = if thorough { 20 } else { 2 };
    for _ in 0..reps * v.len() {
        let k = r.below(v.len() as u64) as usize;
        exec(k, "history");
    }
    // from and to the same buffers, whose content changes between the calls
    in_place(|| {
        for k in 0..good {
            exec(k, "in-place");
        }
        for _ in 0..reps * v.len() {
            exec(r.below(v.len() as u64) as usize, "in-place");
        }
    });
    #[cfg(feature = "par")]
    for threads in [1usize, 2, 3, 5, 8, 17] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        for k in 0..v.len() {
            let how = match threads {
                1 => "pool1",
                2 => "pool2",
                3 => "pool3",
                5 => "pool5",
                8 => "pool8",
                _ => "pool17",
            };
            pool.install(|| exec(k, how));
        }
    }
    // free-running clients
    let (exec, order) = (&exec, &order);
    std::thread::scope(|s| {
        for t in 0..8u64 {
            let n = v.len() as u64;
            s.spawn(move || {
                let mut r = Rng::new(seed, 408, t);
                for _ in 0..reps * 40 {
                    exec(r.below(n) as usize, "concurrent");
                }
                in_place(|| {
                    for _ in 0..reps * 40 {
                        exec(r.below(n) as usize, "concurrent");
                    }
                });
            });
        }
    });
    // schedules generated from the specification: clients start calls and await them
    let plans = schedules(&std::env::var("SCHEDULES").unwrap_or_default());
    for (n, plan) in plans.iter().enumerate() {
        use std::sync::mpsc::channel;
        std::thread::scope(|s| {
            let mut clients = vec![];
            for _ in 0..4 {
                let (tx, rx) = channel::<usize>();
                let (dtx, drx) = channel::<()>();
                s.spawn(move || {
                    for k in rx {
                        exec(k, "scheduled");
                        if dtx.send(()).is_err() {
                            break;
                        }
                    }
                });
                clients.push((tx, drx, 0));
            }
            for &(cl, k) in plan {
                let c = &mut clients[cl % 4];
                if k == 0 {
                    if c.2 > 0 {
                        c.1.recv().unwrap();
                        c.2 -= 1;
                    }
                } else {
                    c.0.send(order[(k - 1 + 53 * n) % order.len()]).unwrap();
                    c.2 += 1;
                }
            }
            for c in &mut clients {
                while c.2 > 0 {
                    c.1.recv().unwrap();
                    c.2 -= 1;
                }
            }
        });
    }
    // after much else has been processed
    let mut r = Rng::new(seed, 409, 0);
    for n in 0..if thorough { 2_000_000 } else { 150_000 } {
        let mut c = crate::props::case("C04", &mut r);
        c.g = (n % 16 == 0) as u8;
        c.encode(0);
    }
    for k in 0..good {
        exec(k, "late");
    }
    duels(c, seed, thorough);
    // one record per call: every execution of it, equal results of one kind counted together
    let runs = runs.into_inner().unwrap();
    c.executed += runs.len() as u64;
    for (k, call) in v.iter().enumerate().take(good) {
        let mut seen: Vec<(&str, &Vec<i64>, i64)> = vec![];
        for (_, how, d) in runs.iter().filter(|x| x.0 == k) {
            match seen.iter_mut().find(|s| s.0 == *how && s.1 == d) {
                Some(s) => s.2 += 1,
                None => seen.push((how, d, 1)),
            }
        }
        let list: Vec<String> = seen
            .iter()
            .map(|(how, d, n)| {
                J(String::from("{\"_\":0")).n("key", k as i64).s("how", how).n("times", *n).ints("out", d).end()
            })
            .collect();
        let p = seen.iter().any(|s| s.1[0] == -1);
        let j = J::new("grp")
            .n("p", p.into())
            .n("x", 0)
            .s("rel", "det")
            .n("id", k as i64)
            .s("call", &call.name.replace('"', ""))
            .raw("calls", &format!("[{}]", list.join(",")))
            .end();
        c.put(j);
    }
}

fn canaries(prop: &str) -> Vec<String> {
    let s = Shape { f: 1, w: 5, h: 3 };
    match prop {
        "C02" => {
            let data: Vec<u8> = (0..16).map(|x| x * 13 + 7).collect();
            let mut out = vec![0u8; 60];
            for (bx, n) in [(0, 4), (1, 1)] {
                let d = screen::decode(1, &data[8 * bx..8 * bx + 8]);
                for i in 0..16 {
                    if i % 4 < n && i / 4 < 3 {
                        let at = 4 * ((i / 4) * 5 + 4 * bx + i % 4);
                        out[at..at + 4].copy_from_slice(&d[4 * i..4 * i + 4]);
                    }
                }
            }
            let j = |o: &[u8], t: &[u8]| {
                J::new("dimg").n("f", 1).n("w", 5).n("h", 3).n("x", 1).n("p", 0).bytes("data", &data).bytes("out", o).bytes("tail", t).n("fill", 9).end()
            };
            let mut o2 = out.clone();
            o2[16] ^= 1;
            let b = &data[8..16];
            let mut o = vec![0u8; 64];
            o[..4].copy_from_slice(&screen::decode(1, b)[..4]);
            o[2] ^= 1;
            let big = J::new("dbig").n("f", 1).n("w", 5).n("h", 1).n("x", 1).n("p", 0).n("bx", 1).n("by", 0).n("off", 8);
            vec![j(&out, &[9, 9, 8]), j(&o2, &[9]), big.bytes("b", b).bytes("o", &o).end()]
        }
        "C03" => {
            let a = [3, 5, 7, 1, 9, 1, 1 << 24, 1 << 24, 256];
            let px = by_formula(&a, 5, 3);
            let mut out = vec![];
            let mut blk = vec![];
            for bx in 0..2 {
                let (m, t) = tile(&px, s, bx, 0, &mut || 0);
                let c = Case { f: 1, g: 0, w: [1, 1, 1], sc: 0, aw: 0, m, px: t };
                let b = c.encode(0).unwrap_or(vec![0; 8]);
                out.extend(&b);
                blk.push(J(String::from("{\"_\":0")).n("m", m.into()).bytes("px", &t).bytes("b", &b).end());
            }
            let j = |o: &[u8], t: &[u8]| {
                J::new("cimg").n("f", 1).n("w", 5).n("h", 3).n("x", 1).n("p", 0).bytes("px", &px).bytes("out", o).bytes("tail", t).n("fill", 9).raw("blk", &format!("[{}]", blk.join(","))).end()
            };
            let mut o2 = out.clone();
            o2[9] ^= 1;
            let big = |px: &[u8], got: u8| {
                J::new("cbig").n("f", 1).n("w", 5).n("h", 1).n("x", 1).n("p", 0).n("bx", 1).n("by", 0).n("off", 8).n("m", 1).ints("a", &a).bytes("px", px).bytes("got", &[got]).bytes("b", &[2]).end()
            };
            let mut t = [0u8; 64];
            (0..4).for_each(|k| t[k] = formula(&a, 4, 0, k));
            let good = big(&t, 3);
            t[1] ^= 1;
            vec![j(&out, &[9, 9, 8]), j(&o2, &[9]), good, big(&t, 2)]
        }
        "C04" => vec![
            r#"{"k":"grp","p":0,"x":1,"rel":"det","calls":[{"key":1,"out":[1,2]},{"key":1,"out":[1,3]}]}"#.to_string(),
        ],
        "C15" => vec![
            r#"{"k":"def","p":0,"x":1,"f":1,"alg":1,"palg":1,"aw":0,"w":[2126,7152,722],"wp":[2126,7152,721],"wu":[10000,10000,10000],"b":[1],"b2":[1]}"#.to_string(),
        ],
        "C16" => vec![
            s.json("size").n("p", 0).n("nw", 2).n("nh", 1).n("bs", 8).n("cs", 24).end().replace("\"x\":0", "\"x\":1"),
            s.json("short").n("p", 0).n("len", 15).n("panicked", 1).n("touched", 1).end().replace("\"x\":0", "\"x\":1"),
            s.json("short").n("p", 0).n("len", 16).n("panicked", 1).n("touched", 0).end().replace("\"x\":0", "\"x\":1"),
            J::new("nb").n("x", 1).n("p", 0).ints("q", &[65535, 1, 0, 0]).n("rem", 1).ints("o", &[0, 1, 0, 0]).end(),
            J::new("big").n("x", 1).n("p", 0).n("f", 1).ints("q", &[65535, 1, 0, 0]).n("rem", 1).n("h", 4).ints("s", &[0, 8, 0, 0]).end(),
        ],
        _ => vec![],
    }
}

pub fn record(prop: &str, seed: u64, thorough: bool, out: &str) {
    let mut c = Ctx { r: Recorder::new(out), executed: 0, suspects: 0, shown: vec![] };
    let mut r = Rng::new(seed, 900, 0);
    match prop {
        "C02" => image_plan(&mut c, &mut r, thorough, false),
        "C03" => image_plan(&mut c, &mut r, thorough, true),
        "C04" => deterministic(&mut c, seed, thorough),
        "C15" => defaults(&mut c, &mut r, thorough),
        "C16" => sizes(&mut c, &mut r, thorough),
        "C21" => completes(&mut c, &mut r, thorough),
        _ => panic!("no images for {}", prop),
    }
    for s in canaries(prop) {
        c.r.put(&s);
    }
    let Ctx { r, executed, suspects, shown } = c;
    stats(out, prop, executed, r.done(), suspects, &shown);
}

// ---- exhaustive sweeps against tables computed by TLC --------------------------------

fn numbers(path: &str) -> Vec<i64> {
    let text = std::fs::read_to_string(path).expect("table");
    text.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
}

/// C09: every colour in every mode, against the table of least errors
pub fn uniform(table: &str, out: &str) {
    let n = numbers(table);
    assert_eq!(n.len(), 2 * 2 * 2 * 256);
    let mut opt = [[[[0i64; 256]; 2]; 2]; 2];
    for m in 0..2 {
        for b in 0..2 {
            for k in 0..2 {
                for v in 0..256 {
                    opt[m][b][k][v] = n[((m * 2 + b) * 2 + k) * 256 + v];
                }
            }
        }
    }
    let opt = &opt;
    let found = std::sync::Mutex::new(Vec::<Enc>::new());
    let count = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..8u32 {
            let (found, count) = (&found, &count);
            s.spawn(move || {
                let mut bad = 0;
                for v in (t << 21)..((t + 1) << 21) {
                    let c = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
                    let best4 = screen::uniform_best(opt, 1, c.map(i64::from));
                    let best3 = screen::uniform_best(opt, 0, c.map(i64::from));
                    for (f, a1, best) in [(1u8, 255u8, best3.min(best4)), (1, 0, best3), (2, 255, best4)] {
                        let mut px = [0u8; 64];
                        for q in [0, 5] {
                            px[4 * q..4 * q + 3].copy_from_slice(&c);
                        }
                        px[3] = 255;
                        px[23] = a1;
                        let case = Case { f, g: (v % 3) as u8, w: [1, 1, 1], sc: 0, aw: 0, m: 0x21, px };
                        let ok = match case.encode(0).and_then(|b| decode(f, &b)) {
                            Some(o) => {
                                let e = |i: usize| (0..3).map(|k| (i64::from(c[k]) - i64::from(o[4 * i + k])).pow(2)).sum::<i64>();
                                e(0) == best && (a1 == 0 || e(5) == best)
                            }
                            None => false,
                        };
                        if !ok {
                            bad += 1;
                            if bad < 20 {
                                found.lock().unwrap().push(case.run(false));
                            }
                        }
                    }
                    count.fetch_add(3, std::sync::atomic::Ordering::Relaxed);
                    if bad > 2000 {
                        break;
                    }
                }
            });
        }
    });
    let found = found.into_inner().unwrap();
    let mut r = Recorder::new(out);
    for e in &found {
        r.put(&e.json(0));
    }
    stats(out, "C09", count.into_inner(), r.done(), found.len() as u64, &[]);
}

/// C01: every pair of ramp endpoints with every index, and every pair of colour levels
pub fn ramps(table: &str, out: &str) {
    // the table: per e0, e1 the eight values; then thirds for 32x32 and 64x64 levels
    let n = numbers(table);
    assert_eq!(n.len(), 65536 * 8 + 2 * (32 * 32 + 64 * 64) + 32 + 64 + 32 * 32 + 64 * 64);
    let (ramps, rest) = n.split_at(65536 * 8);
    let (t5, rest) = rest.split_at(2 * 32 * 32);
    let (t6, rest) = rest.split_at(2 * 64 * 64);
    let (h5, rest) = rest.split_at(32 * 32);
    let (h6, rest) = rest.split_at(64 * 64);
    let (x5, x6) = rest.split_at(32);
    let mut r = Recorder::new(out);
    let mut executed = 0;
    let mut suspects = 0;
    let mut check = |f: u8, b: &[u8], want: &dyn Fn(usize) -> [i64; 4]| {
        executed += 1;
        let o = decode(f, b);
        let ok = o.map_or(false, |o| (0..16).all(|i| (0..4).all(|k| i64::from(o[4 * i + k]) == want(i)[k])));
        if !ok {
            suspects += 1;
            if suspects < 200 {
                r.put(&crate::props::dec_json(f, b, o.as_ref(), 0));
            }
        }
    };
    for e in 0..65536usize {
        let v = &ramps[8 * e..8 * e + 8];
        // indices: all eight in either half, rotated by the pair
        let ix: Vec<usize> = (0..16).map(|i| (i * 3 + e) % 8).collect();
        let mut b = vec![(e >> 8) as u8, e as u8];
        for h in 0..2 {
            let w = (0..8).fold(0u32, |a, i| a | (ix[8 * h + i] as u32) << (3 * i));
            b.extend(&w.to_le_bytes()[..3]);
        }
        check(4, &b, &|i| [v[ix[i]], v[ix[i]], v[ix[i]], 255]);
        let flat = [0u8, 0, 0, 0, 0, 0, 0, 0];
        let mut b5 = b.clone();
        b5.extend(&flat);
        check(5, &b5, &|i| [v[ix[i]], 0, 0, 255]);
        let mut b5 = flat.to_vec();
        b5.extend(&b);
        check(5, &b5, &|i| [0, v[ix[i]], 0, 255]);
        let mut b3 = b.clone();
        b3.extend(&flat);
        check(3, &b3, &|i| [0, 0, 0, v[ix[i]]]);
    }
    for g in 0..64 * 64usize {
        for rot in 0..4usize {
            let (g0, g1) = (g / 64, g % 64);
            let (r0, r1) = ((g % 1024) / 32, g % 32);
            let (b0, b1) = ((g / 4 + rot * 7) % 32, (g / 128 + g % 32 + rot) % 32);
            let w0 = (r0 << 11 | g0 << 5 | b0) as u16;
            let w1 = (r1 << 11 | g1 << 5 | b1) as u16;
            let mut cb = vec![];
            cb.extend(&w0.to_le_bytes());
            cb.extend(&w1.to_le_bytes());
            for y in 0..4 {
                let q = (0..4).fold(0, |a, x| a | ((x + y + rot + g) % 4) << (2 * x));
                cb.push(q as u8);
            }
            let ix = |i: usize| (i % 4 + i / 4 + rot + g) % 4;
            let entry = |three: bool, n: usize| -> [i64; 4] {
                let e = [[x5[r0], x6[g0], x5[b0]], [x5[r1], x6[g1], x5[b1]]];
                let c = match (n, three) {
                    (0, _) => e[0],
                    (1, _) => e[1],
                    (2, true) => [h5[32 * r0 + r1], h6[64 * g0 + g1], h5[32 * b0 + b1]],
                    (3, true) => return [0; 4],
                    (n, _) => {
                        let k = n - 2;
                        [t5[2 * (32 * r0 + r1) + k], t6[2 * (64 * g0 + g1) + k], t5[2 * (32 * b0 + b1) + k]]
                    }
                };
                [c[0], c[1], c[2], 255]
            };
            check(1, &cb, &|i| entry(w0 <= w1, ix(i)));
            let mut b2: Vec<u8> = (0..8u8).map(|i| i.wrapping_mul(31).wrapping_add(g as u8)).collect();
            let ab = b2.clone();
            b2.extend(&cb);
            check(2, &b2, &|i| {
                let mut c = entry(false, ix(i));
                c[3] = 17 * i64::from(ab[i / 2] >> (4 * (i % 2)) & 15);
                c
            });
            let mut b3 = vec![9, 9, 0, 0, 0, 0, 0, 0];
            b3.extend(&cb);
            check(3, &b3, &|i| {
                let mut c = entry(false, ix(i));
                c[3] = 9;
                c
            });
        }
    }
    let _ = &mut check;
    stats(out, "C01", executed, r.done(), suspects, &[]);
}
