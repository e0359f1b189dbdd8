//! Fast mirrors of the specification's obligations.
//!
//! These decide nothing: they rank the cases, so that of millions of executions the ones
//! nearest to (or past) an obligation are handed to TLC, which judges them.  Every function
//! returns a badness: positive when the mirror thinks the obligation broken, otherwise the
//! closer to zero the less slack there was.

use crate::codec::Enc;
use crate::gen::Px;

pub const OK: f64 = -1e18;

fn hard(ok: bool) -> f64 {
    if ok {
        OK
    } else {
        1e18
    }
}

fn worst(a: f64, b: f64) -> f64 {
    a.max(b)
}

// ---- decoding -----------------------------------------------------------------------

fn expand(bits: u32, k: i64) -> i64 {
    if bits == 5 {
        8 * k + k / 4
    } else {
        4 * k + k / 16
    }
}

pub fn grid(b: &[u8]) -> [i64; 3] {
    let v = i64::from(b[0]) + 256 * i64::from(b[1]);
    [v / 2048, (v / 32) % 64, v % 32]
}

pub fn expand_grid(g: [i64; 3]) -> [i64; 3] {
    [expand(5, g[0]), expand(6, g[1]), expand(5, g[2])]
}

pub fn quant(c: [i64; 3]) -> [i64; 3] {
    [(62 * c[0] + 255) / 510, (126 * c[1] + 255) / 510, (62 * c[2] + 255) / 510]
}

fn third(c: [i64; 3], d: [i64; 3]) -> [i64; 3] {
    [0, 1, 2].map(|k| (2 * c[k] + d[k]) / 3)
}

fn half(c: [i64; 3], d: [i64; 3]) -> [i64; 3] {
    [0, 1, 2].map(|k| (c[k] + d[k]) / 2)
}

pub fn three(b: &[u8], bc1: bool) -> bool {
    bc1 && u16::from_le_bytes([b[0], b[1]]) <= u16::from_le_bytes([b[2], b[3]])
}

pub fn index(b: &[u8], i: usize) -> usize {
    (b[4 + i / 4] >> (2 * (i % 4)) & 3) as usize
}

fn colour_half(b: &[u8], bc1: bool, o: &mut Px) {
    let (c, d) = (expand_grid(grid(b)), expand_grid(grid(&b[2..])));
    let t = three(b, bc1);
    let p = if t {
        [c, d, half(c, d), [0; 3]]
    } else {
        [c, d, third(c, d), third(d, c)]
    };
    for i in 0..16 {
        let n = index(b, i);
        for k in 0..3 {
            o[4 * i + k] = p[n][k] as u8;
        }
        o[4 * i + 3] = if t && n == 3 { 0 } else { 255 };
    }
}

pub fn ramp(e0: i64, e1: i64) -> [i64; 8] {
    let mut r = [e0, e1, 0, 0, 0, 0, 0, 255];
    if e0 > e1 {
        for k in 1..7 {
            r[1 + k as usize] = ((7 - k) * e0 + k * e1) / 7;
        }
    } else {
        for k in 1..5 {
            r[1 + k as usize] = ((5 - k) * e0 + k * e1) / 5;
        }
    }
    r
}

pub fn ramp_half(b: &[u8], r: &[i64; 8], ch: usize, o: &mut Px) {
    for i in 0..16 {
        let q = 2 + 3 * (i / 8);
        let v = u32::from(b[q]) | u32::from(b[q + 1]) << 8 | u32::from(b[q + 2]) << 16;
        o[4 * i + ch] = r[(v >> (3 * (i % 8)) & 7) as usize] as u8;
    }
}

fn ramp_of(b: &[u8]) -> [i64; 8] {
    ramp(b[0].into(), b[1].into())
}

pub fn decode(f: u8, b: &[u8]) -> Px {
    let mut o = [0u8; 64];
    match f {
        1 => colour_half(b, true, &mut o),
        2 => {
            colour_half(&b[8..], false, &mut o);
            for i in 0..16 {
                o[4 * i + 3] = 17 * (b[i / 2] >> (4 * (i % 2)) & 15);
            }
        }
        3 => {
            colour_half(&b[8..], false, &mut o);
            ramp_half(b, &ramp_of(b), 3, &mut o);
        }
        _ => {
            ramp_half(b, &ramp_of(b), 0, &mut o);
            for i in 0..16 {
                o[4 * i + 3] = 255;
                if f == 4 {
                    o[4 * i + 1] = o[4 * i];
                    o[4 * i + 2] = o[4 * i];
                }
            }
            if f == 5 {
                ramp_half(&b[8..], &ramp_of(&b[8..]), 1, &mut o);
            }
        }
    }
    o
}

// ---- views of an encoding -----------------------------------------------------------

pub struct View<'a> {
    pub e: &'a Enc,
    pub mask: Vec<usize>,
    pub vis: Vec<usize>,
    pub col: Vec<[i64; 3]>,
    /// of each visible pixel, its colour's number
    pub of: [usize; 16],
    pub transparent: bool,
    /// the colour half of the block
    pub cb: &'a [u8],
}

pub fn rgb(px: &Px, i: usize) -> [i64; 3] {
    [px[4 * i].into(), px[4 * i + 1].into(), px[4 * i + 2].into()]
}

impl<'a> View<'a> {
    pub fn new(e: &'a Enc) -> View<'a> {
        let c = &e.c;
        let mask: Vec<usize> = (0..16).filter(|i| c.m >> i & 1 == 1).collect();
        let clear = |i: usize| c.f == 1 && c.px[4 * i + 3] < 128;
        let vis: Vec<usize> = mask.iter().copied().filter(|&i| !clear(i)).collect();
        let mut col: Vec<[i64; 3]> = vec![];
        let mut of = [0; 16];
        for &i in &vis {
            let v = rgb(&c.px, i);
            of[i] = col.iter().position(|&x| x == v).unwrap_or_else(|| {
                col.push(v);
                col.len() - 1
            });
        }
        let transparent = vis.len() < mask.len();
        let cb = if c.f > 3 || e.b.is_empty() {
            &[][..]
        } else if c.f == 1 {
            &e.b[..8]
        } else {
            &e.b[8..16]
        };
        View { e, mask, vis, col, of, transparent, cb }
    }

    fn bc1(&self) -> bool {
        self.e.c.f == 1
    }

    pub fn out(&self, i: usize) -> [i64; 3] {
        rgb(&self.e.o, i)
    }
}

fn sq(x: i64) -> i64 {
    x * x
}

fn wd(w: &[i64; 3], v: [i64; 3], d: [i64; 3]) -> i64 {
    (0..3).map(|k| w[k] * sq(v[k] - d[k])).sum()
}

fn wd2(w: &[i64; 3], v: [i64; 3], d: [i64; 3]) -> i64 {
    wd(&w.map(sq), v, d)
}

pub fn isqrt(n: i64) -> i64 {
    let mut r = (n as f64).sqrt() as i64;
    while r * r > n {
        r -= 1;
    }
    while (r + 1) * (r + 1) <= n {
        r += 1;
    }
    r
}

/// how much of the tolerance is used up: 1 is all of it
fn within_root(a: i64, b: i64, t4: i64, n: i64) -> f64 {
    let lim = isqrt(b) + 1 + (t4 * (isqrt(16 * n) + 1)) / 16 + 1;
    if a <= b || isqrt(a) <= lim {
        ((a as f64).sqrt() - (b as f64).sqrt()) / ((lim as f64 - (b as f64).sqrt()).max(1e-9)) - 1.5
    } else {
        1.0 + (a as f64).sqrt() - lim as f64
    }
}

// ---- obligations --------------------------------------------------------------------

pub fn spec_decodes(e: &Enc) -> f64 {
    // in mask only: blocks taken from images lack the other texels
    let d = decode(e.c.f, &e.b);
    let m = e.c.m;
    hard((0..16).all(|i| m >> i & 1 == 0 || d[4 * i..4 * i + 4] == e.o[4 * i..4 * i + 4]))
}

pub fn keeps_mask(v: &View) -> f64 {
    if !v.bc1() {
        return OK;
    }
    let (px, o) = (&v.e.c.px, &v.e.o);
    hard(v.mask.iter().all(|&i| {
        if px[4 * i + 3] < 128 {
            o[4 * i..4 * i + 4] == [0, 0, 0, 0]
        } else {
            o[4 * i + 3] == 255
        }
    }))
}

pub fn nearest_explicit(v: &View) -> f64 {
    let (px, e) = (&v.e.c.px, v.e);
    hard(v.mask.iter().all(|&i| {
        let (a, o) = (i64::from(px[4 * i + 3]), i64::from(e.o[4 * i + 3]));
        o % 17 == 0 && (a - o).abs() <= 8 && e.o2.map_or(true, |q| q[4 * i + 3] == e.o[4 * i + 3])
    }))
}

pub fn streams(f: u8) -> &'static [(usize, usize)] {
    match f {
        3 => &[(0, 3)],
        4 => &[(0, 0)],
        5 => &[(0, 0), (8, 1)],
        _ => &[],
    }
}

fn widen(lo: i64, hi: i64, steps: i64) -> (i64, i64) {
    if hi - lo >= steps {
        return (lo, hi);
    }
    let h = (lo + steps).min(255);
    if h - lo >= steps {
        (lo, h)
    } else {
        ((h - steps).max(0), h)
    }
}

fn near(r: &[i64; 8], v: i64) -> i64 {
    r.iter().map(|x| (x - v).abs()).min().unwrap()
}

pub fn streams_ok(v: &View) -> f64 {
    let mut bad = OK;
    for &(off, ch) in streams(v.e.c.f) {
        let vals: Vec<(i64, i64)> = v
            .mask
            .iter()
            .map(|&i| (v.e.c.px[4 * i + ch].into(), v.e.o[4 * i + ch].into()))
            .collect();
        if vals.is_empty() {
            continue;
        }
        let r = ramp(v.e.b[off].into(), v.e.b[off + 1].into());
        bad = worst(bad, hard(vals.iter().all(|&(x, o)| (x - o).abs() == near(&r, x))));
        let (lo, hi) = (vals.iter().map(|p| p.0).min().unwrap(), vals.iter().map(|p| p.0).max().unwrap());
        let l0 = vals.iter().map(|p| p.0).filter(|&x| x != 0).min().unwrap_or(255);
        let h0 = vals.iter().map(|p| p.0).filter(|&x| x != 255).max().unwrap_or(0);
        let e7 = widen(lo, hi, 7);
        let e5 = widen(if l0 > h0 { h0 } else { l0 }, h0, 5);
        let (r7, r5) = (ramp(e7.1, e7.0), ramp(e5.0, e5.1));
        let err: i64 = vals.iter().map(|&(x, o)| sq(x - o)).sum();
        let base = |r: &[i64; 8]| vals.iter().map(|&(x, _)| sq(near(r, x))).sum::<i64>();
        let b = base(&r7).min(base(&r5));
        bad = worst(bad, if err > b { 1.0 + (err - b) as f64 } else { -1.0 - (b - err) as f64 });
    }
    bad
}

/// channels coded on their own
pub fn single(f: u8) -> Vec<usize> {
    if f == 2 {
        vec![3]
    } else {
        streams(f).iter().map(|s| s.1).collect()
    }
}

pub fn keeps_order(v: &View) -> f64 {
    let (px, o) = (&v.e.c.px, &v.e.o);
    let equal = v.e.c.f > 3
        || v.vis.iter().all(|&i| v.vis.iter().all(|&j| v.of[i] != v.of[j] || v.out(i) == v.out(j)));
    let order = single(v.e.c.f).iter().all(|&k| {
        v.mask.iter().all(|&i| {
            v.mask.iter().all(|&j| px[4 * i + k] > px[4 * j + k] || o[4 * i + k] <= o[4 * j + k])
        })
    });
    hard(equal && order)
}

pub fn unchanged(v: &View) -> f64 {
    let (o, e) = match &v.e.o2 {
        Some(q) => (&v.e.o, q),
        None => return OK,
    };
    let values = single(v.e.c.f).iter().all(|&k| v.mask.iter().all(|&i| o[4 * i + k] == e[4 * i + k]));
    let colour = v.e.c.f > 3
        || v.col.len() != 1
        || v.vis.iter().all(|&i| o[4 * i..4 * i + 3] == e[4 * i..4 * i + 3]);
    hard(values && colour)
}

pub fn mode_safe(v: &View) -> f64 {
    match v.e.c.f {
        1 => hard(v.transparent || v.mask.iter().all(|&i| v.e.o[4 * i + 3] == 255)),
        2 | 3 => {
            let (mut p, mut q) = ([0u8; 64], [0u8; 64]);
            colour_half(v.cb, false, &mut p);
            colour_half(v.cb, true, &mut q);
            hard(v.mask.iter().all(|&i| p[4 * i..4 * i + 4] == q[4 * i..4 * i + 4]))
        }
        _ => OK,
    }
}

pub fn uniform_best(opt: &[[[[i64; 256]; 2]; 2]; 2], mode: usize, v: [i64; 3]) -> i64 {
    (0..2)
        .map(|k| sq(opt[mode][0][k][v[0] as usize]) + sq(opt[mode][1][k][v[1] as usize]) + sq(opt[mode][0][k][v[2] as usize]))
        .min()
        .unwrap()
}

/// the least errors of a value: three or four colours, 5 or 6 bits, endpoint or entry in between
fn least() -> &'static [[[[i64; 256]; 2]; 2]; 2] {
    static T: std::sync::OnceLock<[[[[i64; 256]; 2]; 2]; 2]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [[[[i64::MAX; 256]; 2]; 2]; 2];
        for mode in 0..2 {
            for b in 0..2 {
                let x: Vec<i64> = if b == 0 {
                    (0..32).map(|k| k << 3 | k >> 2).collect()
                } else {
                    (0..64).map(|k| k << 2 | k >> 4).collect()
                };
                for p in &x {
                    for q in &x {
                        let mid = if mode == 0 { (p + q) / 2 } else { (2 * p + q) / 3 };
                        for v in 0..256 {
                            let e = &mut t[mode][b];
                            e[0][v] = e[0][v].min((p - v as i64).abs());
                            e[1][v] = e[1][v].min((mid - v as i64).abs());
                        }
                    }
                }
            }
        }
        t
    })
}

pub fn uniform(v: &View) -> f64 {
    if v.col.len() != 1 {
        return OK;
    }
    let (t, x) = (least(), v.col[0]);
    let best = match (v.e.c.f, v.transparent) {
        (1, true) => uniform_best(t, 0, x),
        (1, false) => uniform_best(t, 0, x).min(uniform_best(t, 1, x)),
        _ => uniform_best(t, 1, x),
    };
    hard(v.vis.iter().all(|&i| v.out(i) == v.out(v.vis[0]) && (0..3).map(|k| sq(x[k] - v.out(i)[k])).sum::<i64>() == best))
}

pub fn two_colour(v: &View) -> f64 {
    if v.col.len() != 2 {
        return OK;
    }
    let c = &v.e.c;
    let w = c.w.map(i64::from);
    let mut bad = OK;
    for &i in &v.vis {
        let (x, u) = (v.col[v.of[i]], v.col[1 - v.of[i]]);
        let (qx, qu) = (expand_grid(quant(x)), expand_grid(quant(u)));
        let b = if c.g == 0 {
            within_root(wd2(&w, x, v.out(i)), wd2(&w, x, qx), 12, w.map(sq).iter().sum())
        } else {
            within_root(wd(&w, x, v.out(i)), wd(&w, x, qx) + 4 * wd(&w, u, qu), 12, w.iter().sum())
        };
        bad = worst(bad, b);
    }
    bad
}

fn sub(p: [i64; 3], q: [i64; 3]) -> [i64; 3] {
    [p[0] - q[0], p[1] - q[1], p[2] - q[2]]
}

fn dot(p: [i64; 3], q: [i64; 3]) -> i64 {
    p[0] * q[0] + p[1] * q[1] + p[2] * q[2]
}

pub fn collinear(s: &[[i64; 3]]) -> bool {
    let e = sub(s[1], s[0]);
    s.iter().all(|&q| {
        let p = sub(q, s[0]);
        p[0] * e[1] == p[1] * e[0] && p[1] * e[2] == p[2] * e[1] && p[0] * e[2] == p[2] * e[0]
    })
}

/// two colours far apart
fn far_ends(s: &[[i64; 3]]) -> ([i64; 3], [i64; 3]) {
    let far = |p: [i64; 3]| *s.iter().max_by_key(|&&q| dot(sub(q, p), sub(q, p))).unwrap();
    let o = far(s[0]);
    (o, far(o))
}

/// a block's axis: see AxisOf in Enc.tla
struct Axis {
    v: [i64; 3],
    exact: bool,
}

impl Axis {
    fn of(v: &View) -> Option<Axis> {
        let s = &v.col;
        if collinear(s) {
            let (o, q) = far_ends(s);
            return Some(Axis { v: sub(q, o), exact: true });
        }
        let w = colour_weights(v);
        if w.iter().any(|&x| x < 20) {
            return None;
        }
        let ws: i64 = w.iter().sum();
        let n = s.len();
        let m = [0, 1, 2].map(|k| round_div(4 * (0..n).map(|i| w[i] * s[i][k]).sum::<i64>(), ws));
        let c = [0, 1, 2].map(|k| {
            [0, 1, 2].map(|l| (0..n).map(|i| w[i] * (4 * s[i][k] - m[k]) * (4 * s[i][l] - m[l])).sum::<i64>())
        });
        let q = (0..3).map(|k| c[k][k]).max().unwrap() / 4096 + 1;
        let c = c.map(|r| r.map(|x| round_div(x, q)));
        let top = (0..3).rev().max_by_key(|&k| c[k][k]).unwrap();
        let apply = |v: [i64; 3]| c.map(|r| dot(r, v));
        let mut a = c[top];
        for _ in 0..12 {
            let b = apply(a);
            let q = b.iter().map(|x| x.abs()).max().unwrap() / 8192 + 1;
            a = b.map(|x| round_div(x, q));
        }
        let u = a.map(|x| round_div(x, 64));
        if dot(u, u) == 0 || 6 * (dot(u, apply(u)) / dot(u, u)) < 5 * (c[0][0] + c[1][1] + c[2][2]) {
            return None;
        }
        Some(Axis { v: a, exact: false })
    }

    fn sure(&self, p: [i64; 3], q: [i64; 3]) -> bool {
        let e = sub(q, p);
        let a = dot(e, self.v);
        if self.exact {
            a > 0
        } else {
            50 * a >= (isqrt(dot(e, e)) + 1) * (isqrt(dot(self.v, self.v)) + 1)
        }
    }
}

fn colour_weights(v: &View) -> Vec<i64> {
    let c = &v.e.c;
    (0..v.col.len())
        .map(|n| {
            let mine = v.vis.iter().copied().filter(|&i| v.of[i] == n);
            if c.aw == 1 {
                round_sqrt(25 * mine.map(|i| i64::from(c.px[4 * i + 3]) + 1).sum::<i64>())
            } else {
                round_sqrt(SC * SC * mine.count() as i64)
            }
        })
        .collect()
}

pub fn range_from_block(v: &View) -> f64 {
    if v.col.len() < 2 {
        return OK;
    }
    let ends = [grid(v.cb), grid(&v.cb[2..])];
    hard(ends.iter().all(|g| v.col.iter().any(|&c| quant(c) == *g)))
}

pub fn range_axis(v: &View) -> f64 {
    if v.col.len() < 2 {
        return OK;
    }
    let ax = match Axis::of(v) {
        Some(a) => a,
        None => return OK,
    };
    let s = &v.col;
    let first: Vec<_> = s.iter().filter(|&&p| s.iter().all(|&q| p == q || ax.sure(p, q))).map(|&p| quant(p)).collect();
    let last: Vec<_> = s.iter().filter(|&&p| s.iter().all(|&q| p == q || ax.sure(q, p))).map(|&p| quant(p)).collect();
    let ends = [grid(v.cb), grid(&v.cb[2..])];
    let both = !first.is_empty() && !last.is_empty();
    hard(first.iter().chain(&last).all(|e| ends.contains(e))
        && (!both || ends.iter().all(|e| first.contains(e) || last.contains(e))))
}

pub fn range_nearest(v: &View) -> f64 {
    if v.col.len() < 2 {
        return OK;
    }
    let w = v.e.c.w.map(i64::from);
    let n: i64 = w.map(sq).iter().sum();
    let (c, d) = (expand_grid(grid(v.cb)), expand_grid(grid(&v.cb[2..])));
    let p = if three(v.cb, v.bc1()) {
        vec![c, d, half(c, d)]
    } else {
        vec![c, d, third(c, d), third(d, c)]
    };
    let mut bad = OK;
    for &i in &v.vis {
        let x = v.col[v.of[i]];
        let best = p.iter().map(|&q| wd2(&w, x, q)).min().unwrap();
        bad = worst(bad, within_root(wd2(&w, x, v.out(i)), best, 12, n));
    }
    bad
}

pub fn range_mode(v: &View) -> f64 {
    if v.col.len() < 2 {
        return OK;
    }
    let w = v.e.c.w.map(i64::from);
    let n: i64 = w.map(sq).iter().sum::<i64>() * v.col.len() as i64;
    let (c, d) = (expand_grid(grid(v.cb)), expand_grid(grid(&v.cb[2..])));
    let err = |p: &[[i64; 3]]| -> i64 {
        v.col.iter().map(|&x| p.iter().map(|&q| wd2(&w, x, q)).min().unwrap()).sum()
    };
    let e3 = err(&[c, d, half(c, d)]);
    let e4 = err(&[c, d, third(c, d), third(d, c)]);
    let got: i64 = (0..v.col.len())
        .map(|n| {
            let mine = v.vis.iter().filter(|&&i| v.of[i] == n);
            mine.map(|&i| wd2(&w, v.col[n], v.out(i))).max().unwrap()
        })
        .sum();
    let base = match (v.bc1(), v.transparent) {
        (true, false) => e3.min(e4),
        (true, true) => e3,
        _ => e4,
    };
    within_root(got, base, 12, n)
}

// ---- cluster fit --------------------------------------------------------------------

const SC: i64 = 80;

fn round_sqrt(n: i64) -> i64 {
    let r = isqrt(n);
    if n - r * r > r {
        r + 1
    } else {
        r
    }
}

fn round_div(a: i64, b: i64) -> i64 {
    (2 * a + b).div_euclid(2 * b)
}

pub struct Cluster<'a> {
    v: &'a View<'a>,
    w: [i64; 3],
    s: Vec<i64>,
    err: i64,
    err_u: i64,
    ws: i64,
}

impl<'a> Cluster<'a> {
    pub fn new(v: &'a View<'a>) -> Cluster<'a> {
        let c = &v.e.c;
        let w = c.w.map(i64::from);
        let n = v.col.len();
        let mine = |n: usize| v.vis.iter().copied().filter(move |&i| v.of[i] == n);
        let s = colour_weights(v);
        let e: Vec<i64> = (0..n)
            .map(|n| mine(n).map(|i| wd(&w, v.col[n], v.out(i))).max().unwrap())
            .collect();
        Cluster {
            v,
            w,
            err: (0..n).map(|k| e[k] * s[k]).sum(),
            err_u: e.iter().sum(),
            ws: s.iter().sum(),
            s,
        }
    }

    fn sumw(&self) -> i64 {
        self.w.iter().sum()
    }

    fn fit_within(&self, base: i64, base_u: i64) -> f64 {
        let sat = |x: i64| x.min(1073741823);
        let step = 17 * self.w[0] + 5 * self.w[1] + 17 * self.w[2];
        let lim = sat(sat(base) + step * self.ws + (base_u + self.err_u) / 2 + self.ws);
        within_root(sat(self.err), lim, 6, self.ws * self.sumw())
    }

    pub fn flat(&self) -> f64 {
        let col = &self.v.col;
        let avg = [0, 1, 2].map(|k| {
            ((0..col.len()).map(|n| self.s[n] * col[n][k]).sum::<i64>() + self.ws / 2) / self.ws
        });
        let e: Vec<i64> = col.iter().map(|&x| wd(&self.w, x, avg)).collect();
        self.fit_within((0..e.len()).map(|n| self.s[n] * e[n]).sum(), e.iter().sum())
    }

    pub fn least_squares(&self) -> f64 {
        let v = self.v;
        let mode = if three(v.cb, v.bc1()) { 3 } else { 4 };
        let den: i64 = mode - 1;
        let (g0, g1) = (grid(v.cb), grid(&v.cb[2..]));
        let n = v.col.len();
        let al: Vec<i64> = (0..n)
            .map(|n| {
                let i = v.vis.iter().copied().find(|&i| v.of[i] == n).unwrap();
                let ix = index(v.cb, i);
                if mode == 4 {
                    [3, 0, 2, 1][ix]
                } else {
                    [2, 0, 1, 0][ix]
                }
            })
            .collect();
        if g0 == g1 || al.iter().all(|&a| a == al[0]) {
            return OK;
        }
        let top = [31, 63, 31];
        let mut bad = OK;
        for k in 0..3 {
            if [g0[k], g1[k]].iter().any(|&g| g == 0 || g == top[k]) {
                continue;
            }
            let res = |n: usize| den * top[k] * v.col[n][k] - 255 * (al[n] * g0[k] + (den - al[n]) * g1[k]);
            for side in 0..2 {
                let a = |n: usize| if side == 0 { al[n] } else { den - al[n] };
                let lhs = (0..n).map(|n| self.s[n] * a(n) * res(n)).sum::<i64>().abs();
                let wt: i64 = (0..n).map(|n| self.s[n] * a(n)).sum();
                let lim = wt * ((255 * den + 1) / 2 + (den * top[k]) / 4)
                    + (0..n).map(|n| a(n) * res(n).abs()).sum::<i64>() / 2;
                bad = worst(
                    bad,
                    if lhs <= lim {
                        lhs as f64 / (lim as f64 + 1e-9) - 1.5
                    } else {
                        1.0 + (lhs - lim) as f64
                    },
                );
            }
        }
        bad
    }

    pub fn axis(&self) -> f64 {
        let v = self.v;
        let ax = match Axis::of(v) {
            Some(a) => a,
            None => return OK,
        };
        let mut bad = OK;
        if v.bc1() {
            bad = worst(bad, self.axis_mode(&ax, 3));
        }
        if !(v.bc1() && v.transparent) {
            bad = worst(bad, self.axis_mode(&ax, 4));
        }
        bad
    }

    fn axis_mode(&self, ax: &Axis, mode: usize) -> f64 {
        let col = &self.v.col;
        let n = col.len();
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by_key(|&k| dot(col[k], ax.v));
        let p: Vec<[i64; 3]> = order.iter().map(|&k| col[k]).collect();
        let s: Vec<i64> = order.iter().map(|&k| self.s[k]).collect();
        let s8: Vec<i64> = s.iter().map(|&x| round_div(x, 10).max(1)).collect();
        let clean: Vec<usize> =
            (0..=n).filter(|&k| (0..k).all(|i| (k..n).all(|j| ax.sure(p[i], p[j])))).collect();
        let mut pre = vec![[0i64; 4]];
        for k in 0..n {
            let mut a = pre[k];
            a[0] += s8[k];
            for c in 0..3 {
                a[c + 1] += s8[k] * p[k][c];
            }
            pre.push(a);
        }
        let den = mode as i64 - 1;
        let co: &[i64] = if mode == 4 { &[3, 2, 1, 0] } else { &[2, 1, 0] };
        let mut bad = OK;
        for &i in &clean {
            for &j in clean.iter().filter(|&&j| j >= i) {
                let last = [n];
                let ks = if mode == 4 { &clean[..] } else { &last[..] };
                for &k in ks.iter().filter(|&&k| k >= j) {
                    let cut: Vec<usize> = if mode == 4 { vec![0, i, j, k, n] } else { vec![0, i, j, n] };
                    if let Some((err, err_u)) = self.cut(&p, &s, &pre, &cut, co, den) {
                        bad = worst(bad, self.fit_within(err, err_u));
                    }
                }
            }
        }
        bad
    }

    fn cut(&self, p: &[[i64; 3]], s: &[i64], pre: &[[i64; 4]], cut: &[usize], co: &[i64], den: i64) -> Option<(i64, i64)> {
        let mut e = [[0i64; 2]; 3];
        for k in 0..3 {
            let (mut a2, mut b2, mut ab, mut ax, mut bx) = (0, 0, 0, 0, 0);
            for r in 0..co.len() {
                let w = pre[cut[r + 1]][0] - pre[cut[r]][0];
                let x = pre[cut[r + 1]][k + 1] - pre[cut[r]][k + 1];
                a2 += co[r] * co[r] * w;
                b2 += (den - co[r]) * (den - co[r]) * w;
                ab += co[r] * (den - co[r]) * w;
                ax += co[r] * x;
                bx += (den - co[r]) * x;
            }
            let det = a2 * b2 - ab * ab;
            if det == 0 {
                return None;
            }
            let a = round_div(den * (ax * b2 - bx * ab), det);
            let b = round_div(den * (bx * a2 - ax * ab), det);
            if !(16..=239).contains(&a) || !(16..=239).contains(&b) {
                return None;
            }
            e[k] = [a, b];
        }
        let (mut err, mut err_u) = (0, 0);
        let mut r = 0;
        for n in 0..p.len() {
            while n >= cut[r + 1] {
                r += 1;
            }
            let mut q = 0;
            for k in 0..3 {
                q += self.w[k] * sq(den * p[n][k] - (co[r] * e[k][0] + (den - co[r]) * e[k][1]));
            }
            let x = q / (den * den) + 1;
            err += s[n] * x;
            err_u += x;
        }
        Some((err, err_u))
    }

    /// self iterative, other plain
    pub fn not_worse(&self, other: &Cluster) -> f64 {
        let sat = |x: i64| x.min(1073741823);
        within_root(
            sat(self.err),
            sat(other.err + (self.err_u + other.err_u) / 2 + other.ws),
            12,
            other.ws * self.sumw(),
        )
    }
}
