//! Generators of pixel blocks, masks and weights.  Families aim at the boundaries of the
//! encoders: thresholds, narrow ranges, few colours, degenerate axes, partial blocks.

use crate::rng::Rng;

pub type Px = [u8; 64];

const EDGE: [u8; 19] = [
    0, 1, 2, 4, 5, 6, 7, 8, 126, 127, 128, 129, 130, 247, 248, 249, 250, 254, 255,
];

fn clamp(v: i64) -> u8 {
    v.clamp(0, 255) as u8
}

fn set_rgb(px: &mut Px, i: usize, c: [u8; 3]) {
    px[4 * i..4 * i + 3].copy_from_slice(&c);
}

fn colour(r: &mut Rng) -> [u8; 3] {
    match r.below(4) {
        0 => [r.pick(&EDGE), r.pick(&EDGE), r.pick(&EDGE)],
        1 => {
            // exactly representable in 5:6:5
            let (a, b, c) = (r.below(32) as u8, r.below(64) as u8, r.below(32) as u8);
            [(a << 3) | (a >> 2), (b << 2) | (b >> 4), (c << 3) | (c >> 2)]
        }
        _ => [r.byte(), r.byte(), r.byte()],
    }
}

/// points p + t*d inside the cube, exactly on a line
pub fn line(r: &mut Rng, px: &mut Px, max_distinct: usize) {
    loop {
        let m = r.pick(&[1, 2, 4, 12, 40]);
        let mut d = [r.range(-m, m), r.range(-m, m), r.range(-m, m)];
        if r.chance(1, 4) {
            d[2] = -d[0] - d[1]; // orthogonal to grey
        }
        if r.chance(1, 6) {
            d[r.below(3) as usize] = 0;
        }
        if d == [0, 0, 0] {
            continue;
        }
        let p = [r.range(0, 255), r.range(0, 255), r.range(0, 255)];
        let inside = |t: i64| (0..3).all(|k| (0..=255).contains(&(p[k] + t * d[k])));
        let (mut lo, mut hi) = (0, 0);
        while inside(lo - 1) {
            lo -= 1;
        }
        while inside(hi + 1) {
            hi += 1;
        }
        if lo == hi {
            continue;
        }
        let n = 2 + r.below(max_distinct as u64 - 1) as usize;
        let ts: Vec<i64> = (0..n).map(|_| r.range(lo, hi)).collect();
        for i in 0..16 {
            let t = if i < n { ts[i] } else { r.pick(&ts) };
            set_rgb(px, i, [0, 1, 2].map(|k| (p[k] + t * d[k]) as u8));
        }
        shuffle(r, px);
        return;
    }
}

/// colours spread along a line and more or less off it
pub fn thin(r: &mut Rng, px: &mut Px, n: usize) {
    let mut e = r.pick(&[1, 2, 4, 8, 15, 30, 60]);
    let ratio = r.pick(&[25, 25, 12, 6, 3]);
    let (p, q) = loop {
        let p = [r.range(0, 255), r.range(0, 255), r.range(0, 255)];
        let q = if r.chance(1, 2) {
            // along an axis orthogonal to grey
            let (i, j) = (r.below(3) as usize, r.below(3) as usize);
            let mut q = p;
            let t = r.range(-255, 255);
            q[i] += t;
            q[j] -= t;
            q
        } else {
            [r.range(0, 255), r.range(0, 255), r.range(0, 255)]
        };
        let far: i64 = (0..3).map(|k| (p[k] - q[k]).abs()).max().unwrap();
        e = e.min(far / ratio);
        if far >= 25 && q.iter().all(|x| (0..=255).contains(x)) {
            break (p, q);
        }
    };
    let n = n as i64;
    let even = r.chance(1, 2);
    let flat = r.chance(1, 2);
    let cs: Vec<[u8; 3]> = (0..n)
        .map(|i| {
            let t = if even || i < 2 { 1000 * i / (n - 1).max(1) } else { r.range(0, 1000) };
            let g = r.range(-e, e);
            [0, 1, 2].map(|k| {
                let off = if flat { g } else { r.range(-e, e) };
                clamp((p[k] * (1000 - t) + q[k] * t) / 1000 + if i < 2 && flat { 0 } else { off })
            })
        })
        .collect();
    for i in 0..16 {
        let c = if (i as i64) < n && r.chance(3, 4) { cs[i] } else { r.pick(&cs) };
        set_rgb(px, i, c);
    }
    if r.chance(1, 3) {
        // the ends equally often
        for i in 0..16 {
            set_rgb(px, i, if i < 2 { cs[n as usize - 1] } else { cs[i % 2] });
        }
        if n > 2 {
            set_rgb(px, 15, cs[1]);
            set_rgb(px, 14, cs[0]);
        }
    }
    shuffle(r, px);
}

/// as many pixels of every colour as of the one with two channels exchanged
pub fn mirrored(r: &mut Rng, px: &mut Px) {
    let (i, j) = r.pick(&[(0, 1), (0, 2), (1, 2)]);
    let pairs = 1 + r.below(7) as usize;
    let base = colour(r);
    let kinds: Vec<[u8; 3]> = (0..1 + r.below(3))
        .map(|_| {
            let mut c = if r.chance(1, 2) { colour(r) } else { base };
            c[i] = r.byte();
            c[j] = if r.chance(1, 2) { base[i].wrapping_sub(c[i]) } else { r.byte() };
            c
        })
        .collect();
    let mut mid = if r.chance(1, 2) { colour(r) } else { base };
    mid[j] = mid[i];
    for n in 0..8 {
        let c = if n < pairs { r.pick(&kinds) } else { mid };
        let mut d = c;
        d.swap(i, j);
        set_rgb(px, 2 * n, c);
        set_rgb(px, 2 * n + 1, d);
    }
    shuffle(r, px);
}

pub fn shuffle(r: &mut Rng, px: &mut Px) {
    for i in (1..16).rev() {
        let j = r.below(i as u64 + 1) as usize;
        for k in 0..4 {
            px.swap(4 * i + k, 4 * j + k);
        }
    }
}

/// sixteen values of one channel
pub fn channel(r: &mut Rng) -> [u8; 16] {
    let mut v = [0u8; 16];
    match r.below(14) {
        0 | 1 => v.iter_mut().for_each(|x| *x = r.byte()),
        2 => v.iter_mut().for_each(|x| *x = r.pick(&[0, 255])),
        3 => v.iter_mut().for_each(|x| *x = r.pick(&[126, 127, 128, 129])),
        4 => v.iter_mut().for_each(|x| *x = r.pick(&EDGE)),
        5 => {
            // narrow band, anywhere
            let w = r.range(0, 12);
            let b = r.range(0, 255 - w);
            v.iter_mut().for_each(|x| *x = r.range(b, b + w) as u8);
        }
        6 => {
            // narrow band at an end of the range
            let w = r.range(0, 12);
            let b = if r.chance(1, 2) { 0 } else { 255 - w };
            v.iter_mut().for_each(|x| *x = r.range(b, b + w) as u8);
        }
        7 => {
            // band plus the extremes
            let w = r.range(0, 60);
            let b = r.range(0, 255 - w);
            v.iter_mut().for_each(|x| {
                *x = match r.below(6) {
                    0 => 0,
                    1 => 255,
                    _ => r.range(b, b + w) as u8,
                }
            });
        }
        8 => {
            let b = r.range(0, 255);
            let s = r.range(-17, 17);
            for (i, x) in v.iter_mut().enumerate() {
                *x = clamp(b + s * i as i64);
            }
        }
        9 => {
            let c = r.byte();
            v = [c; 16];
            if r.chance(1, 2) {
                v[r.below(16) as usize] = r.byte();
            }
        }
        10 => {
            let a = [r.byte(), r.byte(), r.byte()];
            let n = 1 + r.below(3) as usize;
            v.iter_mut().for_each(|x| *x = r.pick(&a[..n]));
        }
        11 | 12 => {
            // as far from the entries of a ramp as can be, the ends hit here and there
            let lo = if r.chance(1, 2) { r.range(0, 3) } else { r.range(0, 200) };
            let hi = if r.chance(1, 2) { 255 - r.range(0, 3) } else { r.range(lo, 255) };
            let n = r.pick(&[5, 7]);
            let few = r.chance(1, 2);
            let k0 = r.range(0, n - 1);
            v.iter_mut().for_each(|x| {
                let k = if few { k0 } else { r.range(0, n - 1) };
                *x = clamp((lo * (2 * n - 2 * k - 1) + hi * (2 * k + 1)) / (2 * n) + r.range(-2, 2));
            });
            v[r.below(16) as usize] = lo as u8;
            v[r.below(16) as usize] = hi as u8;
        }
        _ => {
            // equally spaced levels of a ramp, slightly off
            let lo = r.range(0, 200);
            let hi = r.range(lo, 255);
            let n = r.pick(&[5, 7]);
            v.iter_mut().for_each(|x| {
                let k = r.range(0, n);
                *x = clamp((lo * (n - k) + hi * k) / n + r.range(-1, 1));
            });
        }
    }
    v
}

pub fn alpha(r: &mut Rng, px: &mut Px) {
    if r.chance(1, 3) {
        for i in 0..16 {
            px[4 * i + 3] = 255;
        }
    } else {
        let v = channel(r);
        for i in 0..16 {
            px[4 * i + 3] = v[i];
        }
    }
}

fn few(r: &mut Rng, px: &mut Px, n: usize) {
    let c: Vec<[u8; 3]> = (0..n).map(|_| colour(r)).collect();
    for i in 0..16 {
        set_rgb(px, i, if i < n { c[i] } else { r.pick(&c) });
    }
    shuffle(r, px);
}

pub const FAMILIES: u64 = 17;

pub fn rgb(r: &mut Rng, px: &mut Px, family: u64) {
    match family {
        0 => (0..16).for_each(|i| set_rgb(px, i, [r.byte(), r.byte(), r.byte()])),
        1 => {
            let n = 1 + r.below(8) as usize;
            few(r, px, n)
        }
        2 => few(r, px, 2),
        3 => {
            let n = 2 + r.below(15) as usize;
            line(r, px, n)
        }
        4 => {
            // near a line
            let (p, q) = (colour(r), colour(r));
            let n = r.range(1, 15);
            let e = r.range(0, 3);
            for i in 0..16 {
                let t = r.range(0, n);
                let c = [0, 1, 2].map(|k| {
                    clamp((i64::from(p[k]) * (n - t) + i64::from(q[k]) * t) / n + r.range(-e, e))
                });
                set_rgb(px, i, c);
            }
        }
        5 => {
            // low contrast
            let b = colour(r);
            let e = r.range(1, 6);
            for i in 0..16 {
                set_rgb(px, i, [0, 1, 2].map(|k| clamp(i64::from(b[k]) + r.range(-e, e))));
            }
        }
        6 => (0..16).for_each(|i| set_rgb(px, i, [r.pick(&EDGE), r.pick(&EDGE), r.pick(&EDGE)])),
        7 => {
            let v = channel(r);
            (0..16).for_each(|i| set_rgb(px, i, [v[i]; 3]))
        }
        8 => {
            // smooth gradient
            let b = colour(r);
            let gx = [r.range(-20, 20), r.range(-20, 20), r.range(-20, 20)];
            let gy = [r.range(-20, 20), r.range(-20, 20), r.range(-20, 20)];
            for i in 0..16 {
                let (x, y) = ((i % 4) as i64, (i / 4) as i64);
                set_rgb(px, i, [0, 1, 2].map(|k| clamp(i64::from(b[k]) + x * gx[k] + y * gy[k])));
            }
        }
        9 => {
            let c = colour(r);
            (0..16).for_each(|i| set_rgb(px, i, c));
            let n = r.below(3) as usize;
            for _ in 0..n {
                let i = r.below(16) as usize;
                let d = colour(r);
                set_rgb(px, i, d);
            }
        }
        10 => {
            // two noisy clusters
            let (p, q) = (colour(r), colour(r));
            let e = r.range(0, 12);
            for i in 0..16 {
                let b = if r.chance(1, 2) { p } else { q };
                set_rgb(px, i, [0, 1, 2].map(|k| clamp(i64::from(b[k]) + r.range(-e, e))));
            }
        }
        11 => {
            let c = colour(r);
            let k = r.below(3) as usize;
            let v = channel(r);
            for i in 0..16 {
                set_rgb(px, i, c);
                px[4 * i + k] = v[i];
            }
        }
        12 => {
            // colours one level apart
            let mut c = colour(r);
            for i in 0..16 {
                set_rgb(px, i, c);
                if r.chance(1, 3) {
                    let k = r.below(3) as usize;
                    c[k] = c[k].wrapping_add(if c[k] == 255 { 255 } else { 1 });
                }
            }
            shuffle(r, px);
        }
        13 => {
            let v = [channel(r), channel(r), channel(r)];
            (0..16).for_each(|i| set_rgb(px, i, [v[0][i], v[1][i], v[2][i]]))
        }
        14 => {
            let most = r.pick(&[7, 15]);
            let n = 2 + r.below(most) as usize;
            thin(r, px, n)
        }
        15 => mirrored(r, px),
        _ => {
            // channels constant or related
            let v = channel(r);
            let c = colour(r);
            let m = r.below(8);
            for i in 0..16 {
                let k = |n: usize| if m >> n & 1 == 0 { c[n] } else { v[i] };
                let inv = |n: usize| if m == 7 && n == 1 { 255 - v[i] } else { k(n) };
                set_rgb(px, i, [inv(0), inv(1), inv(2)]);
            }
        }
    }
}

pub fn block(r: &mut Rng) -> Px {
    let mut px = [0u8; 64];
    let family = r.below(FAMILIES);
    rgb(r, &mut px, family);
    alpha(r, &mut px);
    px
}

/// a block like one seen before: the same, or differing in a pixel, a channel, or its alpha
pub fn alike(r: &mut Rng, old: &Px) -> Px {
    let mut px = *old;
    let i = r.below(16) as usize;
    match r.below(8) {
        0 | 1 => {}
        2 => px[4 * i + r.below(4) as usize] ^= 1 << r.below(8),
        3 => {
            let v = channel(r);
            let k = r.below(4) as usize;
            (0..16).for_each(|i| px[4 * i + k] = v[i]);
        }
        4 => {
            let v = channel(r);
            (0..16).for_each(|i| px[4 * i + 3] = v[i]);
        }
        5 => {
            let a = r.pick(&[0, 127, 128, 255]);
            (0..16).for_each(|i| px[4 * i + 3] = a);
        }
        6 => {
            let family = r.below(FAMILIES);
            rgb(r, &mut px, family)
        }
        _ => shuffle(r, &mut px),
    }
    px
}

/// bytes of blocks, some repeating earlier ones in whole or in part
pub fn blocks(r: &mut Rng, size: usize, n: usize, row: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..size * n).map(|_| r.byte()).collect();
    // how often a block, or half of one, is a single value
    let flat = r.pick(&[3, 12, 12, 1000]);
    for i in 0..n {
        if r.chance(1, flat) {
            let (a, z) = r.pick(&[(0, size), (0, size), (0, size / 2), (size / 2, size), (size - 8, size)]);
            let any = r.byte();
            let x = r.pick(&[0, 0, 255, any]);
            v[size * i + a..size * i + z].fill(x);
            continue;
        }
        if i == 0 || !r.chance(1, 3) {
            continue;
        }
        let from = match r.below(3) {
            0 => i - 1,
            1 if i >= row => i - row,
            _ => r.below(i as u64) as usize,
        };
        let (a, z) = r.pick(&[(0, size), (0, size), (0, size / 2), (size / 2, size), (size - 8, size - 4), (0, 2), (2, size)]);
        v.copy_within(size * from + a..size * from + z, size * i + a);
        if r.chance(1, 4) {
            v[size * i + r.below(size as u64) as usize] ^= 1 << r.below(8);
        }
    }
    v
}

/// what a destination holds before a call
pub fn prior(r: &mut Rng, n: usize, fill: u8) -> Vec<u8> {
    let mut v = vec![fill; n];
    match r.below(4) {
        0 => (),
        1 => v.iter_mut().for_each(|x| *x = r.byte()),
        k => {
            // mostly zeros or ones
            v.fill(if k == 2 { 0 } else { 255 });
            if n > 0 {
                for _ in 0..r.pick(&[0, n / 64 + 1, n / 8 + 1, n / 2 + 1]) {
                    v[r.below(n as u64) as usize] = r.byte();
                }
            }
        }
    }
    v
}

/// the pixels of a block lying in the first w columns and h rows
pub fn edge_mask(w: usize, h: usize) -> u32 {
    let mut m = 0;
    for i in 0..16 {
        if i % 4 < w && i / 4 < h {
            m |= 1 << i;
        }
    }
    m
}

pub fn mask(r: &mut Rng) -> u32 {
    let m = match r.below(20) {
        0..=8 => 0xffff,
        9..=12 => edge_mask(1 + r.below(4) as usize, 1 + r.below(4) as usize),
        13..=16 => r.below(65536) as u32,
        17 => 1 << r.below(16),
        18 => !(1 << r.below(16)) & 0xffff,
        _ => {
            if r.chance(1, 3) {
                0
            } else {
                (1 << r.below(16)) | (1 << r.below(16))
            }
        }
    };
    // bits past the sixteenth mean nothing
    if r.chance(1, 10) {
        m | (r.next() as u32 & 0xffff_0000)
    } else {
        m
    }
}

pub fn weights(r: &mut Rng, max: u64) -> [u32; 3] {
    let m = max.min(8) as u32;
    match r.below(10) {
        0..=2 => [1, 1, 1],
        3..=4 => [2, 7.min(m), 1],
        5 => r.pick(&[[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0], [1, 1, 0], [0, 1, 1]]),
        6 => r.pick(&[[m, 1, 1], [1, m, 1], [1, 1, m], [m, m, m]]),
        _ => [0; 3].map(|_| r.below(max + 1) as u32),
    }
}

/// real weights are the integers times this
pub const SCALES: [f32; 11] = [
    1.0,
    1.0 / 16.0,
    0.05,
    0.1,
    64.0,
    1.0,
    1.0 / 1024.0,
    1.0 / 1048576.0,
    1024.0,
    65536.0,
    1.0 / 65536.0,
];
