//! Cases per property: what to run, and the records to hand to TLC.

use crate::codec::*;
use crate::gen;
use crate::rng::Rng;
use crate::screen::{self, Cluster, View, OK};

/// a record for TLC
pub enum Rec {
    Enc(Enc),
    Pair(Enc, Enc),
    Grp(&'static str, Vec<Enc>),
    Dec(u8, Vec<u8>, Option<gen::Px>),
    Raw(String),
}

pub struct Item {
    pub bad: f64,
    pub rec: Rec,
}

impl Item {
    pub fn json(&self) -> String {
        match &self.rec {
            Rec::Enc(e) => e.json(0),
            Rec::Pair(a, b) => pair_json(a, b, 0),
            Rec::Grp(rel, v) => grp_json(rel, v, 0),
            Rec::Dec(f, b, o) => dec_json(*f, b, o.as_ref(), 0),
            Rec::Raw(s) => s.clone(),
        }
    }
}

pub fn pair_json(a: &Enc, b: &Enc, x: i64) -> String {
    J::new("pair")
        .n("p", a.p.max(b.p).into())
        .n("x", x)
        .raw("it", &a.object())
        .raw("cl", &b.object())
        .end()
}

pub fn grp_json(rel: &str, v: &[Enc], x: i64) -> String {
    let p = v.iter().map(|e| e.p).max().unwrap();
    let calls: Vec<String> = v.iter().map(|e| e.object()).collect();
    J::new("grp")
        .n("p", p.into())
        .n("x", x)
        .s("rel", rel)
        .raw("calls", &format!("[{}]", calls.join(",")))
        .end()
}

pub fn dec_json(f: u8, b: &[u8], o: Option<&gen::Px>, x: i64) -> String {
    J::new("dec")
        .n("p", if o.is_some() { 0 } else { 1 })
        .n("x", x)
        .n("f", f.into())
        .bytes("b", b)
        .bytes("o", o.map_or(&[][..], |o| &o[..]))
        .end()
}

fn weights_for(prop: &str, r: &mut Rng) -> [u32; 3] {
    match prop {
        "C10" | "C11" => gen::weights(r, 20),
        "C12" | "C13" | "C23" => gen::weights(r, 8),
        _ => {
            let max = r.pick(&[8, 100, 1000]);
            gen::weights(r, max)
        }
    }
}

fn base(prop: &str, r: &mut Rng) -> Case {
    let f = match prop {
        "C05" => 1,
        "C06" => 2,
        "C07" => r.pick(&[3, 4, 5]),
        "C14" => r.pick(&[1, 2, 3]),
        "C23" => 1,
        "C10" | "C11" | "C12" | "C13" | "C09" => r.pick(&[1, 1, 2, 3]),
        _ => r.pick(&[1, 2, 3, 4, 5]),
    };
    let g = match prop {
        "C11" => 0,
        "C12" | "C23" => r.pick(&[1, 2]),
        "C13" => 2,
        _ => r.pick(&[0, 0, 1, 2]),
    };
    let aw = match prop {
        "C10" => 0,
        _ => r.chance(1, 4) as u8,
    };
    let w = weights_for(prop, r);
    let sc = if r.chance(1, 8) { 6 + r.below(5) } else { r.below(6) } as u8;
    Case { f, g, w, sc, aw, m: gen::mask(r), px: [0; 64] }
}

fn one_colour(c: &mut Case) {
    let v = [c.px[0], c.px[1], c.px[2]];
    for i in 0..16 {
        c.px[4 * i..4 * i + 3].copy_from_slice(&v);
    }
}

/// the pixels of a tile, chosen to make the property bite
fn fill(prop: &str, r: &mut Rng, c: &mut Case) {
    let fam = r.below(gen::FAMILIES);
    gen::rgb(r, &mut c.px, fam);
    match prop {
        "C24" if r.chance(1, 3) => one_colour(c),
        "C09" => one_colour(c),
        "C10" => gen::rgb(r, &mut c.px, 2),
        "C11" | "C12" | "C13" | "C23" if r.chance(3, 5) => {
            let fam = r.pick(&[3, 3, 14, 14, 15]);
            gen::rgb(r, &mut c.px, fam)
        }
        _ => {}
    }
    if prop == "C10" && r.chance(1, 2) {
        // two colours on a chosen axis
        let mut px = c.px;
        gen::line(r, &mut px, 2);
        c.px = px;
    }
    if prop == "C07" || matches!(prop, "C08" | "C22") && r.chance(1, 2) || prop == "C24" && c.f > 2 {
        for k in 0..3 {
            let v = gen::channel(r);
            for i in 0..16 {
                c.px[4 * i + k] = v[i];
            }
        }
    }
    match prop {
        "C23" => {
            // opaque to BC1
            let v = gen::channel(r);
            let full = r.chance(1, 2);
            for i in 0..16 {
                c.px[4 * i + 3] = if full { 255 } else { v[i] | 128 };
            }
        }
        "C22" if r.chance(1, 3) => gen::alpha(r, &mut c.px),
        "C05" | "C06" | "C07" | "C22" | "C24" => {
            let v = gen::channel(r);
            for i in 0..16 {
                c.px[4 * i + 3] = v[i];
            }
        }
        "C10" | "C11" | "C12" | "C13" | "C09" | "C14" if r.chance(1, 2) => {
            for i in 0..16 {
                c.px[4 * i + 3] = if prop != "C14" && r.chance(1, 40) { 0 } else { 255 };
            }
        }
        _ => gen::alpha(r, &mut c.px),
    }
    if prop == "C22" {
        // colours that occur again, with other alpha
        for i in 1..16 {
            if r.chance(1, 3) {
                let j = r.below(i as u64) as usize;
                for k in 0..3 {
                    c.px[4 * i + k] = c.px[4 * j + k];
                }
            }
        }
    }
    if matches!(prop, "C09" | "C10" | "C23" | "C24") {
        // hidden pixels may have any colour
        for i in 0..16 {
            let hidden = c.m >> i & 1 == 0 || c.f == 1 && c.px[4 * i + 3] < 128;
            if hidden && r.chance(1, 2) {
                for k in 0..3 {
                    c.px[4 * i + k] = r.byte();
                }
            }
        }
    }
}

pub fn case(prop: &str, r: &mut Rng) -> Case {
    let mut c = base(prop, r);
    fill(prop, r, &mut c);
    c
}

pub fn badness(prop: &str, e: &Enc) -> f64 {
    if e.p != 0 {
        return 2e18;
    }
    let dec = screen::spec_decodes(e);
    if dec > 0.0 {
        // the two decoders differ: let TLC look at both
        return 1e17;
    }
    let v = View::new(e);
    let many = v.col.len() > 1;
    match prop {
        "C05" => screen::keeps_mask(&v),
        "C06" => screen::nearest_explicit(&v),
        "C07" => screen::streams_ok(&v),
        "C09" if v.e.c.f < 4 => screen::uniform(&v),
        "C10" => screen::two_colour(&v),
        "C11" if many => screen::range_from_block(&v)
            .max(screen::range_axis(&v))
            .max(screen::range_nearest(&v))
            .max(screen::range_mode(&v)),
        "C12" if many => {
            let c = Cluster::new(&v);
            c.least_squares().max(c.flat()).max(c.axis())
        }
        "C14" => screen::mode_safe(&v),
        "C22" => screen::keeps_order(&v),
        "C24" => screen::unchanged(&v),
        _ => OK,
    }
}

/// whether what was decoded is encoded and decoded again
fn twice(prop: &str) -> bool {
    matches!(prop, "C06" | "C24")
}

/// compresses and decompresses an image of several blocks and returns its blocks
fn image_encs(prop: &str, r: &mut Rng) -> Result<Vec<Enc>, String> {
    let proto = base(prop, r);
    let (w, h) = (1 + r.below(9) as usize, 1 + r.below(9) as usize);
    let (bw, bh) = ((w + 3) / 4, (h + 3) / 4);
    let mut tiles: Vec<Case> = vec![];
    for n in 0..bw * bh {
        let mut c = proto.clone();
        c.m = gen::edge_mask((w - 4 * (n % bw)).min(4), (h - 4 * (n / bw)).min(4));
        fill(prop, r, &mut c);
        if n > 0 && prop != "C09" && r.chance(1, 4) {
            c.px = gen::alike(r, &tiles[n - 1].px);
        }
        tiles.push(c);
    }
    let mut rgba = vec![0u8; 4 * w * h];
    for y in 0..h {
        for x in 0..w {
            let t = &tiles[(y / 4) * bw + x / 4].px;
            let i = x % 4 + 4 * (y % 4);
            rgba[4 * (y * w + x)..4 * (y * w + x) + 4].copy_from_slice(&t[4 * i..4 * i + 4]);
        }
    }
    let bs = bsize(proto.f);
    let through = |rgba: &[u8]| -> Option<(Vec<u8>, Vec<u8>)> {
        let mut data = vec![0x77u8; bs * bw * bh];
        let mut back = vec![0x11u8; 4 * w * h];
        guard(|| {
            format(proto.f).compress(rgba, w, h, proto.params(), &mut data);
            format(proto.f).decompress(&data, w, h, &mut back);
        })?;
        Some((data, back))
    };
    let fail = || {
        J::new("done")
            .n("p", 1)
            .n("x", 0)
            .s("what", "image compress/decompress")
            .n("f", proto.f.into())
            .n("g", proto.g.into())
            .n("w", w as i64)
            .n("h", h as i64)
            .bytes("px", &rgba)
            .end()
    };
    let (data, back) = through(&rgba).ok_or_else(fail)?;
    let second = if twice(prop) { Some(through(&back).ok_or_else(fail)?.1) } else { None };
    let pick = |img: &[u8], n: usize| {
        let mut o = [0u8; 64];
        for i in 0..16 {
            let (x, y) = (4 * (n % bw) + i % 4, 4 * (n / bw) + i / 4);
            if x < w && y < h {
                o[4 * i..4 * i + 4].copy_from_slice(&img[4 * (y * w + x)..4 * (y * w + x) + 4]);
            }
        }
        o
    };
    Ok(tiles
        .into_iter()
        .enumerate()
        .map(|(n, c)| Enc {
            c,
            p: 0,
            b: data[n * bs..(n + 1) * bs].to_vec(),
            o: pick(&back, n),
            o2: second.as_ref().map(|s| pick(s, n)),
        })
        .collect())
}

fn enc_items(prop: &str, r: &mut Rng, idx: u64) -> Vec<Item> {
    if idx % 8 == 7 {
        return match image_encs(prop, r) {
            Ok(v) => v
                .into_iter()
                .map(|e| Item { bad: badness(prop, &e), rec: Rec::Enc(e) })
                .collect(),
            Err(s) => vec![Item { bad: 2e18, rec: Rec::Raw(s) }],
        };
    }
    let c = case(prop, r);
    let e = c.run(twice(prop));
    vec![Item { bad: badness(prop, &e), rec: Rec::Enc(e) }]
}

// ---- C22: values follow their pixels ------------------------------------------------

pub fn mov_json(a: &Enc, z: &Enc, perm: &[i64], x: i64) -> String {
    J::new("mov")
        .n("p", a.p.max(z.p).into())
        .n("x", x)
        .raw("a", &a.object())
        .raw("z", &z.object())
        .ints("perm", perm)
        .end()
}

/// the same pixels in other places, all that is not stored in these channels scrambled
fn moved(r: &mut Rng) -> Item {
    let mut c = case("C22", r);
    c.f = r.pick(&[2, 3, 4, 5, 5]);
    let mut perm: Vec<usize> = (0..16).collect();
    match r.below(5) {
        0 => perm.reverse(),
        1 => perm = (0..16).map(|i| i % 4 * 4 + i / 4).collect(),
        2 => perm = (0..16).map(|i| i ^ 3).collect(),
        3 => {
            let (i, j) = (r.below(16) as usize, r.below(16) as usize);
            perm.swap(i, j);
        }
        _ => (1..16).rev().for_each(|i| perm.swap(i, r.below(i as u64 + 1) as usize)),
    }
    let mut d = c.clone();
    d.m = if r.chance(1, 2) { 0 } else { (r.next() as u32) << 16 };
    for i in 0..16 {
        let from = perm[i];
        d.m |= (c.m >> from & 1) << i;
        d.px[4 * i..4 * i + 4].copy_from_slice(&c.px[4 * from..4 * from + 4]);
    }
    for i in 0..16 {
        for k in 0..4 {
            if d.m >> i & 1 == 0 || !screen::single(c.f).contains(&k) && r.chance(1, 4) {
                d.px[4 * i + k] = r.byte();
            }
        }
    }
    d.g = r.below(3) as u8;
    let (a, z) = (c.run(false), d.run(false));
    let ok = (0..16).all(|i| {
        d.m >> i & 1 == 0 || screen::single(c.f).iter().all(|&k| z.o[4 * i + k] == a.o[4 * perm[i] + k])
    });
    let bad = if a.p + z.p > 0 {
        2e18
    } else if ok {
        OK
    } else {
        1e18
    };
    let perm: Vec<i64> = perm.iter().map(|&x| x as i64).collect();
    Item { bad, rec: Rec::Raw(mov_json(&a, &z, &perm, 0)) }
}

fn same(v: &[Enc]) -> bool {
    v.iter().all(|e| e.p == 0)
}

// ---- C08: what is not stored does not matter ----------------------------------------

fn stored_group(r: &mut Rng) -> Vec<Enc> {
    let c = case("C08", r);
    let mut calls = vec![];
    let mut push = |c: Case, fill: u8| {
        let mut e = Enc { c, p: 0, b: vec![], o: [0; 64], o2: None };
        match e.c.encode(fill) {
            Some(b) => e.b = b,
            None => e.p = 1,
        }
        calls.push(e);
    };
    let hide = |r: &mut Rng, c: &Case, f: u8| {
        // same stored input in format f, everything else scrambled
        let mut d = Case { f, ..c.clone() };
        d.m = c.m & 0xffff | if r.chance(1, 2) { (r.next() as u32) << 16 } else { 0 };
        for i in 0..16 {
            let out = c.m >> i & 1 == 0;
            let clear = f == 1 && c.px[4 * i + 3] < 128;
            for k in 0..3 {
                if out || clear {
                    d.px[4 * i + k] = if r.chance(1, 3) { r.pick(&c.px) } else { r.byte() };
                }
            }
            if out {
                d.px[4 * i + 3] = r.pick(&[0, 127, 128, 255]);
            } else if clear {
                d.px[4 * i + 3] = r.below(128) as u8;
            } else if f == 1 && c.aw == 0 {
                d.px[4 * i + 3] = 128 + r.below(128) as u8;
            }
        }
        d
    };
    let f0 = if c.f < 4 { c.f } else { 3 };
    for f in [f0, f0, f0] {
        let d = hide(r, &c, f);
        push(d, r.byte());
    }
    if f0 != 1 {
        // BC2 and BC3 share colour halves; with other alpha if it does not weigh
        for f in [2, 3] {
            let mut d = hide(r, &c, f);
            if c.aw == 0 {
                let v = gen::channel(r);
                (0..16).for_each(|i| d.px[4 * i + 3] = v[i]);
            }
            push(d, r.byte());
        }
    } else {
        // opaque in BC1: every way of writing the same threshold
        let mut d = hide(r, &c, 1);
        if c.aw == 0 {
            for i in 0..16 {
                let a = &mut d.px[4 * i + 3];
                *a = if *a < 128 { 127 } else { 128 };
            }
        }
        push(d, r.byte());
    }
    // one channel through every stream
    let ch = r.below(4) as usize;
    let v: Vec<u8> = (0..16).map(|i| c.px[4 * i + ch]).collect();
    for (f, at) in [(3u8, 3usize), (4, 0), (5, 0), (5, 1)] {
        let mut d = hide(r, &c, f);
        for i in 0..16 {
            for k in 0..4 {
                if k == at {
                    d.px[4 * i + k] = v[i];
                } else {
                    d.px[4 * i + k] = r.byte();
                }
            }
            if c.m >> i & 1 == 0 {
                d.px[4 * i + at] = r.byte();
            }
        }
        d.w = gen::weights(r, 8);
        d.g = r.below(3) as u8;
        d.aw = r.below(2) as u8;
        push(d, r.byte());
    }
    // explicit alpha whatever the colours and parameters
    for _ in 0..2 {
        let mut d = hide(r, &c, 2);
        for i in 0..16 {
            for k in 0..3 {
                d.px[4 * i + k] = r.byte();
            }
        }
        d.g = r.below(3) as u8;
        push(d, r.byte());
    }
    calls
}

type Part = (u8, Vec<i64>, Vec<u8>);

fn parts(e: &Enc) -> Vec<Part> {
    let c = &e.c;
    let valid = |i: usize| c.m >> i & 1 == 1;
    let mut v = vec![];
    if c.f <= 3 {
        let mut key: Vec<i64> = vec![c.g.into(), c.sc.into(), c.aw.into(), (c.f == 1).into()];
        key.extend(c.w.iter().map(|&x| i64::from(x)));
        for i in 0..16 {
            if !valid(i) {
                key.push(-1);
            } else if c.f == 1 && c.px[4 * i + 3] < 128 {
                key.push(-2);
            } else {
                key.extend(c.px[4 * i..4 * i + 3].iter().map(|&x| i64::from(x)));
                if c.aw == 1 {
                    key.push(c.px[4 * i + 3].into());
                }
            }
        }
        let off = if c.f == 1 { 0 } else { 8 };
        v.push((0, key, e.b[off..off + 8].to_vec()));
    }
    let chan = |ch: usize| -> Vec<i64> {
        (0..16).map(|i| if valid(i) { c.px[4 * i + ch].into() } else { -1 }).collect()
    };
    if c.f == 2 {
        v.push((1, chan(3), e.b[..8].to_vec()));
    }
    for &(off, ch) in screen::streams(c.f) {
        v.push((2, chan(ch), e.b[off..off + 8].to_vec()));
    }
    v
}

fn stored_ok(v: &[Enc]) -> bool {
    let p: Vec<Part> = v.iter().flat_map(parts).collect();
    p.iter().all(|a| p.iter().all(|b| a.0 != b.0 || a.1 != b.1 || a.2 == b.2))
}

// ---- C15: ratios --------------------------------------------------------------------

fn ratio_group(r: &mut Rng) -> Vec<Enc> {
    let mut c = case("C15", r);
    c.w = gen::weights(r, 30);
    c.sc = r.pick(&[0, 2, 3]);
    let opaque = r.chance(1, 2);
    if opaque {
        for i in 0..16 {
            c.px[4 * i + 3] = 255;
        }
    }
    let mut calls = vec![];
    let mut push = |c: Case, fill: u8| {
        let mut e = Enc { c, p: 0, b: vec![], o: [0; 64], o2: None };
        match e.c.encode(fill) {
            Some(b) => e.b = b,
            None => e.p = 1,
        }
        calls.push(e);
    };
    push(c.clone(), r.byte());
    for _ in 0..3 {
        let mut d = c.clone();
        let s = r.below(8) as u32;
        d.w = c.w.map(|x| x << s);
        if c.sc == 0 {
            d.sc = r.pick(&[0, 1, 4, 6, 7, 8, 9, 10]);
        }
        if r.chance(1, 2) {
            d.aw = 1 - c.aw;
        }
        push(d, r.byte());
    }
    for f in [4, 5] {
        for _ in 0..2 {
            let mut d = Case { f, ..c.clone() };
            d.g = r.below(3) as u8;
            d.aw = r.below(2) as u8;
            d.w = gen::weights(r, 30);
            push(d, r.byte());
        }
    }
    calls
}

fn odd_part(mut w: [u32; 3]) -> [u32; 3] {
    while w != [0; 3] && w.iter().all(|x| x % 2 == 0) {
        w = w.map(|x| x / 2);
    }
    w
}

fn ratio_ok(v: &[Enc]) -> bool {
    let key = |e: &Enc| {
        let c = &e.c;
        if c.f > 3 {
            return (9, [0; 3], 0, 0);
        }
        let opaque = View::new(e).vis.iter().all(|&i| c.px[4 * i + 3] == 255);
        let class = if c.sc == 2 || c.sc == 3 { c.sc } else { 0 };
        (c.g, odd_part(c.w), class, if opaque { 0 } else { c.aw })
    };
    v.iter().all(|a| {
        v.iter().all(|b| {
            a.c.f != b.c.f || a.c.m != b.c.m || a.c.px != b.c.px || key(a) != key(b) || a.b == b.b
        })
    })
}

// ---- C09 groups ---------------------------------------------------------------------

fn uniform_group(r: &mut Rng) -> Vec<Enc> {
    let c = case("C09", r);
    (0..4)
        .map(|n| {
            let mut d = c.clone();
            if n > 0 {
                d.g = r.below(3) as u8;
                d.w = gen::weights(r, 20);
                d.aw = r.below(2) as u8;
            }
            d.run(false)
        })
        .collect()
}

fn uniform_ok(v: &[Enc]) -> bool {
    v.iter().all(|e| {
        let a = View::new(e);
        a.vis.iter().all(|&i| (0..3).all(|k| e.o[4 * i + k] == v[0].o[4 * i + k]))
    })
}

// ---- C01 ----------------------------------------------------------------------------

pub fn dec_block(r: &mut Rng, f: u8) -> Vec<u8> {
    let mut b: Vec<u8> = (0..bsize(f)).map(|_| r.byte()).collect();
    for off in (0..b.len()).step_by(8) {
        match r.below(6) {
            0 => {
                // equal endpoints
                b[off + 2] = b[off];
                b[off + 3] = b[off + 1];
                b[off + 1] = b[off];
            }
            1 => {
                // endpoints a step apart
                let v = u16::from_le_bytes([b[off], b[off + 1]]);
                let u = v.wrapping_add(1).to_le_bytes();
                b[off + 2] = u[0];
                b[off + 3] = u[1];
                b[off + 1] = b[off].wrapping_add(r.pick(&[1, 255, 0]));
            }
            2 => {
                let v = r.pick(&[0u8, 255]);
                b[off + r.below(4) as usize] = v;
            }
            3 => {
                // one index everywhere
                let v = r.pick(&[0u8, 0x55, 0xAA, 0xFF, 0x49, 0x92, 0x24]);
                for q in 4..8 {
                    b[off + q] = v;
                }
            }
            _ => {}
        }
    }
    // bytes that are all alike, all but one, or alike in both halves
    let any = r.byte();
    match r.below(24) {
        0 => {
            let v = r.pick(&[0, 0, 255, any]);
            b.fill(v);
        }
        1 => {
            let v = r.pick(&[0, 0, 255, any]);
            b.fill(v);
            b[r.below(bsize(f) as u64) as usize] = r.byte();
        }
        2 if bsize(f) == 16 => {
            let half = r.below(2) as usize;
            let v = r.pick(&[0, 255, any]);
            b[8 * half..8 * half + 8].fill(v);
        }
        3 if bsize(f) == 16 => b.copy_within(..8, 8),
        4 => {
            let from = r.pick(&[2, 4]);
            let v = r.pick(&[0, 255]);
            for x in b.iter_mut().skip(from) {
                *x = v;
            }
        }
        _ => {}
    }
    b
}

pub fn dec_item(f: u8, b: Vec<u8>) -> Item {
    let o = decode(f, &b);
    let bad = match &o {
        None => 2e18,
        Some(o) if *o != screen::decode(f, &b) => 1e18,
        _ => OK,
    };
    Item { bad, rec: Rec::Dec(f, b, o) }
}

// ---- C21 ----------------------------------------------------------------------------

fn odd_weights(r: &mut Rng) -> [f32; 3] {
    [0; 3].map(|_| match r.below(10) {
        0 => 0.0,
        1 => 1000.0,
        2 => 1e-30,
        3 => f32::MIN_POSITIVE / 2.0,
        4 => 1e-6,
        5 => r.below(1000) as f32,
        _ => r.below(1 << 20) as f32 / (1 << 20) as f32,
    })
}

fn completes(r: &mut Rng, idx: u64) -> Vec<Item> {
    let c = case("C21", r);
    let w = odd_weights(r);
    let mut p = c.params();
    p.weights = w;
    if r.chance(1, 3) {
        p.weights = texpresso::COLOUR_WEIGHTS_PERCEPTUAL;
    }
    let j = J::new("done")
        .n("x", 0)
        .n("f", c.f.into())
        .n("g", c.g.into())
        .n("aw", c.aw.into())
        .s("weights", &format!("{:?}", p.weights));
    let (ok, j) = if idx % 4 != 3 {
        let mut out = vec![1u8; bsize(c.f) + if r.chance(1, 4) { r.below(20) as usize } else { 0 }];
        let ok = guard(|| format(c.f).compress_block_masked(texels(&c.px), c.m, p, &mut out)).is_some()
            && (out.len() > bsize(c.f) || decode(c.f, &out).is_some());
        (ok, j.s("what", "block").n("mh", i64::from(c.m >> 16)).n("m", i64::from(c.m & 0xffff)).bytes("px", &c.px))
    } else {
        let (wd, h) = match r.below(8) {
            0 => (0, r.below(9) as usize),
            1 => (r.below(9) as usize, 0),
            2 => (1 + r.below(70) as usize, 1 + r.below(4) as usize),
            3 => (1 + r.below(4) as usize, 1 + r.below(70) as usize),
            _ => (r.below(14) as usize, r.below(14) as usize),
        };
        let px: Vec<u8> = (0..4 * wd * h).map(|i| if i < 64 { c.px[i] } else { r.byte() }).collect();
        let extra = if r.chance(1, 2) { 0 } else { r.below(300) as usize };
        let extra2 = if r.chance(1, 2) { 0 } else { r.below(3000) as usize };
        let n = bsize(c.f) * ((wd + 3) / 4) * ((h + 3) / 4);
        let mut out = vec![0u8; n + extra];
        let mut back = vec![0u8; 4 * wd * h + extra2];
        let ok = guard(|| {
            format(c.f).compress(&px, wd, h, p, &mut out);
            format(c.f).decompress(&out, wd, h, &mut back);
            let rnd: Vec<u8> = (0..n).map(|_| r.byte()).collect();
            format(c.f).decompress(&rnd, wd, h, &mut back);
        })
        .is_some();
        (
            ok,
            j.s("what", "image")
                .n("width", wd as i64)
                .n("height", h as i64)
                .n("excess_out", extra as i64)
                .n("excess_back", extra2 as i64)
                .bytes("px", &px[..px.len().min(4000)]),
        )
    };
    let s = j.n("p", if ok { 0 } else { 1 }).end();
    vec![Item { bad: if ok { OK } else { 2e18 }, rec: Rec::Raw(s) }]
}

// ---- dispatch -----------------------------------------------------------------------

/// triples a <= b <= c of 0..256
const TRIPLES: u64 = 256 * 257 * 258 / 6;

/// indices from here on enumerate a finite family of blocks
pub const FAMILY: u64 = 1 << 40;

fn values(prop: &str) -> u64 {
    match prop {
        "C07" | "C22" | "C24" => 2 * TRIPLES,
        "C10" => 19 * 19 * 19 * 9 * 6,
        _ => 0,
    }
}

/// formats and algorithms every mask is run with
fn masked(prop: &str) -> (&'static [u8], &'static [u8]) {
    match prop {
        "C05" => (&[1], &[0, 1, 2]),
        "C06" => (&[2], &[0]),
        "C07" => (&[3, 4, 5], &[0]),
        "C09" | "C10" | "C14" => (&[1, 2, 3], &[0, 1, 2]),
        "C11" => (&[1, 2, 3], &[0]),
        "C12" => (&[1, 2], &[1, 2]),
        "C21" | "C22" => (&[1, 2, 3, 4, 5], &[0, 1, 2]),
        "C24" => (&[2, 3, 4, 5], &[0]),
        _ => (&[], &[]),
    }
}

/// how many blocks of the property's finite families there are: values, masks, and
/// patterns of transparent pixels
pub fn family(prop: &str) -> u64 {
    let (f, g) = masked(prop);
    values(prop) + (2 << 16) * (f.len() * g.len()) as u64
}

/// three values, or five with 0 and 255 among them, in all their combinations
fn member(prop: &str, r: &mut Rng, k: u64) -> Case {
    if k >= values(prop) {
        let k = k - values(prop);
        let (fs, gs) = masked(prop);
        let n = (k >> 17) as usize;
        let mut b = base(prop, r);
        b.f = fs[n % fs.len()];
        b.g = gs[n / fs.len()];
        let hidden = k >> 16 & 1 == 1;
        b.m = b.m & !0xffff | if hidden { 0xffff } else { k as u32 & 0xffff };
        fill(prop, r, &mut b);
        if hidden || r.chance(1, 2) {
            let seen = |b: &Case, i: usize| b.m >> i & 1 == 1 && (b.f != 1 || b.px[4 * i + 3] > 127);
            let at = |b: &Case, i: usize| [b.px[4 * i], b.px[4 * i + 1], b.px[4 * i + 2]];
            let colours: Vec<[u8; 3]> = (0..16).filter(|&i| seen(&b, i)).map(|i| at(&b, i)).collect();
            for i in 0..16 {
                let a = r.byte();
                b.px[4 * i + 3] = if hidden && k >> i & 1 == 0 { r.pick(&[0, 127, a / 2]) } else { 128 | a };
            }
            // what was hidden had any colour
            for i in 0..16 {
                if matches!(prop, "C09" | "C10") && !colours.is_empty() && seen(&b, i) && !colours.contains(&at(&b, i)) {
                    let v = r.pick(&colours);
                    b.px[4 * i..4 * i + 3].copy_from_slice(&v);
                }
            }
        }
        return b;
    }
    let mut c = case(prop, r);
    if prop == "C10" {
        // every small difference of two colours, with every algorithm and format
        let (d, k) = (k % 6859, k / 6859);
        c.g = (k % 3) as u8;
        c.f = 1 + (k / 3 % 3) as u8;
        c.m |= 0x21;
        let d = [d % 19, d / 19 % 19, d / 361].map(|x| x as i64 - 9);
        let a = [0, 1, 2].map(|_| r.byte() as i64);
        let z = [0, 1, 2].map(|i| (a[i] + d[i]).clamp(0, 255));
        for i in 0..16 {
            let v = if i == 0 || i != 5 && r.chance(1, 2) { a } else { z };
            (0..3).for_each(|k| c.px[4 * i + k] = v[k] as u8);
        }
        [0, 5].iter().for_each(|i| c.px[4 * i + 3] = 255);
        return c;
    }
    let mut t = k % TRIPLES;
    let (mut a, mut b) = (0, 0);
    while t >= (256 - a) * (257 - a) / 2 {
        t -= (256 - a) * (257 - a) / 2;
        a += 1;
    }
    b += a;
    while t >= 256 - b {
        t -= 256 - b;
        b += 1;
    }
    let mut v = vec![a as u8, b as u8, (b + t) as u8];
    if k >= TRIPLES {
        v.extend([0, 255]);
    }
    c.f = r.pick(&[3, 4, 5]);
    if r.chance(3, 4) {
        c.m |= 0xffff;
    }
    let ch = r.pick(&screen::single(c.f));
    let mut at: Vec<usize> = (0..16).collect();
    (1..16).rev().for_each(|i| at.swap(i, r.below(i as u64 + 1) as usize));
    for (n, &i) in at.iter().enumerate() {
        let x = if n < v.len() { v[n] } else { r.pick(&v) };
        c.px[4 * i + ch] = x;
    }
    c
}

pub fn items(prop: &str, seed: u64, idx: u64) -> Vec<Item> {
    let mut r = Rng::new(seed, prop.bytes().fold(0, |a, b| a * 256 + u64::from(b)), idx);
    let r = &mut r;
    if idx >= FAMILY {
        let c = member(prop, r, idx - FAMILY);
        let e = c.run(twice(prop));
        return vec![Item { bad: badness(prop, &e), rec: Rec::Enc(e) }];
    }
    match prop {
        "C01" => {
            let f = r.pick(&[1, 2, 3, 4, 5]);
            let b = dec_block(r, f);
            vec![dec_item(f, b)]
        }
        "C08" => {
            let g = stored_group(r);
            let bad = if !same(&g) {
                2e18
            } else if stored_ok(&g) {
                OK
            } else {
                1e18
            };
            vec![Item { bad, rec: Rec::Grp("stored", g) }]
        }
        "C15" => {
            let g = ratio_group(r);
            let bad = if !same(&g) {
                2e18
            } else if ratio_ok(&g) {
                OK
            } else {
                1e18
            };
            vec![Item { bad, rec: Rec::Grp("ratios", g) }]
        }
        "C09" if idx % 16 == 3 => {
            let g = uniform_group(r);
            let bad = if !same(&g) {
                2e18
            } else if uniform_ok(&g) {
                OK
            } else {
                1e18
            };
            vec![Item { bad, rec: Rec::Grp("uniform", g) }]
        }
        "C22" if idx % 8 == 3 => vec![moved(r)],
        "C13" | "C23" => {
            let it = case(prop, r);
            let f = if prop == "C13" { it.f } else { r.pick(&[2, 3]) };
            let cl = Case { f, g: 1, ..it.clone() };
            let (a, b) = (it.run(false), cl.run(false));
            let bad = if a.p + b.p > 0 {
                2e18
            } else {
                let (va, vb) = (View::new(&a), View::new(&b));
                if va.col.len() > 1 {
                    Cluster::new(&va).not_worse(&Cluster::new(&vb))
                } else {
                    OK
                }
            };
            vec![Item { bad, rec: Rec::Pair(a, b) }]
        }
        "C21" => completes(r, idx),
        _ => enc_items(prop, r, idx),
    }
}

/// records corrupted on purpose: TLC must reject every one of them
pub fn canaries(prop: &str) -> Vec<String> {
    let mut v = vec![];
    let mut px = [0u8; 64];
    for i in 0..16u8 {
        let n = 4 * i as usize;
        px[n..n + 4].copy_from_slice(&[100 + i, 90 + 2 * i, 120 + i, if i < 5 { 20 } else { 240 }]);
    }
    let c = |f: u8, g: u8| Case { f, g, w: [1, 1, 1], sc: 0, aw: 0, m: 0xffff, px };
    // decoding far from the pixels: no tolerance covers it
    let far = |f: u8, g: u8| {
        let mut e = c(f, g).run(true);
        let mut q = e.c.clone();
        for i in 0..16 {
            q.px[4 * i] = if i % 2 == 0 { 10 } else { 30 };
            q.px[4 * i + 1] = 250;
            q.px[4 * i + 2] = 20;
            q.px[4 * i + 3] = 255 - e.c.px[4 * i + 3];
        }
        e.c = q;
        e
    };
    match prop {
        "C01" => {
            for f in 1..=5 {
                let b: Vec<u8> = (0..bsize(f) as u8).map(|i| i.wrapping_mul(37) ^ 0x5b).collect();
                let mut o = screen::decode(f, &b);
                o[4 * f as usize] ^= 1;
                v.push(dec_json(f, &b, Some(&o), 1));
            }
        }
        "C05" => {
            let mut e = c(1, 1).run(false);
            e.o[3] = 255;
            v.push(e.json(1));
            let mut e = c(1, 0).run(false);
            e.o[63] = 0;
            v.push(e.json(1));
            v.push(far(1, 2).json(1));
        }
        "C06" => {
            let mut e = c(2, 1).run(true);
            e.o[3] = e.o[3].wrapping_add(17);
            v.push(e.json(1));
            let mut e = c(2, 1).run(true);
            e.o2.as_mut().unwrap()[7] ^= 17;
            v.push(e.json(1));
            v.push(far(2, 0).json(1));
        }
        "C07" => {
            for f in [3, 4, 5] {
                v.push(far(f, 1).json(1));
                let mut e = c(f, 1).run(false);
                let k = if f == 3 { 3 } else { 0 };
                e.o[k] ^= 64;
                v.push(e.json(1));
            }
            // nearest in a poor ramp
            let mut e = c(4, 1).run(false);
            e.b = vec![0, 255, 0, 0, 0, 0, 0, 0];
            for i in 0..16 {
                let q = if e.c.px[4 * i] < 102 { 102 } else { 102 };
                e.o[4 * i] = q;
            }
            e.b[2..8].copy_from_slice(&[0xdb, 0xb6, 0x6d, 0xdb, 0xb6, 0x6d]);
            v.push(e.json(1));
        }
        "C09" => {
            let mut k = c(1, 1);
            for i in 0..16 {
                k.px[4 * i..4 * i + 4].copy_from_slice(&[77, 99, 203, 255]);
            }
            let mut e = k.run(false);
            for i in 0..16 {
                e.o[4 * i] += 3;
            }
            v.push(e.json(1));
            let a = Case { f: 2, ..k.clone() }.run(false);
            let mut b = Case { f: 2, g: 0, ..k }.run(false);
            b.o[1] ^= 4;
            v.push(grp_json("uniform", &[a, b], 1));
        }
        "C10" => {
            for g in 0..3 {
                let mut k = c(2, g);
                for i in 0..16 {
                    let q = if i % 3 == 0 { [200, 30, 40, 255] } else { [100, 130, 41, 255] };
                    k.px[4 * i..4 * i + 4].copy_from_slice(&q);
                }
                let mut e = k.run(false);
                for i in 0..16 {
                    e.o[4 * i..4 * i + 3].copy_from_slice(&[150, 80, 40]);
                }
                v.push(e.json(1));
            }
        }
        "C11" => {
            for f in [1, 2] {
                v.push(far(f, 0).json(1));
                let mut e = c(f, 0).run(false);
                e.o[4 * 9] = 0;
                v.push(e.json(1));
            }
        }
        "C12" => {
            for f in [1, 3] {
                v.push(far(f, 1).json(1));
                let mut e = c(f, 1).run(false);
                let off = if f == 1 { 0 } else { 8 };
                e.b[off] ^= 8;
                e.b[off + 2] ^= 8;
                e.b[off + 3] ^= 8;
                v.push(e.json(1));
            }
        }
        "C13" => {
            for f in [1, 2] {
                let mut a = c(f, 2).run(false);
                for i in 0..16 {
                    a.o[4 * i] = 0;
                }
                v.push(pair_json(&a, &c(f, 1).run(false), 1));
            }
        }
        "C22" => {
            for f in 1..=5 {
                let mut k = c(f, f % 3);
                k.px.copy_within(20..23, 40);
                k.px[43] = k.px[23];
                let mut e = k.run(false);
                e.o[if f == 2 || f == 3 { 43 } else { 40 }] ^= 1;
                v.push(e.json(1));
            }
            let mut k = c(3, 0);
            let a = k.run(false);
            k.px.reverse();
            for i in 0..16 {
                k.px[4 * i..4 * i + 4].reverse();
            }
            let perm: Vec<i64> = (0..16).rev().collect();
            let mut z = k.run(false);
            z.o[15] ^= 8;
            v.push(mov_json(&a, &z, &perm, 1));
        }
        "C23" => {
            for g in [1, 2] {
                let mut k = c(1, g);
                (0..16).for_each(|i| k.px[4 * i + 3] = 200);
                let mut a = k.run(false);
                (0..16).for_each(|i| a.o[4 * i] = 0);
                v.push(pair_json(&a, &Case { f: 1 + g, g: 1, ..k }.run(false), 1));
            }
        }
        "C24" => {
            for f in [2, 3, 4, 5, 1] {
                let mut k = c(f, f % 3);
                if f == 1 {
                    k.px = [99; 64];
                    (0..16).for_each(|i| k.px[4 * i + 3] = 200);
                }
                let mut e = k.run(true);
                e.o2.as_mut().unwrap()[4 * 7 + if f == 2 || f == 3 { 3 } else { 0 }] ^= 1;
                v.push(e.json(1));
            }
        }
        "C14" => {
            let mut k = c(2, 0);
            k.px.iter_mut().for_each(|x| *x |= 129);
            let mut e = k.run(false);
            e.b[8..16].copy_from_slice(&[1, 2, 3, 4, 0xff, 0, 0xff, 0]);
            v.push(e.json(1));
            k.f = 1;
            let mut e = k.run(false);
            e.o[7] = 0;
            v.push(e.json(1));
        }
        "C08" => {
            for f in [1, 2, 3] {
                let a = c(f, 0).run(false);
                let mut b = a.clone();
                b.b[7] ^= 1;
                v.push(grp_json("stored", &[a, b], 1));
            }
            let a = c(4, 0).run(false);
            let mut b = c(5, 0).run(false);
            b.b[2] ^= 4;
            v.push(grp_json("stored", &[a, b], 1));
        }
        "C15" => {
            for f in [1, 5] {
                let a = c(f, 0).run(false);
                let mut b = a.clone();
                b.c.w = [4, 4, 4];
                b.b[7] ^= 1;
                v.push(grp_json("ratios", &[a, b], 1));
            }
        }
        "C21" => {
            v.push(J::new("done").n("p", 1).n("x", 1).end());
            v.push(J::new("done").n("p", 2).n("x", 1).end());
        }
        _ => {}
    }
    v
}
