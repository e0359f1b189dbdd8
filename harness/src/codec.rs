//! The calls into the library under test, and the records made of them.

use crate::gen::{Px, SCALES};
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::panic::{catch_unwind, AssertUnwindSafe};
use texpresso::{Algorithm, Format, Params};

pub fn format(f: u8) -> Format {
    [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5][f as usize - 1]
}

pub fn algorithm(g: u8) -> Algorithm {
    [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit][g as usize]
}

/// bytes per block, by the format's definition (the library's own answer is under test)
pub fn bsize(f: u8) -> usize {
    if f == 1 || f == 4 {
        8
    } else {
        16
    }
}

pub fn params(g: u8, w: [u32; 3], scale: f32, aw: u8) -> Params {
    Params {
        algorithm: algorithm(g),
        weights: [w[0] as f32 * scale, w[1] as f32 * scale, w[2] as f32 * scale],
        weigh_colour_by_alpha: aw != 0,
    }
}

/// one encoding call
#[derive(Clone)]
pub struct Case {
    pub f: u8,
    pub g: u8,
    pub w: [u32; 3],
    pub sc: u8,
    pub aw: u8,
    pub m: u32,
    pub px: Px,
}

/// an encoding call and what came of it
#[derive(Clone)]
pub struct Enc {
    pub c: Case,
    pub p: u8,
    pub b: Vec<u8>,
    pub o: Px,
    pub o2: Option<Px>,
}

/// per thread: calls into the library under way, and how often one began or ended
#[repr(align(128))]
struct Pulse {
    busy: AtomicU64,
    beat: AtomicU64,
}
const PULSES: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const STILL: Pulse = Pulse { busy: AtomicU64::new(0), beat: AtomicU64::new(0) };
static PULSE: [Pulse; PULSES] = [STILL; PULSES];
static THREADS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static MINE: usize = THREADS.fetch_add(1, Relaxed) as usize % PULSES;
}

/// (calls under way, beats so far)
pub fn pulse() -> (u64, u64) {
    PULSE.iter().fold((0, 0), |a, p| (a.0 + p.busy.load(Relaxed), a.1 + p.beat.load(Relaxed)))
}

/// a call into the library: None if it panics
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    let p = &PULSE[MINE.with(|m| *m)];
    p.busy.fetch_add(1, Relaxed);
    p.beat.fetch_add(1, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    p.beat.fetch_add(1, Relaxed);
    p.busy.fetch_sub(1, Relaxed);
    r
}

pub fn flat(t: [[u8; 4]; 16]) -> Px {
    let mut o = [0u8; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&t[i]);
    }
    o
}

pub fn texels(px: &Px) -> [[u8; 4]; 16] {
    let mut t = [[0u8; 4]; 16];
    for i in 0..16 {
        t[i].copy_from_slice(&px[4 * i..4 * i + 4]);
    }
    t
}

impl Case {
    pub fn params(&self) -> Params {
        params(self.g, self.w, SCALES[self.sc as usize], self.aw)
    }

    /// encodes into a buffer whose previous contents must not matter
    pub fn encode(&self, fill: u8) -> Option<Vec<u8>> {
        // a destination that is not of one value
        let mut out: Vec<u8> = (0..bsize(self.f)).map(|i| fill.rotate_left(i as u32 / 3) & self.px[i]).collect();
        guard(|| {
            format(self.f).compress_block_masked(texels(&self.px), self.m, self.params(), &mut out)
        })?;
        Some(out)
    }

    pub fn run(&self, twice: bool) -> Enc {
        let mut e = Enc { c: self.clone(), p: 0, b: vec![], o: [0; 64], o2: None };
        match self.encode(0xA5) {
            None => e.p = 1,
            Some(b) => {
                e.b = b;
                match decode(self.f, &e.b) {
                    None => e.p = 1,
                    Some(o) => {
                        e.o = o;
                        if twice {
                            let again = Case { px: o, ..self.clone() };
                            match again.encode(0x5A).and_then(|b| decode(self.f, &b)) {
                                None => e.p = 1,
                                Some(o2) => e.o2 = Some(o2),
                            }
                        }
                    }
                }
            }
        }
        e
    }
}

pub fn decode(f: u8, b: &[u8]) -> Option<Px> {
    guard(|| flat(format(f).decompress_block(b)))
}

/// JSON objects, one field at a time
pub struct J(pub String);

impl J {
    pub fn new(kind: &str) -> J {
        J(format!("{{\"k\":\"{}\"", kind))
    }
    pub fn n(mut self, k: &str, v: i64) -> J {
        write!(self.0, ",\"{}\":{}", k, v).unwrap();
        self
    }
    pub fn s(mut self, k: &str, v: &str) -> J {
        write!(self.0, ",\"{}\":\"{}\"", k, v).unwrap();
        self
    }
    pub fn bytes(self, k: &str, v: &[u8]) -> J {
        self.ints(k, &v.iter().map(|&x| i64::from(x)).collect::<Vec<_>>())
    }
    pub fn ints(mut self, k: &str, v: &[i64]) -> J {
        write!(self.0, ",\"{}\":[", k).unwrap();
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.0.push(',');
            }
            write!(self.0, "{}", x).unwrap();
        }
        self.0.push(']');
        self
    }
    pub fn raw(mut self, k: &str, v: &str) -> J {
        write!(self.0, ",\"{}\":{}", k, v).unwrap();
        self
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

impl Enc {
    pub fn fields(&self, j: J) -> J {
        let c = &self.c;
        let mut j = j
            .n("f", c.f.into())
            .n("g", c.g.into())
            .ints("w", &c.w.map(i64::from))
            .n("sc", c.sc.into())
            .n("aw", c.aw.into())
            .n("m", i64::from(c.m & 0xffff))
            .n("mh", i64::from(c.m >> 16))
            .bytes("px", &c.px)
            .bytes("b", &self.b)
            .bytes("o", &self.o);
        if let Some(o2) = &self.o2 {
            j = j.bytes("o2", o2);
        }
        j
    }
    pub fn json(&self, x: i64) -> String {
        self.fields(J::new("enc").n("p", self.p.into()).n("x", x)).end()
    }
    pub fn object(&self) -> String {
        self.fields(J(String::from("{\"_\":0"))).end()
    }
}
