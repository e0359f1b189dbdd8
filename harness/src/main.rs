//! Runs the library under test and records what it does, for TLC to judge.

mod codec;
mod gen;
mod images;
mod props;
mod refs;
mod rng;
mod screen;

use codec::J;
use props::{Item, Rec};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Duration;

pub struct Recorder {
    out: BufWriter<File>,
    pub lines: u64,
}

impl Recorder {
    pub fn new(path: &str) -> Recorder {
        Recorder { out: BufWriter::new(File::create(path).expect("trace")), lines: 0 }
    }
    pub fn put(&mut self, s: &str) {
        self.out.write_all(s.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
        self.lines += 1;
    }
    pub fn done(mut self) -> u64 {
        self.out.flush().unwrap();
        self.lines
    }
}

/// how many cases to run, to sample at random, and to keep as closest to their obligation
fn plan(prop: &str, thorough: bool) -> (u64, u64, usize) {
    let (n, sample, top) = match prop {
        "C01" => (4_000_000, 4000, 50),
        "C05" => (1_000_000, 2500, 200),
        "C06" => (1_000_000, 2500, 200),
        "C07" => (4_000_000, 1500, 600),
        "C08" => (150_000, 500, 50),
        "C09" => (2_000_000, 2000, 200),
        "C10" => (2_000_000, 1500, 800),
        "C11" => (4_000_000, 1200, 800),
        "C12" => (250_000, 220, 160),
        "C13" => (250_000, 700, 400),
        "C14" => (1_200_000, 2500, 100),
        "C15" => (150_000, 700, 50),
        "C22" => (1_000_000, 2000, 100),
        "C23" => (150_000, 700, 400),
        "C24" => (1_500_000, 2500, 100),
        "C21" => (1_200_000, 1500, 50),
        _ => (0, 0, 0),
    };
    if thorough {
        (n * 24, sample * 6, top * 6)
    } else {
        // mutation testing screens with fewer cases first
        let scale: f64 = std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        if std::env::var("HARNESS_BRIEF").is_ok() {
            return (n / 2, sample / 10, top / 10);
        }
        (((n * 3) as f64 * scale) as u64, sample, top)
    }
}

#[repr(align(128))]
struct Slot {
    idx: AtomicU64,
}

fn sweep(prop: &str, seed: u64, thorough: bool, out: &str) {
    let (n, sample, top) = plan(prop, thorough);
    // mutation testing's first look leaves the finite families out
    let all = n + if std::env::var("HARNESS_SCALE").is_ok() || std::env::var("HARNESS_BRIEF").is_ok() { 0 } else { props::family(prop) };
    let threads = 8u64;
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot { idx: AtomicU64::new(u64::MAX) })
        .collect();
    let kept: Mutex<Vec<(f64, u64, Item)>> = Mutex::new(vec![]);
    let total = AtomicU64::new(0);
    let left = AtomicU64::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (slots, kept, total, left) = (&slots, &kept, &total, &left);
            s.spawn(move || {
                let mut mine: Vec<(f64, u64, Item)> = vec![];
                let mut ranked: Vec<(f64, u64, Item)> = vec![];
                let mut broken = 0;
                let room = 2 * top / threads as usize + 8;
                let mut idx = t;
                let mut calls = 0;
                while idx < all && broken < 200 {
                    let at = if idx < n { idx } else { props::FAMILY + idx - n };
                    slots[t as usize].idx.store(at, Relaxed);
                    for it in props::items(prop, seed, at) {
                        calls += 1;
                        if it.bad > 0.0 {
                            broken += 1;
                            if broken < 30 {
                                mine.push((it.bad, idx, it));
                            }
                        } else if idx < sample {
                            mine.push((it.bad, idx, it));
                        } else if it.bad > props_floor() {
                            ranked.push((it.bad, idx, it));
                            if ranked.len() > 4 * room {
                                ranked.sort_by(|a, b| b.0.total_cmp(&a.0));
                                ranked.truncate(room);
                            }
                        }
                    }
                    idx += threads;
                }
                slots[t as usize].idx.store(u64::MAX, Relaxed);
                ranked.sort_by(|a, b| b.0.total_cmp(&a.0));
                ranked.truncate(room);
                mine.extend(ranked);
                kept.lock().unwrap().extend(mine);
                total.fetch_add(calls, Relaxed);
                left.fetch_sub(1, Relaxed);
            });
        }
        // a case that never returns is recorded as such
        let (slots, left) = (&slots, &left);
        s.spawn(move || {
            let mut looks = vec![(u64::MAX, 0); slots.len()];
            while left.load(Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for (slot, look) in slots.iter().zip(looks.iter_mut()) {
                    let idx = slot.idx.load(Relaxed);
                    *look = if idx == u64::MAX || idx != look.0 { (idx, 0) } else { (idx, look.1 + 1) };
                    if look.1 > 1500 {
                        let mut r = Recorder::new(out);
                        r.put(&J::new("done").n("p", 2).n("x", 0).s("prop", prop).n("seed", seed as i64).n("idx", idx as i64).end());
                        stats(out, prop, idx, r.done(), 0, &[]);
                        std::process::exit(0);
                    }
                }
            }
        });
    });
    let mut kept = kept.into_inner().unwrap();
    // violations first, then the samples, then the closest calls
    kept.sort_by(|a, b| (b.0 > 0.0).cmp(&(a.0 > 0.0)).then(a.1.cmp(&b.1)));
    let (mut near, rest): (Vec<_>, Vec<_>) = kept.into_iter().partition(|k| k.0 <= 0.0 && k.1 >= sample);
    near.sort_by(|a, b| b.0.total_cmp(&a.0));
    near.truncate(top);
    let mut r = Recorder::new(out);
    let suspects = rest.iter().filter(|k| k.0 > 0.0).count() as u64;
    let mut shown = vec![];
    for (n, k) in rest.iter().chain(near.iter()).enumerate() {
        let j = k.2.json();
        if n < 2 {
            shown.push(j.clone());
        }
        r.put(&j);
    }
    // a library that cannot even do these is in the records already
    for c in std::panic::catch_unwind(|| props::canaries(prop)).unwrap_or_default() {
        r.put(&c);
    }
    stats(out, prop, total.load(Relaxed), r.done(), suspects, &shown);
}

fn props_floor() -> f64 {
    screen::OK / 2.0
}

pub fn stats(out: &str, prop: &str, executed: u64, lines: u64, suspects: u64, shown: &[String]) {
    let s = J::new("stats")
        .s("prop", prop)
        .n("executed", executed as i64)
        .n("recorded", lines as i64)
        .n("suspects", suspects as i64)
        .raw("shown", &format!("[{}]", shown.join(",")))
        .end();
    std::fs::write(format!("{}.stats", out), s).unwrap();
}

/// a call that never returns, in any command, ends the run with a record saying so
fn watch() {
    // counted in looks, not in time: the machine may be stopped for a while
    let (mut last, mut looks) = (0, 0);
    loop {
        std::thread::sleep(Duration::from_millis(200));
        let (busy, beat) = codec::pulse();
        looks += 1;
        if beat != last || busy == 0 {
            last = beat;
            looks = 0;
        } else if looks > 450 {
            let out = arg(5);
            let mut r = Recorder::new(&out);
            r.put(&J::new("done").n("p", 2).n("x", 0).s("prop", &arg(2)).n("seed", 0).n("idx", 0).end());
            stats(&out, &arg(2), beat / 2, r.done(), 0, &[]);
            std::process::exit(0);
        }
    }
}

fn arg(n: usize) -> String {
    std::env::args().nth(n).unwrap_or_else(|| panic!("argument {} missing", n))
}

fn main() {
    if std::env::var("HARNESS_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    std::thread::spawn(watch);
    let r = std::panic::catch_unwind(|| match arg(1).as_str() {
        // gen PROP SEED TIER OUT
        "gen" => sweep(&arg(2), arg(3).parse().unwrap(), arg(4) == "thorough", &arg(5)),
        "images" => images::record(&arg(2), arg(3).parse().unwrap(), arg(4) == "thorough", &arg(5)),
        "uniform" => images::uniform(&arg(2), &arg(5)),
        // ref REQUESTS x x OUT
        "ref" => refs::answer(&arg(2), &arg(5)),
        "ramps" => images::ramps(&arg(2), &arg(5)),
        // one PROP SEED IDX OUT
        "one" => {
            let mut r = Recorder::new(&arg(5));
            for it in props::items(&arg(2), arg(3).parse().unwrap(), arg(4).parse().unwrap()) {
                r.put(&it.json());
            }
            r.done();
        }
        x => panic!("unknown command {}", x),
    });
    if r.is_err() {
        eprintln!("harness failed");
        std::process::exit(3);
    }
    let _ = Rec::Raw(String::new());
}
