//! Answers from the library, for comparison with what the CLI does.
//!
//! One request per line:
//!   c F G W0 W1 W2 AW WIDTH HEIGHT HEX     compress RGBA pixels
//!   d F WIDTH HEIGHT HEX                   decompress
//!   s F WIDTH HEIGHT HEX                   the same, not by the library
//!   j PATH                                 decode a JPEG: kind (L or R), width, height, samples
//! and one answer per line, in hexadecimal, or "none".

use crate::codec::{algorithm, format, guard};
use jpeg_decoder::{Decoder, PixelFormat};
use texpresso::Params;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn hex(v: &[u8]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(2 * v.len());
    for b in v {
        write!(s, "{:02x}", b).unwrap();
    }
    s
}

fn compress(f: u8, g: u8, w: [f32; 3], aw: u8, width: usize, height: usize, px: &[u8]) -> Option<Vec<u8>> {
    let bs = if f == 1 || f == 4 { 8 } else { 16 };
    let mut out = vec![0u8; ((width + 3) / 4) * ((height + 3) / 4) * bs];
    let p = Params { algorithm: algorithm(g), weights: w, weigh_colour_by_alpha: aw != 0 };
    guard(|| format(f).compress(px, width, height, p, &mut out))?;
    Some(out)
}

fn decompress(f: u8, width: usize, height: usize, data: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![0u8; 4 * width * height];
    guard(|| format(f).decompress(data, width, height, &mut out))?;
    Some(out)
}

fn shown(f: u8, width: usize, height: usize, data: &[u8]) -> Vec<u8> {
    let mut out = vec![0u8; 4 * width * height];
    let (bs, bw) = (if f == 1 || f == 4 { 8 } else { 16 }, (width + 3) / 4);
    for (n, b) in data.chunks_exact(bs).take(bw * ((height + 3) / 4)).enumerate() {
        let d = crate::screen::decode(f, b);
        for i in 0..16 {
            let (x, y) = (4 * (n % bw) + i % 4, 4 * (n / bw) + i / 4);
            if x < width && y < height {
                out[4 * (y * width + x)..][..4].copy_from_slice(&d[4 * i..4 * i + 4]);
            }
        }
    }
    out
}

fn jpeg(path: &str) -> Option<String> {
    let mut d = Decoder::new(std::fs::File::open(path).ok()?);
    let data = d.decode().ok()?;
    let i = d.info()?;
    let k = match i.pixel_format {
        PixelFormat::L8 => "L",
        PixelFormat::RGB24 => "R",
        _ => return None,
    };
    Some(format!("{} {} {} {}", k, i.width, i.height, hex(&data)))
}

pub fn answer(requests: &str, out: &str) {
    let text = std::fs::read_to_string(requests).expect("requests");
    let mut all = String::new();
    for line in text.lines() {
        let t: Vec<&str> = line.split(' ').collect();
        let n = |i: usize| t[i].parse::<usize>().unwrap();
        let last = t.last().unwrap();
        let a = match t[0] {
            "c" => {
                let w = [3, 4, 5].map(|i| t[i].parse::<f32>().unwrap());
                compress(n(1) as u8, n(2) as u8, w, n(6) as u8, n(7), n(8), &unhex(last)).map(|v| hex(&v))
            }
            "d" => decompress(n(1) as u8, n(2), n(3), &unhex(last)).map(|v| hex(&v)),
            "s" => Some(hex(&shown(n(1) as u8, n(2), n(3), &unhex(last)))),
            _ => jpeg(&line[2..]),
        };
        all.push_str(&a.unwrap_or_else(|| "none".into()));
        all.push('\n');
    }
    std::fs::write(out, all).unwrap();
}
