"""Planted bugs: written from a property's statement and the code."""
L = "lib/src/"
BUGS = []


def bug(id, edits, needs, breaks, rs=None, py=None, **kw):
    b = dict(id=id, property=id[:3], edits=edits, needs=needs, what_it_breaks=breaks, **kw)
    if rs:
        b["rs"] = rs
    if py:
        b["py"] = py
    BUGS.append(b)


bug("C01-equal-ends", [(L + "alpha.rs", "    if alpha0 <= alpha1 {\n        // use 5-alpha codebook",
                        "    if alpha0 < alpha1 {\n        // use 5-alpha codebook")],
    "an interpolated block whose endpoints are equal and that uses index 6 or 7",
    "equal endpoints select the eight-value ramp, so indices 6 and 7 decode to the endpoint and not to 0 and 255",
    rs='''
fn main() {
    let d = texpresso::Format::Bc4.decompress_block(&[77, 77, 0b11_110_000, 0, 0, 0, 0, 0]);
    let v: Vec<u8> = d.iter().map(|p| p[0]).collect();
    // indices 0, 6, 3, 0 ...
    assert_eq!(&v[..4], &[77, 0, 77, 77]);
}
''')

bug("C02-partial-row", [(L + "lib.rs", "if sx < width && (4 * y + sy) < height {",
                         "if sx < width && 4 * (sx + sy * width) < output_row.len() {")],
    "a height that is no multiple of four together with an output buffer larger than the image",
    "texels of the bottom blocks below the image are written into the excess output",
    rs='''
fn main() {
    let f = texpresso::Format::Bc4;
    let data = [9u8; 16];
    let mut out = vec![0xEE; 4 * 5 * 3 + 40];
    f.decompress(&data, 5, 3, &mut out);
    assert!(out[60..].iter().all(|&x| x == 0xEE));
    assert!(out[..60].chunks(4).all(|p| p == [9, 9, 9, 255]));
}
''')

bug("C03-clamped-row", [
    (L + "lib.rs", "                        // enable pixel if within bounds\n                        if sx < width && sy < height {",
     "                        // blocks entirely left of the edge have no missing columns\n"
     "                        let sy = if 4 * x + 4 <= width { sy.min(height - 1) } else { sy };\n"
     "                        if sx < width && sy < height {")],
    "an image at least four pixels wide whose height is no multiple of four",
    "bottom blocks repeat the last row with the mask claiming those pixels are valid",
    rs='''
use texpresso::*;
fn main() {
    let (w, h) = (4, 3);
    let px: Vec<u8> = (0..w * h * 4).map(|i| (i * 37 % 251) as u8).collect();
    let mut block = [[0u8; 4]; 16];
    for i in 0..w * h {
        block[i].copy_from_slice(&px[4 * i..4 * i + 4]);
    }
    for f in [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5] {
        let n = f.block_size();
        let (mut a, mut b) = (vec![0; n], vec![0; n]);
        f.compress(&px, w, h, Params::default(), &mut a);
        f.compress_block_masked(block, 0x0fff, Params::default(), &mut b);
        assert_eq!(a, b);
    }
}
''')

bug("C04-warm-start", [
    (L + "colourfit/cluster.rs", "const MAX_ITERATIONS: usize = 8;",
     "const MAX_ITERATIONS: usize = 8;\n\n"
     "/// Axis of the last fit, neighbouring blocks tend to share it\n"
     "static LAST_AXIS: [core::sync::atomic::AtomicU32; 3] = [\n"
     "    core::sync::atomic::AtomicU32::new(0),\n    core::sync::atomic::AtomicU32::new(0),\n    core::sync::atomic::AtomicU32::new(0),\n];"),
    (L + "colourfit/cluster.rs", "        fit.principle = covariance.principle_component();\n",
     "        fit.principle = covariance.principle_component();\n"
     "        use core::sync::atomic::Ordering::Relaxed;\n"
     "        let last = Vec3::new(\n            f32::from_bits(LAST_AXIS[0].load(Relaxed)),\n            f32::from_bits(LAST_AXIS[1].load(Relaxed)),\n            f32::from_bits(LAST_AXIS[2].load(Relaxed)),\n        );\n"
     "        // stick to the neighbour's axis if it is nearly the same\n"
     "        let (p, l) = (fit.principle, last);\n"
     "        if p.dot(&l) > 0.98 * libm::sqrtf(p.dot(&p) * l.dot(&l)) {\n            fit.principle = last;\n        }\n"
     "        LAST_AXIS[0].store(fit.principle.x().to_bits(), Relaxed);\n"
     "        LAST_AXIS[1].store(fit.principle.y().to_bits(), Relaxed);\n"
     "        LAST_AXIS[2].store(fit.principle.z().to_bits(), Relaxed);\n")],
    "cluster fit on a block after one with a similar but different principal axis",
    "the axis of the previous block is reused, so the result depends on what was compressed before",
    rs='''
use texpresso::*;
fn block(seed: u32) -> [[u8; 4]; 16] {
    let mut s = seed;
    let mut b = [[255u8; 4]; 16];
    for (i, p) in b.iter_mut().enumerate() {
        for k in 0..3 {
            s = s.wrapping_mul(1664525).wrapping_add(1013904223);
            let slope = 3 + (seed >> (2 * k)) % 4;
            p[k] = (40 + i as u32 * slope + (s >> 24) % 30) as u8;
        }
    }
    b
}
fn one(b: [[u8; 4]; 16]) -> [u8; 8] {
    let mut o = [0; 8];
    Format::Bc1.compress_block_masked(b, 0xffff, Params::default(), &mut o);
    o
}
fn main() {
    let first: Vec<_> = (0..400).map(|n| one(block(n))).collect();
    let again: Vec<_> = (0..400).rev().map(|n| one(block(n))).collect();
    assert!(first.iter().eq(again.iter().rev()));
}
''')

bug("C05-shared-colour", [
    (L + "colourset.rs", "                    && (rgba[i][2] == rgba[j][2])\n                    && (format != Format::Bc1 || rgba[j][3] >= 128u8);",
     "                    && (rgba[i][2] == rgba[j][2]);"),
    (L + "colourset.rs", "                    set.weights[index as usize] += if alpha_weighted { w } else { 1f32 };",
     "                    if let Some(weight) = set.weights.get_mut(index as usize) {\n"
     "                        *weight += if alpha_weighted { w } else { 1f32 };\n                    }")],
    "a BC1 block in which an opaque pixel has the same RGB as a transparent one before it",
    "the opaque pixel is taken for a duplicate of the transparent one and becomes transparent",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[10, 20, 30, 255]; 16];
    b[0] = [200, 100, 50, 0];
    b[9] = [200, 100, 50, 255];
    let mut o = [0; 8];
    Format::Bc1.compress_block_masked(b, 0xffff, Params::default(), &mut o);
    let d = Format::Bc1.decompress_block(&o);
    for i in 0..16 {
        assert_eq!(d[i][3], if i == 0 { 0 } else { 255 });
    }
}
''')

bug("C06-seven", [
    (L + "alpha.rs", "        let alpha1 = f32::from(rgba[2 * i][3]) * (15.0 / 255.0);\n        let alpha2 = f32::from(rgba[2 * i + 1][3]) * (15.0 / 255.0);\n"
     "        let mut quant1 = f32_to_i32_clamped(alpha1, 15) as u8;\n        let mut quant2 = f32_to_i32_clamped(alpha2, 15) as u8;\n",
     "        let mut quant1 = ((u16::from(rgba[2 * i][3]) + 7) / 17) as u8;\n        let mut quant2 = ((u16::from(rgba[2 * i + 1][3]) + 8) / 17) as u8;\n"),
    (L + "alpha.rs", "use crate::math::f32_to_i32_clamped;\n", "")],
    "an alpha of 9 above a multiple of 17 at an even pixel",
    "such an alpha is rounded down although the level above is nearer",
    rs='''
use texpresso::*;
fn main() {
    for a in 0..=255u8 {
        let mut o = [0; 16];
        Format::Bc2.compress_block_masked([[1, 2, 3, a]; 16], 0xffff, Params::default(), &mut o);
        for p in Format::Bc2.decompress_block(&o) {
            assert!((i32::from(p[3]) - i32::from(a)).abs() <= 8, "{} {}", a, p[3]);
        }
    }
}
''')

bug("C07-good-enough", [
    (L + "alpha.rs", "                least = dist;\n                index = j as u8;\n            }\n",
     "                least = dist;\n                index = j as u8;\n            }\n\n            // can't get much better than this\n            if dist <= 1 {\n                break;\n            }\n")],
    "a ramp whose entries are one level apart",
    "the search stops at a value one off although a later one is exact",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[100, 0, 0, 255]; 16];
    for (i, p) in b.iter_mut().enumerate() {
        p[0] = 100 + (i % 8) as u8;
    }
    let mut o = [0; 8];
    Format::Bc4.compress_block_masked(b, 0xffff, Params::default(), &mut o);
    let d = Format::Bc4.decompress_block(&o);
    for i in 0..16 {
        assert_eq!(d[i][0], b[i][0]);
    }
}
''')

bug("C08-first-pixel", [
    (L + "alpha.rs", "    let mut min7 = u8::MAX;\n    let mut max7 = 0u8;\n",
     "    let mut min7 = rgba[0][channel];\n    let mut max7 = rgba[0][channel];\n")],
    "a block mask without pixel 0, whose value lies outside the range of the valid ones",
    "a pixel outside the mask widens the ramp",
    rs='''
use texpresso::*;
fn main() {
    let mut r = vec![];
    for v in [0, 90, 255] {
        let mut b = [[0, 0, 0, 255]; 16];
        for (i, p) in b.iter_mut().enumerate() {
            p[0] = 80 + 3 * i as u8;
        }
        b[0][0] = v;
        let mut o = [0; 8];
        Format::Bc4.compress_block_masked(b, 0xfffe, Params::default(), &mut o);
        r.push(o);
    }
    assert!(r[0] == r[1] && r[1] == r[2]);
}
''')

bug("C09-lut-entry", [
    (L + "colourfit/single_lut.rs", "    entry!(34, 0, 0, 16, 52, 0),\n    entry!(34, 0, 1, 6, 63, 0),\n    entry!(34, 0, 2, 16, 53, 0),\n    entry!(35, 0, 1, 7, 63, 0),",
     "    entry!(34, 0, 0, 16, 52, 0),\n    entry!(34, 0, 1, 6, 62, 0),\n    entry!(34, 0, 2, 16, 53, 0),\n    entry!(35, 0, 1, 7, 63, 0),")],
    "a block of one colour whose green is one particular value, encoded in three-colour mode",
    "the table's endpoints for that value miss it",
    rs='''
use texpresso::*;
fn main() {
    for g in 0..=255u8 {
        // a transparent pixel keeps BC1 in three-colour mode
        let mut b = [[0, g, 0, 255]; 16];
        b[3] = [0, 0, 0, 0];
        let mut o = [0; 8];
        Format::Bc1.compress_block_masked(b, 0xffff, Params::default(), &mut o);
        let d = Format::Bc1.decompress_block(&o);
        let mut best = 255;
        for s in 0..64i32 {
            for e in 0..64i32 {
                let (s, e) = (4 * s + s / 16, 4 * e + e / 16);
                best = best.min((s - i32::from(g)).abs()).min(((s + e) / 2 - i32::from(g)).abs());
            }
        }
        assert_eq!((i32::from(d[0][1]) - i32::from(g)).abs(), best, "{}", g);
    }
}
''')

bug("C10-same-level", [
    (L + "colourset.rs", "                    && (rgba[i][2] == rgba[j][2])\n",
     "                    // blues that share a 5-bit level and saturation end up the same\n"
     "                    && (rgba[i][2] >> 5 == rgba[j][2] >> 5)\n")],
    "two colours that differ in blue only, and by less than 32",
    "the two are merged although 5 bits keep them apart",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 64, 255]; 16];
    for i in 8..16 {
        b[i][2] = 95;
    }
    for algorithm in [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit] {
        let mut o = [0; 8];
        let p = Params { algorithm, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: false };
        Format::Bc1.compress_block_masked(b, 0xffff, p, &mut o);
        let d = Format::Bc1.decompress_block(&o);
        for i in 0..16 {
            assert!((i32::from(d[i][2]) - i32::from(b[i][2])).abs() < 12);
        }
    }
}
''')

bug("C11-unweighted", [
    (L + "colourfit/range.rs", "                let d = (self.weights * (values[i] - code)).length2();\n                if d < dist {\n                    dist = d;",
     "                let delta = values[i] - code;\n                let d = delta.length2();\n                if d < dist {\n                    dist = d;"),
    (L + "colourfit/range.rs", "            // accumulate the error\n            error += dist;",
     "            // accumulate the error, weighing the channels once per point\n            error += (self.weights * (values[i] - codes[idx])).length2();")],
    "range fit with weights that are not all equal",
    "entries are chosen by the unweighted distance",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for i in 8..15 {
        b[i] = [255, 255, 255, 255];
    }
    b[15] = [255, 100, 255, 255]; // nearest in green: a third along
    let mut o = [0; 16];
    let p = Params { algorithm: Algorithm::RangeFit, weights: [0.01, 1.0, 0.01], weigh_colour_by_alpha: false };
    Format::Bc3.compress_block_masked(b, 0xffff, p, &mut o);
    let d = Format::Bc3.decompress_block(&o);
    assert!((i32::from(d[15][1]) - 100).abs() < 25, "{:?}", d[15]);
}
''')

bug("C12-duplicate-alpha", [
    (L + "colourset.rs", "                    // ensure weight is always nonzero even when alpha is not\n                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 256f32;\n\n                    // map this point to its duplicate and increase the duplicate's weight\n                    set.weights[index as usize] += if alpha_weighted { w } else { 1f32 };\n",
     "                    // map this point to its duplicate and increase the duplicate's weight\n                    set.weights[index as usize] += 1f32;\n")],
    "weighing by alpha on a block in which some colours occur once and others several times, with low alpha",
    "repeated pixels count fully whatever their alpha, so single ones are neglected",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 0]; 16];
    for i in 4..8 {
        b[i] = [200, 0, 0, 0];
    }
    for i in 8..16 {
        b[i] = [90 + i as u8, 200, 5 * i as u8, 0];
    }
    // all alphas are equal, so weighing by them must leave the single ones as visible as they were
    for algorithm in [Algorithm::ClusterFit, Algorithm::IterativeClusterFit] {
        let mut e = vec![];
        for weigh_colour_by_alpha in [false, true] {
            let p = Params { algorithm, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha };
            let mut o = [0; 16];
            Format::Bc3.compress_block_masked(b, 0xffff, p, &mut o);
            e.push((i32::from(Format::Bc3.decompress_block(&o)[15][1]) - 200).abs());
        }
        assert!(e[1] <= e[0] + 8, "{:?}", e);
    }
}
''')

bug("C13-first-order", [
    (L + "colourfit/cluster.rs", "            let order = self.order[best_iteration];\n\n            let mut unordered = [0u8; 16];\n            for m in best_i..best_j {\n                unordered[order[m] as usize] = 2;\n            }\n            for m in best_j..count {\n                unordered[order[m] as usize] = 3;",
     "            let order = self.order[best_iteration.min(1)];\n\n            let mut unordered = [0u8; 16];\n            for m in best_i..best_j {\n                unordered[order[m] as usize] = 2;\n            }\n            for m in best_j..count {\n                unordered[order[m] as usize] = 3;")],
    "iterative four-colour cluster fit on a block whose best ordering is the third or later",
    "the endpoints of that ordering are written with the indices of the second",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 1u32;
    for _ in 0..6000 {
        let mut b = [[255u8; 4]; 16];
        for p in b.iter_mut() {
            for k in 0..3 {
                s = s.wrapping_mul(1664525).wrapping_add(1013904223);
                p[k] = (s >> 24) as u8;
            }
        }
        let err = |algorithm| {
            let p = Params { algorithm, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: false };
            let mut o = [0; 16];
            Format::Bc3.compress_block_masked(b, 0xffff, p, &mut o);
            let d = Format::Bc3.decompress_block(&o);
            let mut e = 0;
            for i in 0..16 {
                for k in 0..3 {
                    e += (i32::from(d[i][k]) - i32::from(b[i][k])).pow(2);
                }
            }
            f64::from(e).sqrt()
        };
        assert!(err(Algorithm::IterativeClusterFit) <= err(Algorithm::ClusterFit) + 12.0);
    }
}
''')

bug("C14-equal-ends", [
    (L + "colourblock.rs", "    } else if a > b {\n        // use indices as-is\n        remapped = *indices;\n    }\n    // if a == b, use index 0 for everything, i.e. no need to do anything\n",
     "    } else {\n        // use indices as-is\n        remapped = *indices;\n    }\n")],
    "a block of several colours whose endpoints become equal when rounded to 5:6:5",
    "index 3 is written with equal endpoints, where BC1's rule makes it transparent black",
    rs='''
use texpresso::*;
fn main() {
    for k in 0..31u8 {
        let (v, g) = (8 * k + k / 4, 8 * k + k / 8);
        for f in [Format::Bc1, Format::Bc2] {
            for algorithm in [Algorithm::RangeFit, Algorithm::ClusterFit] {
                let mut b = [[v, g, v, 255]; 16];
                b[5][2] += 1;
                let mut o = [0; 16];
                let p = Params { algorithm, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: false };
                f.compress_block_masked(b, 0xffff, p, &mut o);
                let half = if f == Format::Bc1 { &o[..8] } else { &o[8..] };
                let d = Format::Bc1.decompress_block(half);
                assert!(d.iter().all(|p| p[3] == 255));
            }
        }
    }
}
''')

bug("C15-epsilon", [
    (L + "colourfit/cluster.rs", "                        let error = e5.splat_x() + e5.splat_y() + e5.splat_z();\n\n                        // keep the solution if it wins\n                        if error.any_less_than(&best_error) {",
     "                        let error = e5.splat_x() + e5.splat_y() + e5.splat_z();\n\n                        // keep the solution if it wins by more than rounding noise\n"
     "                        let noise = Vec4::new(1e-5, 1e-5, 1e-5, 1e-5);\n                        if (error + noise).any_less_than(&best_error) {")],
    "cluster fit with small weights, and two solutions whose weighted errors nearly agree",
    "the tolerance is absolute while the error scales with the weights",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 7u32;
    for _ in 0..2000 {
        let mut b = [[255u8; 4]; 16];
        for p in b.iter_mut() {
            for k in 0..3 {
                s = s.wrapping_mul(1664525).wrapping_add(1013904223);
                p[k] = 100 + (s >> 27) as u8;
            }
        }
        let f = |scale: f32| {
            let p = Params { algorithm: Algorithm::ClusterFit, weights: [scale, 2.0 * scale, scale], weigh_colour_by_alpha: false };
            let mut o = [0; 8];
            Format::Bc1.compress_block_masked(b, 0xffff, p, &mut o);
            o
        };
        assert_eq!(f(1.0), f(1.0 / 64.0));
        assert_eq!(f(1.0), f(64.0));
    }
}
''')

bug("C16-no-assert", [
    (L + "lib.rs", "        assert!(output.len() >= self.compressed_size(width, height));\n",
     "        assert!(output.len() >= num_blocks(height) * self.block_size());\n")],
    "an output buffer shorter than the compressed size but not than one column of blocks",
    "too short an output is filled in part instead of being refused",
    rs='''
use texpresso::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let px = vec![200u8; 4 * 9 * 9];
    let mut out = vec![0xEE; 71];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        Format::Bc1.compress(&px, 9, 9, Params::default(), &mut out);
    }));
    assert!(r.is_err());
    assert!(out.iter().all(|&x| x == 0xEE));
}
''')

bug("C17-dotted-name", [
    ("cli/src/main.rs", "        PathBuf::new()\n            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new(\"output\")))\n            .with_extension(\"dds\")\n",
     "        let stem = infile.file_stem().unwrap_or_else(|| OsStr::new(\"output\"));\n        PathBuf::from(stem).with_extension(\"dds\")\n")],
    "an input whose name has a second dot, and no -o",
    "everything after the first dot is dropped from the output's name",
    py='''
import os, struct, subprocess, sys, tempfile, zlib
def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
png = (b"\\x89PNG\\r\\n\\x1a\\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 2, 1, 8, 2, 0, 0, 0))
       + chunk(b"IDAT", zlib.compress(b"\\0" + bytes(range(6)))) + chunk(b"IEND", b""))
with tempfile.TemporaryDirectory() as t:
    open(os.path.join(t, "a.normal.png"), "wb").write(png)
    r = subprocess.run([sys.argv[1], "compress", "-f", "bc1", "a.normal.png"], cwd=t)
    assert r.returncode == 0
    assert os.path.exists(os.path.join(t, "a.normal.dds")), os.listdir(t)
''')

bug("C18-trailing", [
    ("cli/src/main.rs", "    format.decompress(&dds.data, width, height, &mut decompressed);",
     "    // the largest mipmap's surface\n    let size = format.compressed_size(width, height);\n    let surface = dds.data.rchunks(size).next().expect(\"No image data\");\n"
     "    format.decompress(surface, width, height, &mut decompressed);")],
    "a DDS with data after the first image, such as mipmaps",
    "the last bytes of the file are decoded, not the first",
    py='''
import os, struct, subprocess, sys, tempfile, zlib
def dds(w, h, fourcc, data):
    return (b"DDS " + struct.pack("<7I44x", 124, 0x1007, h, w, 0, 0, 0) + struct.pack("<2I4s5I", 32, 4, fourcc, 0, 0, 0, 0, 0)
            + struct.pack("<5I", 0x1000, 0, 0, 0, 0) + data)
red, blue = struct.pack("<HHI", 0xF800, 0, 0), struct.pack("<HHI", 0x001F, 0, 0)
with tempfile.TemporaryDirectory() as t:
    open(os.path.join(t, "a.dds"), "wb").write(dds(4, 4, b"DXT1", red + blue))
    r = subprocess.run([sys.argv[1], "decompress", "a.dds"], cwd=t)
    assert r.returncode == 0
    p = open(os.path.join(t, "a.png"), "rb").read()
    i, idat = 8, b""
    while i < len(p):
        n = struct.unpack(">I", p[i:i + 4])[0]
        if p[i + 4:i + 8] == b"IDAT":
            idat += p[i + 8:i + 8 + n]
        i += n + 12
    raw = zlib.decompress(idat)
    # the first pixel of the first row is the same under every filter
    assert raw[1:5] == b"\\xff\\0\\0\\xff", raw[:9]
''')

bug("C19-alpha-of-grey", [
    ("cli/src/image/png.rs", "            .chunks(2)\n            .flat_map(|rg| vec![rg[0], rg[0], rg[0], rg[1]])",
     "            .chunks(2)\n            .flat_map(|rg| match reader.info().trns {\n"
     "                // colour keyed\n                Some(_) if rg[1] == 0 => vec![0; 4],\n"
     "                _ => vec![rg[0], rg[0], rg[0], rg[1]],\n            })")],
    "a grey PNG with a transparent colour (tRNS)",
    "transparent grey pixels lose their colour",
    py='''
import os, struct, subprocess, sys, tempfile, zlib
def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
png = (b"\\x89PNG\\r\\n\\x1a\\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 4, 4, 8, 0, 0, 0, 0)) + chunk(b"tRNS", struct.pack(">H", 200))
       + chunk(b"IDAT", zlib.compress((b"\\0" + bytes([200] * 4)) * 4)) + chunk(b"IEND", b""))
with tempfile.TemporaryDirectory() as t:
    open(os.path.join(t, "a.png"), "wb").write(png)
    r = subprocess.run([sys.argv[1], "compress", "-f", "bc4", "a.png"], cwd=t)
    assert r.returncode == 0
    d = open(os.path.join(t, "a.dds"), "rb").read()[148:]
    e0, e1 = d[0], d[1]
    ramp = [e0, e1] + ([((7 - k) * e0 + k * e1) // 7 for k in range(1, 7)] if e0 > e1
                       else [((5 - k) * e0 + k * e1) // 5 for k in range(1, 5)] + [0, 255])
    assert ramp[d[2] & 7] == 200
''')

bug("C20-early-create", [
    ("cli/src/main.rs", "    let in_ext = infile\n        .extension()", "    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n    let in_ext = infile\n        .extension()"),
    ("cli/src/main.rs", "    dds.data = buf;\n\n    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n", "    dds.data = buf;\n")],
    "a compress command that fails after its arguments have been parsed, e.g. on a broken image",
    "the output file is created or truncated although the command fails",
    py='''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as t:
    open(os.path.join(t, "a.png"), "wb").write(b"no image")
    open(os.path.join(t, "a.dds"), "wb").write(b"precious")
    r = subprocess.run([sys.argv[1], "compress", "-f", "bc1", "a.png"], cwd=t, stderr=subprocess.DEVNULL)
    assert r.returncode != 0
    assert open(os.path.join(t, "a.dds"), "rb").read() == b"precious"
''')

bug("C21-empty-mask", [
    (L + "alpha.rs", "    if min7 > max7 {\n        min7 = max7;\n    }\n", "")],
    "an interpolated block with an empty mask",
    "the subtraction of the unset minimum from the unset maximum overflows",
    rs='''
use texpresso::*;
fn main() {
    for f in [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5] {
        f.compress_block_masked([[1, 2, 3, 4]; 16], 0, Params::default(), &mut vec![0; f.block_size()]);
    }
}
''')

# ---------------------------------------------------------------------------------------
# second round: rarer conditions

PNGPY = '''
import os, struct, subprocess, sys, tempfile, zlib
def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
def png(w, h, ct, rows, extra=b""):
    return (b"\\x89PNG\\r\\n\\x1a\\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, ct, 0, 0, 0)) + extra
            + chunk(b"IDAT", zlib.compress(b"".join(b"\\0" + r for r in rows))) + chunk(b"IEND", b""))
def dds(w, h, fourcc, data, mips=0):
    return (b"DDS " + struct.pack("<7I44x", 124, 0x1007 + (0x20000 if mips else 0), h, w, 0, 0, mips)
            + struct.pack("<2I4s5I", 32, 4, fourcc, 0, 0, 0, 0, 0)
            + struct.pack("<5I", 0x401008 if mips else 0x1000, 0, 0, 0, 0) + data)
def run(t, *a):
    return subprocess.run([sys.argv[1]] + list(a), cwd=t, stderr=subprocess.DEVNULL).returncode
def put(t, n, d):
    with open(os.path.join(t, n), "wb") as f:
        f.write(d)
def get(t, n):
    with open(os.path.join(t, n), "rb") as f:
        return f.read()
'''

bug("C01-solid", [
    (L + "colourblock.rs", "    // unpack LUT indices\n    let mut indices = [0u8; 16];\n    for i in 0..4 {\n",
     "    // equal endpoints leave nothing to look up\n    if a == b {\n        return [[codes[0], codes[1], codes[2], codes[3]]; 16];\n    }\n\n"
     "    // unpack LUT indices\n    let mut indices = [0u8; 16];\n    for i in 0..4 {\n")],
    "a BC1 block with equal endpoints that uses index 3",
    "its transparent texels are decoded as the endpoint",
    rs='''
fn main() {
    let d = texpresso::Format::Bc1.decompress_block(&[0x21, 0x43, 0x21, 0x43, 0, 0xff, 0, 0]);
    assert_eq!(d[4], [0, 0, 0, 0]);
    assert_eq!(d[0][3], 255);
}
''')

bug("C02-short-index", [
    (L + "lib.rs", "                let bidx = (x + y * blocks_wide) * block_size;\n                let rgba = self.decompress_block",
     "                let bidx = usize::from((x + y * blocks_wide) as u16) * block_size;\n                let rgba = self.decompress_block")],
    "an image of more than 65536 blocks",
    "block indices wrap, so the rest of the image repeats its beginning",
    rs='''
fn main() {
    let (w, h) = (4, 4 * 65540);
    let mut data = vec![0u8; 8 * 65540];
    for (n, b) in data.chunks_mut(8).enumerate() {
        b[0] = (n % 251) as u8;
        b[1] = b[0];
    }
    let mut out = vec![0u8; 4 * w * h];
    texpresso::Format::Bc4.decompress(&data, w, h, &mut out);
    for (n, p) in out.chunks(64).enumerate() {
        assert_eq!(p[0], (n % 251) as u8);
    }
}
''')

bug("C03-row-mask", [
    (L + "lib.rs", "            let mut source_rgba = [[0u8; 4]; 16];\n            let output_blocks = output_row.chunks_mut(block_size);\n",
     "            let mut source_rgba = [[0u8; 4]; 16];\n            let mut mask = 0u32;\n            let output_blocks = output_row.chunks_mut(block_size);\n"),
    (L + "lib.rs", "                // build the 4x4 block of pixels\n                let mut mask = 0u32;\n", "                // build the 4x4 block of pixels\n")],
    "an image wider than four pixels whose width is no multiple of four",
    "the last block of a row keeps the previous block's pixels and counts them as valid",
    rs='''
use texpresso::*;
fn main() {
    let (w, h) = (5, 4);
    let mut px = vec![255u8; 4 * w * h];
    for y in 0..h {
        for x in 0..w {
            px[4 * (y * w + x)] = if x < 4 { 10 } else { 200 };
        }
    }
    let mut out = [0; 16];
    Format::Bc4.compress(&px, w, h, Params::default(), &mut out);
    let mut block = [[0u8; 4]; 16];
    for y in 0..4 {
        block[4 * y] = [200, 255, 255, 255];
    }
    let mut one = [0; 8];
    Format::Bc4.compress_block_masked(block, 0x1111, Params::default(), &mut one);
    assert_eq!(out[8..], one);
}
''')

bug("C03-wide", [
    (L + "lib.rs", "                        let sx = 4 * x + px;\n                        let sy = 4 * y + py;\n",
     "                        let sx = usize::from(4 * x as u16) + px;\n                        let sy = 4 * y + py;\n")],
    "an image more than 65536 pixels wide",
    "columns past the 65536th are taken from the left",
    rs='''
use texpresso::*;
fn main() {
    let (w, h) = (65544, 1);
    let mut px = vec![255u8; 4 * w * h];
    px[4 * 65536] = 3;
    let f = Format::Bc4;
    let mut out = vec![0; f.compressed_size(w, h)];
    f.compress(&px, w, h, Params::default(), &mut out);
    let mut d = vec![0; 4 * w];
    f.decompress(&out, w, h, &mut d);
    assert_eq!(d[4 * 65536], 3);
}
''')

bug("C04-torn-cache", [
    (L + "colourfit/single.rs", "use super::ColourFitImpl;\n",
     "use super::ColourFitImpl;\n\nuse core::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};\n\n"
     "/// The colour fitted last and its encoding, flat areas fit it again and again\nstatic LAST_COLOUR: AtomicU32 = AtomicU32::new(u32::MAX);\nstatic LAST_BLOCK: AtomicU64 = AtomicU64::new(0);\n"),
    (L + "colourfit/single.rs", "        // build lookup table\n        let lut = [&LOOKUP_5_4, &LOOKUP_6_4, &LOOKUP_5_4];\n",
     "        let plain = !self.is_bc1() && self.colourset.weights()[0] == 4.0;\n        let p = self.colourset.points()[0] * 255.0;\n"
     "        let colour = f32_to_i32_clamped(p.x(), 255) << 16\n            | f32_to_i32_clamped(p.y(), 255) << 8\n            | f32_to_i32_clamped(p.z(), 255);\n"
     "        if plain && LAST_COLOUR.load(SeqCst) == colour as u32 {\n            self.best_compressed = LAST_BLOCK.load(SeqCst).to_le_bytes();\n            return;\n        }\n\n"
     "        // build lookup table\n        let lut = [&LOOKUP_5_4, &LOOKUP_6_4, &LOOKUP_5_4];\n"),
    (L + "colourfit/single.rs", "            colourblock::write4(&self.start, &self.end, &indices, &mut self.best_compressed);\n",
     "            colourblock::write4(&self.start, &self.end, &indices, &mut self.best_compressed);\n"
     "            if plain {\n                LAST_BLOCK.store(u64::from_le_bytes(self.best_compressed), SeqCst);\n                LAST_COLOUR.store(colour as u32, SeqCst);\n            }\n")],
    "BC2 or BC3 blocks of one colour compressed by several threads at a time",
    "a thread can find its colour in the cache but another thread's block",
    rs='''
use texpresso::*;
fn one(v: u8) -> [u8; 16] {
    let mut o = [0; 16];
    Format::Bc3.compress_block_masked([[v, 255 - v, v / 2, 255]; 16], 0xffff, Params::default(), &mut o);
    o
}
fn main() {
    let want: Vec<_> = (0..2).map(|v| one(100 * v + 20)).collect();
    std::thread::scope(|s| {
        for t in 0..8usize {
            let want = &want;
            s.spawn(move || {
                for n in 0..600_000usize {
                    let v = (n / 3 + t) % 2;
                    assert_eq!(one(100 * v as u8 + 20), want[v]);
                }
            });
        }
    });
}
''')

bug("C05-nothing-to-keep", [
    (L + "lib.rs", "                            // enable pixel\n                            mask |= 1 << index;\n",
     "                            // enable pixel, transparent black needs no encoding\n"
     "                            if self != Format::Bc1 || source_rgba[index] != [0; 4] {\n                                mask |= 1 << index;\n                            }\n")],
    "compressing an image (not a single block) with a block whose only transparent pixels are exactly (0, 0, 0, 0)",
    "the block is fitted as if it were opaque, so these pixels get an opaque colour",
    rs='''
use texpresso::*;
fn main() {
    let mut px = vec![];
    for i in 0..16u8 {
        px.extend_from_slice(&if i == 5 { [0, 0, 0, 0] } else { [17 * i, 250 - 13 * i, 9 * i, 255] });
    }
    let mut o = [0; 8];
    Format::Bc1.compress(&px, 4, 4, Params::default(), &mut o);
    let d = Format::Bc1.decompress_block(&o);
    for i in 0..16 {
        assert_eq!(d[i][3], if i == 5 { 0 } else { 255 });
    }
}
''')

bug("C06-pair-mask", [
    (L + "alpha.rs", "        let bit2 = 1 << (2 * i + 1);\n        if (mask & bit1) == 0 {\n            quant1 = 0;\n        }\n",
     "        let bit2 = 1 << (2 * i + 1);\n        // columns are masked from the right, so this masks the pair\n        if (mask & bit1) == 0 {\n            continue;\n        }\n"),
    (L + "alpha.rs", "        let mut quant1 = f32_to_i32_clamped(alpha1, 15) as u8;\n", "        let quant1 = f32_to_i32_clamped(alpha1, 15) as u8;\n")],
    "a mask in which an odd pixel is valid and the even one before it is not",
    "the odd pixel's alpha is dropped",
    rs='''
use texpresso::*;
fn main() {
    let mut o = [0; 16];
    Format::Bc2.compress_block_masked([[1, 2, 3, 255]; 16], 0x0008, Params::default(), &mut o);
    assert_eq!(Format::Bc2.decompress_block(&o)[3][3], 255);
}
''')

bug("C07-no-extremes", [
    (L + "alpha.rs", "    let err5 = fit_codes(rgba, channel, mask, codes5, &mut indices5);\n",
     "    // the other codebook is finer unless 0 or 255 occur\n    let err5 = if min7 == 0 || max7 == u8::MAX {\n        fit_codes(rgba, channel, mask, codes5, &mut indices5)\n    } else {\n        u32::MAX\n    };\n")],
    "values that fall on fifths of their range and not on sevenths, none of them 0 or 255",
    "the eight-value ramp is used although the six-value one is exact",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for (i, p) in b.iter_mut().enumerate() {
        p[0] = 50 + 30 * (i % 6) as u8;
    }
    let mut o = [0; 8];
    Format::Bc4.compress_block_masked(b, 0xffff, Params::default(), &mut o);
    let d = Format::Bc4.decompress_block(&o);
    for i in 0..16 {
        assert_eq!(d[i][0], b[i][0]);
    }
}
''')

bug("C08-count-ones", [
    (L + "alpha.rs", "    let mut err = 0;\n\n    // fit each alpha value to the codebook\n",
     "    let mut err = 0;\n    let mask = if mask.count_ones() == 16 { 0xFFFF } else { mask };\n\n    // fit each alpha value to the codebook\n")],
    "a mask with bits past the sixteenth set that has sixteen bits set in all",
    "pixels outside the mask take part in the choice of the codebook",
    rs='''
use texpresso::*;
fn main() {
    let mut r = vec![];
    for v in [0, 90, 255] {
        let mut b = [[0, 0, 0, 255]; 16];
        for (i, p) in b.iter_mut().enumerate() {
            p[0] = 80 + 7 * i as u8;
        }
        b[15][0] = v;
        let mut o = [0; 8];
        Format::Bc4.compress_block_masked(b, 0x1_7fff, Params::default(), &mut o);
        r.push(o);
    }
    assert!(r[0] == r[1] && r[1] == r[2]);
}
''')

bug("C08-invisible", [
    (L + "colourset.rs", "                    set.weights[set.count] = if alpha_weighted { w } else { 1f32 };",
     "                    // what can't be seen needn't be right\n                    let invisible = format == Format::Bc3 && rgba[i][3] == 0;\n"
     "                    set.weights[set.count] = if alpha_weighted || invisible { w } else { 1f32 };")],
    "a BC3 block with fully transparent pixels of their own colours",
    "alpha influences the colour block although colour is not weighed by alpha",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0; 4]; 16];
    for i in 0..16u8 {
        b[i as usize] = [16 * i, (i * i) ^ 9, 255 - 7 * i, if i < 6 { 0 } else { 255 }];
    }
    let (mut o, mut p) = ([0; 16], [0; 16]);
    Format::Bc2.compress_block_masked(b, 0xffff, Params::default(), &mut o);
    Format::Bc3.compress_block_masked(b, 0xffff, Params::default(), &mut p);
    assert_eq!(o[8..], p[8..]);
}
''')

bug("C09-threshold", [
    (L + "colourset.rs", "                    && (format != Format::Bc1 || rgba[j][3] >= 128u8);", "                    && (format != Format::Bc1 || rgba[j][3] > 128u8);")],
    "a BC1 block of one colour in which pixels have an alpha of exactly 128",
    "the colour is counted several times, so the block is not taken for one of a single colour",
    rs='''
use texpresso::*;
fn main() {
    let mut worse = 0;
    for v in 0..=255u8 {
        let mut e = vec![];
        for a in [128, 129] {
            let b = [[v, 255 - v, v / 3, a]; 16];
            let mut o = [0; 8];
            Format::Bc1.compress_block_masked(b, 0xffff, Params::default(), &mut o);
            let d = Format::Bc1.decompress_block(&o)[0];
            e.push((0..3).map(|k| (i32::from(d[k]) - i32::from(b[0][k])).pow(2)).sum::<i32>());
        }
        worse += (e[0] > e[1]) as i32;
    }
    assert_eq!(worse, 0);
}
''')

bug("C10-merge-565", [
    (L + "colourset.rs", "                    && (rgba[i][0] == rgba[j][0])\n                    && (rgba[i][1] == rgba[j][1])\n                    && (rgba[i][2] == rgba[j][2])\n",
     "                    // colours that 5:6:5 can't tell apart\n                    && (rgba[i][0] >> 3 == rgba[j][0] >> 3)\n                    && (rgba[i][1] >> 2 == rgba[j][1] >> 2)\n                    && (rgba[i][2] >> 3 == rgba[j][2] >> 3)\n")],
    "two colours whose channels agree in their top bits although they round to different levels",
    "the two are merged, so one of them moves by up to seven levels",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for i in 0..16 {
        b[i] = if i < 8 { [128, 64, 128, 255] } else { [135, 67, 135, 255] };
    }
    for algorithm in [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit] {
        let mut o = [0; 8];
        Format::Bc1.compress_block_masked(b, 0xffff, Params { algorithm, ..Params::default() }, &mut o);
        let d = Format::Bc1.decompress_block(&o);
        for k in [0, 2] {
            assert!((i32::from(d[15][k]) - 135).abs() <= 5, "{:?}", d[15]);
        }
    }
}
''')

bug("C11-last-colour", [
    (L + "colourfit/range.rs", "            for &val in values.iter().take(count).skip(1) {", "            for &val in values.iter().take(count.min(15)).skip(1) {")],
    "sixteen distinct colours of which the last is at an end of their range",
    "the last colour is not considered as an endpoint",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for i in 0..16 {
        b[i][1] = 8 * i as u8;
    }
    b[15][1] = 255;
    let mut o = [0; 8];
    Format::Bc1.compress_block_masked(b, 0xffff, Params { algorithm: Algorithm::RangeFit, ..Params::default() }, &mut o);
    assert_eq!(Format::Bc1.decompress_block(&o)[15][1], 255);
}
''')

bug("C12-sum-of-roots", [
    (L + "colourset.rs", "            *w = libm::sqrtf(*w);\n", "            *w = if alpha_weighted { *w } else { libm::sqrtf(*w) };\n"),
    (L + "colourset.rs", "                    set.weights[set.count] = if alpha_weighted { w } else { 1f32 };", "                    set.weights[set.count] = if alpha_weighted { libm::sqrtf(w) } else { 1f32 };"),
    (L + "colourset.rs", "                    set.weights[index as usize] += if alpha_weighted { w } else { 1f32 };", "                    set.weights[index as usize] += if alpha_weighted { libm::sqrtf(w) } else { 1f32 };")],
    "weighing by alpha on a block in which some colours repeat and others do not",
    "roots are taken before and not after adding up, so repeated colours weigh too much",
    rs='''
use texpresso::*;
fn main() {
    // colours that occur sixteen times as often weigh four times as much, alpha or not
    let mut worse = 0;
    for v in 0..200u8 {
        let mut b = [[40, 90, 40, 255]; 16];
        b[13] = [v, 200, 9, 255];
        b[14] = [255 - v, 10, v / 2, 255];
        b[15] = [77, v, 255, 255];
        let mut o = vec![];
        for weigh_colour_by_alpha in [false, true] {
            let mut x = [0; 16];
            Format::Bc3.compress_block_masked(b, 0xffff, Params { weigh_colour_by_alpha, ..Params::default() }, &mut x);
            o.push(x);
        }
        worse += (o[0] != o[1]) as i32;
    }
    assert_eq!(worse, 0);
}
''')

bug("C13-warm-axis", [
    (L + "colourfit/cluster.rs", "            // stop if we didn't improve in this iteration\n            if best_iteration != iteration_index {\n                break;\n            }\n\n            // compute new axis for next iteration\n            axis = (best_end - best_start).to_vec3();\n        }\n\n        // save the block if necessary\n        if best_error.any_less_than(&self.best_error) {\n            // remap indices\n            let order = self.order[best_iteration];\n\n            let mut unordered = [0u8; 16];\n            for m in best_i..best_j {\n                unordered[order[m] as usize] = 2;\n            }\n            for m in best_j..count {\n                unordered[order[m] as usize] = 1;\n",
     "            // stop if we didn't improve in this iteration\n            if best_iteration != iteration_index {\n                break;\n            }\n\n            // compute new axis for next iteration\n            axis = (best_end - best_start).to_vec3();\n        }\n\n        // four colours can start where three left off\n        if self.num_iterations > 1 {\n            self.principle = axis;\n        }\n\n        // save the block if necessary\n        if best_error.any_less_than(&self.best_error) {\n            // remap indices\n            let order = self.order[best_iteration];\n\n            let mut unordered = [0u8; 16];\n            for m in best_i..best_j {\n                unordered[order[m] as usize] = 2;\n            }\n            for m in best_j..count {\n                unordered[order[m] as usize] = 1;\n")],
    "iterative cluster fit on an opaque BC1 block whose best axis for three colours does not suit four",
    "the search with four colours does not start from the principal axis and may miss what plain cluster fit finds",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 1u32;
    let mut next = || {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        s >> 24
    };
    for n in 0..20000 {
        let mut b = [[255u8; 4]; 16];
        for p in b.iter_mut().take(3 + n % 14) {
            let (t, u) = (next(), next());
            *p = [t as u8, u as u8, next() as u8, 255];
        }
        let err = |algorithm| {
            let p = Params { algorithm, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: false };
            let mut o = [0; 8];
            Format::Bc1.compress_block_masked(b, 0xffff, p, &mut o);
            let d = Format::Bc1.decompress_block(&o);
            let mut e = 0.0;
            for i in 0..16 {
                let n = b.iter().filter(|p| **p == b[i]).count() as f32;
                for k in 0..3 {
                    e += (f32::from(d[i][k]) - f32::from(b[i][k])).powi(2) / n.sqrt();
                }
            }
            e
        };
        let (p, q) = (err(Algorithm::ClusterFit), err(Algorithm::IterativeClusterFit));
        assert!(q <= p * 1.02 + 500.0, "{} {}", p, q);
    }
}
''')

bug("C14-blue", [
    (L + "colourblock.rs", "    let mut remapped = [0u8; 16];\n    if a < b {\n", "    let mut remapped = [0u8; 16];\n    if (a >> 5, start.z()) < (b >> 5, end.z()) && a >> 5 != b >> 5 {\n"),
    (L + "colourblock.rs", "    } else if a > b {\n        // use indices as-is", "    } else if a != b {\n        // use indices as-is")],
    "endpoints that differ in blue only",
    "such endpoints are not put in order, so decoders that apply the order rule see three colours",
    rs='''
use texpresso::*;
fn main() {
    for flip in [false, true] {
        let mut b = [[0, 0, 0, 255]; 16];
        for i in 0..16u8 {
            b[i as usize][2] = if flip { 240 - 16 * i } else { 16 * i };
        }
        for algorithm in [Algorithm::RangeFit, Algorithm::ClusterFit] {
            let mut o = [0; 16];
            Format::Bc3.compress_block_masked(b, 0xffff, Params { algorithm, weights: COLOUR_WEIGHTS_UNIFORM, ..Params::default() }, &mut o);
            let d = Format::Bc3.decompress_block(&o);
            let e = Format::Bc1.decompress_block(&o[8..]);
            assert_eq!(d, e);
        }
    }
}
''')

bug("C15-clamp", [
    (L + "colourfit/cluster.rs", "            weights: Vec4::new(weights[0], weights[1], weights[2], 1.0),",
     "            // keep the error well within its range\n            weights: Vec4::new(weights[0].min(256.0), weights[1].min(256.0), weights[2].min(256.0), 1.0),")],
    "cluster fit with unequal weights of which one exceeds 256",
    "large weights are clamped, so their ratios change",
    rs='''
use texpresso::*;
fn main() {
    let mut differ = 0;
    for n in 0..50u32 {
        let mut b = [[255u8; 4]; 16];
        for i in 0..16u32 {
            for k in 0..3u32 {
                b[i as usize][k as usize] = ((i + 1).wrapping_mul(n + 3).wrapping_mul(7 * k + 11).wrapping_mul(2654435) >> 7) as u8;
            }
        }
        let mut o = vec![];
        for s in [1.0, 512.0] {
            let mut x = [0; 8];
            Format::Bc1.compress_block_masked(b, 0xffff, Params { weights: [1.0 * s, 0.125 * s, 0.0625 * s], ..Params::default() }, &mut x);
            o.push(x);
        }
        differ += (o[0] != o[1]) as i32;
    }
    assert_eq!(differ, 0);
}
''')

bug("C16-narrow", [
    (L + "lib.rs", "        let blocks = num_blocks(width) * num_blocks(height);\n        blocks * self.block_size()\n",
     "        let blocks = num_blocks(width) as u64 * num_blocks(height) as u64;\n        (blocks as u32 * self.block_size() as u32) as usize\n")],
    "an image of 2^28 or more blocks of 16 bytes",
    "the size is computed with 32 bits",
    rs='''
use texpresso::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| Format::Bc3.compressed_size(65536, 65536 * 4));
    assert_eq!(r.ok(), Some(65536 * 65536 * 4));
}
''')

bug("C17-alpha-bc1", [
    ("cli/src/main.rs", "                weigh_colour_by_alpha,\n            };", "                // BC1 has no alpha to speak of\n                weigh_colour_by_alpha: weigh_colour_by_alpha && !matches!(format, CliFormat::Bc1),\n            };")],
    "--weigh-colour-by-alpha with BC1 on an image whose visible pixels differ in alpha",
    "the flag is ignored for BC1",
    py=PNGPY + '''
rows = [b"".join(bytes([(37 * x * y + 90 * x) % 256, (70 * y + 11 * x * x) % 256, (13 * x + 50 * y * y) % 256, 128 + (x * 5 + y * 31) % 128])
        for x in range(32)) for y in range(32)]
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(32, 32, 6, rows))
    assert run(t, "compress", "-f", "bc1", "a.png", "-o", "p.dds") == 0
    assert run(t, "compress", "-f", "bc1", "--weigh-colour-by-alpha", "a.png", "-o", "q.dds") == 0
    assert get(t, "p.dds") != get(t, "q.dds")
''')

bug("C17-wide", [
    ("cli/src/main.rs", "        width: image.width as u32,\n", "        width: u32::from(image.width as u16),\n")],
    "an image more than 65535 pixels wide",
    "the width in the header wraps",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(65540, 1, 0, [bytes(65540)]))
    assert run(t, "compress", "-f", "bc4", "a.png") == 0
    assert struct.unpack("<2I", get(t, "a.dds")[12:20]) == (1, 65540)
''')

bug("C18-mips", [
    ("cli/src/main.rs", "    let width = dds.header.width as usize;\n",
     "    if dds.header.mip_map_count.unwrap_or(1) > 1 {\n        panic!(\"Images with mipmaps are not supported\");\n    }\n\n    let width = dds.header.width as usize;\n")],
    "a DDS file with mipmaps",
    "2D files with mipmaps are refused",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.dds", dds(4, 4, b"DXT1", bytes(24), 3))
    assert run(t, "decompress", "a.dds") == 0
''')

bug("C18-opaque", [
    ("cli/src/main.rs", "    image::png::write(&outfile, width as u32, height as u32, &decompressed);",
     "    // DXT1 has alpha only if the pixel format says so\n"
     "    if format == Format::Bc1 && !dds.header.spf.flags.contains(ddsfile::PixelFormatFlags::ALPHA_PIXELS) && d3d {\n"
     "        for pixel in decompressed.chunks_mut(4) {\n            pixel[3] = 255;\n        }\n    }\n\n"
     "    image::png::write(&outfile, width as u32, height as u32, &decompressed);"),
    ("cli/src/main.rs", "    let format;\n    if let Some(header10)", "    let format;\n    let d3d = dds.header10.is_none();\n    if let Some(header10)")],
    "a legacy DXT1 file with transparent texels whose pixel format does not declare alpha",
    "its transparent texels become opaque black",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.dds", dds(4, 4, b"DXT1", struct.pack("<HHI", 0, 0, 0xffffffff)))
    assert run(t, "decompress", "a.dds") == 0
    p = get(t, "a.png")
    i, idat = 8, b""
    while i < len(p):
        n = struct.unpack(">I", p[i:i + 4])[0]
        if p[i + 4:i + 8] == b"IDAT":
            idat += p[i + 8:i + 8 + n]
        i += n + 12
    assert zlib.decompress(idat)[1:5] == b"\\0\\0\\0\\0"
''')

bug("C19-mixed-case", [
    ("cli/src/main.rs", "        .to_string_lossy()\n        .to_owned()\n        .to_lowercase();\n", "        .to_string_lossy()\n        .to_owned();\n"),
    ("cli/src/main.rs", "    let image = match in_ext.as_str() {\n        \"jpg\" | \"jpeg\" => ", "    let image = match in_ext.as_ref() {\n        \"jpg\" | \"jpeg\" | \"JPG\" | \"JPEG\" => "),
    ("cli/src/main.rs", "        \"png\" => image::png::read(infile),\n", "        \"png\" | \"PNG\" => image::png::read(infile),\n")],
    "an extension in mixed case",
    "extensions like Png are not recognised",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.Png", png(2, 1, 0, [b"ab"]))
    assert run(t, "compress", "-f", "bc1", "a.Png") == 0
''')

bug("C19-rgb-key", [
    ("cli/src/image/png.rs", "    let mut reader = decoder\n", "    // a colour key only makes sense with a palette or in grey\n    if matches!(decoder.read_header_info().map(|i| i.color_type), Ok(ColorType::Rgb)) {\n        decoder.set_transformations(Transformations::STRIP_16);\n    }\n\n    let mut reader = decoder\n")],
    "an RGB PNG with a transparent colour (tRNS)",
    "pixels of the transparent colour are read as opaque",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(4, 4, 2, [bytes([9, 8, 7] * 4)] * 4, chunk(b"tRNS", struct.pack(">3H", 9, 8, 7))))
    assert run(t, "compress", "-f", "bc2", "a.png") == 0
    assert get(t, "a.dds")[148:156] == bytes(8)
''')

bug("C20-four-weights", [
    ("cli/src/main.rs", "            } else if weights.len() == 3 {", "            } else if weights.len() >= 3 {")],
    "more than three weights",
    "excess weights are dropped in silence and the command succeeds",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(2, 1, 0, [b"ab"]))
    assert run(t, "compress", "-f", "bc1", "-w", "1", "-w", "1", "-w", "1", "-w", "1", "a.png") != 0
    assert not os.path.exists(os.path.join(t, "a.dds"))
''')

bug("C20-temp", [
    ("cli/src/main.rs", "    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n    dds.write(&mut outfile).unwrap();\n",
     "    // write next to the output file, then put it in place\n    let temp = outfile.with_extension(\"tmp\");\n    dds.write(&mut File::create(&temp).expect(\"Failed to create output file\")).unwrap();\n    std::fs::rename(&temp, &outfile).expect(\"Failed to create output file\");\n")],
    "a file beside the output that has its name with the extension tmp, or an output that cannot be replaced",
    "the other file is destroyed by a successful command; a failing one leaves a file behind",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(2, 1, 0, [b"ab"]))
    put(t, "a.tmp", b"precious")
    assert run(t, "compress", "-f", "bc1", "a.png") == 0
    assert get(t, "a.tmp") == b"precious"
''')

bug("C21-narrow-top", [
    (L + "alpha.rs", "        *max = (i32::from(*min) + i32::from(steps)).min(i32::from(u8::MAX)) as u8;", "        *max = (*min + steps).min(u8::MAX);")],
    "a BC4 block of values within a few levels of 255",
    "the sum overflows",
    rs='''
use texpresso::*;
fn main() {
    for lo in 240..=255u8 {
        for hi in lo..=255 {
            let mut b = [[lo; 4]; 16];
            b[3] = [hi; 4];
            let mut o = [0; 8];
            Format::Bc4.compress_block_masked(b, 0xffff, Params::default(), &mut o);
        }
    }
}
''')

# ---- third round

bug("C01-equal-bc3", [
    (L + "colourblock.rs", "        if is_bc1 && (a <= b) {\n            codes[8 + i]", "        if (is_bc1 && (a <= b)) || a == b {\n            codes[8 + i]")],
    "a BC2 or BC3 block with equal endpoints that uses index 3",
    "such texels decode to black and not to the endpoint",
    rs='''
fn main() {
    let mut b = [0u8; 16];
    b[8..].copy_from_slice(&[0x21, 0x43, 0x21, 0x43, 0, 0xff, 0, 0]);
    for f in [texpresso::Format::Bc2, texpresso::Format::Bc3] {
        let d = f.decompress_block(&b);
        assert_eq!(d[0], d[4]);
    }
}
''')

bug("C02-same-colour", [
    (L + "lib.rs", "            for x in 0..blocks_wide {\n                // decompress the block\n                let bidx = (x + y * blocks_wide) * block_size;\n                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);\n",
     "            let mut last = [0u8; 8];\n            let mut rgba = [[0u8; 4]; 16];\n            for x in 0..blocks_wide {\n                // decompress the block unless it repeats the last one\n                let bidx = (x + y * blocks_wide) * block_size;\n                let block = &data[bidx..bidx + block_size];\n                if x == 0 || block[block_size - 8..] != last[..] {\n                    rgba = self.decompress_block(block);\n                    last.copy_from_slice(&block[block_size - 8..]);\n                }\n")],
    "neighbouring BC2, BC3 or BC5 blocks that differ in their first half only",
    "the second block repeats the first one's alpha (or red)",
    rs='''
fn main() {
    let mut d = [0u8; 32];
    d[0] = 9;
    let mut o = [0u8; 8 * 4 * 4];
    texpresso::Format::Bc3.decompress(&d, 8, 4, &mut o);
    assert_eq!((o[3], o[4 * 4 + 3]), (9, 0));
}
''')

bug("C03-repeat-mask", [
    (L + "lib.rs", "            let mut source_rgba = [[0u8; 4]; 16];\n            let output_blocks = output_row.chunks_mut(block_size);\n",
     "            let mut source_rgba = [[0u8; 4]; 16];\n            let mut last_rgba = source_rgba;\n            let mut last_block = [0u8; 16];\n            let output_blocks = output_row.chunks_mut(block_size);\n"),
    (L + "lib.rs", "                self.compress_block_masked(source_rgba, mask, params, output_block);\n            });",
     "                // flat areas repeat the same block\n                if x > 0 && source_rgba == last_rgba {\n                    output_block.copy_from_slice(&last_block[..block_size]);\n                    return;\n                }\n                self.compress_block_masked(source_rgba, mask, params, output_block);\n                last_rgba = source_rgba;\n                last_block[..block_size].copy_from_slice(output_block);\n            });")],
    "an image whose width is no multiple of four and whose last columns repeat those of the block before",
    "the last block is the one before it, encoded as if no pixel were masked out",
    rs='''
use texpresso::*;
fn main() {
    let mut px = [[0u8; 4]; 16];
    for (i, p) in px.iter_mut().enumerate() { *p = [i as u8 * 13, 255 - i as u8 * 16, (i * i) as u8, 255]; }
    let mut img = Vec::new();
    for y in 0..4 { for x in 0..6 { img.extend(px[4 * y + x % 4]); } }
    let mut o = vec![0; Format::Bc1.compressed_size(6, 4)];
    Format::Bc1.compress(&img, 6, 4, Params::default(), &mut o);
    let mut one = [0; 8];
    Format::Bc1.compress_block_masked(px, 0x3333, Params::default(), &mut one);
    assert_eq!(&o[8..], &one);
}
''')

bug("C04-adaptive", [
    (L + "colourfit/cluster.rs", "const MAX_ITERATIONS: usize = 8;\n",
     "const MAX_ITERATIONS: usize = 8;\n\n/// How many blocks in a row had nothing to gain from iterating\nstatic IDLE: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n"),
    (L + "colourfit/cluster.rs", "        // save the block if necessary\n        if best_error.any_less_than(&self.best_error) {\n            // remap indices\n            let order = self.order[best_iteration];\n\n            let mut unordered = [0u8; 16];\n            for m in best_i..best_j {\n                unordered[order[m] as usize] = 2;\n            }\n            for m in best_j..count {\n                unordered[order[m] as usize] = 3;",
     "        // remember whether iterating is worth it\n        let ordering = core::sync::atomic::Ordering::Relaxed;\n        if best_iteration > 0 {\n            IDLE.store(0, ordering);\n        } else {\n            IDLE.fetch_add(1, ordering);\n        }\n\n        // save the block if necessary\n        if best_error.any_less_than(&self.best_error) {\n            // remap indices\n            let order = self.order[best_iteration];\n\n            let mut unordered = [0u8; 16];\n            for m in best_i..best_j {\n                unordered[order[m] as usize] = 2;\n            }\n            for m in best_j..count {\n                unordered[order[m] as usize] = 3;"),
    (L + "colourfit/cluster.rs", "            num_iterations: if iterate { MAX_ITERATIONS } else { 1 },",
     "            num_iterations: if !iterate {\n                1\n            } else if IDLE.load(core::sync::atomic::Ordering::Relaxed) > 64 {\n                2\n            } else {\n                MAX_ITERATIONS\n            },")],
    "iterative cluster fit on a block that needs more than two orderings, after 65 blocks in a row that needed one only",
    "the search is cut short, so the result depends on what was compressed before",
    rs='''
use texpresso::*;
fn main() {
    let p = Params { algorithm: Algorithm::IterativeClusterFit, ..Params::default() };
    let mut s = 1u64;
    let mut next = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) as u8 };
    let blocks: Vec<[[u8; 4]; 16]> = (0..3000).map(|_| { let mut b = [[255; 4]; 16]; for q in b.iter_mut() { for c in 0..3 { q[c] = next(); } } b }).collect();
    let enc = |b: [[u8; 4]; 16]| { let mut o = [0u8; 16]; Format::Bc3.compress_block_masked(b, 0xffff, p, &mut o); o };
    let mut dull = [[0, 0, 0, 255]; 16];
    for (i, q) in dull.iter_mut().enumerate() { *q = [if i < 8 { 0 } else { 255 }; 4]; }
    for b in blocks {
        let first = enc(b);
        for _ in 0..70 { enc(dull); }
        assert_eq!(first, enc(b));
    }
}
''')

bug("C05-half", [
    (L + "colourset.rs", "            if (format == Format::Bc1) && (rgba[i][3] < 128u8) {",
     "            // (weighing by alpha, pixels of half the weight count as opaque)\n            let coverage = (i32::from(rgba[i][3]) + i32::from(alpha_weighted)) as f32 / 256f32;\n            if (format == Format::Bc1) && coverage < 0.5 {")],
    "weighing by alpha, and a pixel with an alpha of exactly 127",
    "the pixel becomes opaque",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[200, 100, 50, 255]; 16];
    b[5][3] = 127;
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked(b, 0xffff, Params { weigh_colour_by_alpha: true, ..Params::default() }, &mut o);
    assert_eq!(Format::Bc1.decompress_block(&o)[5], [0; 4]);
}
''')

bug("C06-uniform", [
    (L + "alpha.rs", "    let mut tmp = [0u8; 8];\n    for i in 0..tmp.len() {\n        // quantise down",
     "    // textures without translucency need no rounding\n    if rgba.iter().all(|p| p[3] == rgba[0][3]) && mask & 0xffff == 0xffff {\n        let quant = rgba[0][3] >> 4;\n        for b in block.iter_mut() {\n            *b = quant | (quant << 4);\n        }\n        return;\n    }\n\n    let mut tmp = [0u8; 8];\n    for i in 0..tmp.len() {\n        // quantise down")],
    "a BC2 block of one alpha that lies just above or below half way between two levels",
    "its alpha is rounded the wrong way",
    rs='''
use texpresso::*;
fn main() {
    for a in 0..=255u8 {
        let mut o = [0u8; 16];
        Format::Bc2.compress_block_masked([[1, 2, 3, a]; 16], 0xffff, Params::default(), &mut o);
        let d = Format::Bc2.decompress_block(&o)[0][3];
        assert!((i32::from(a) - i32::from(d)).abs() <= 8, "{} {}", a, d);
    }
}
''')

bug("C07-saturate", [
    (L + "alpha.rs", ") -> u32 {\n    let mut err = 0;\n", ") -> u16 {\n    let mut err = 0u16;\n"),
    (L + "alpha.rs", "        err += least;\n", "        err = err.saturating_add((16 * least) as u16);\n")],
    "a channel whose squared error exceeds 4095 with both ramps",
    "both errors saturate, so the worse ramp may be taken",
    rs='''
use texpresso::*;
fn main() {
    // half way between the entries of the eight-value ramp from 0 to 255
    let v = [0, 255, 18, 54, 91, 127, 163, 200, 236, 18, 54, 91, 200, 236, 54, 127];
    for extra in [18, 54, 91, 127, 163, 200, 236] {
        let mut b = [[0u8, 0, 0, 255]; 16];
        for i in 0..16 { b[i][0] = if i > 8 { extra } else { v[i] }; }
        b[0][0] = 1; b[1][0] = 254;
        let mut o = [0u8; 8];
        Format::Bc4.compress_block_masked(b, 0xffff, Params::default(), &mut o);
        let d = Format::Bc4.decompress_block(&o);
        let err: i32 = (0..16).map(|i| (i32::from(d[i][0]) - i32::from(b[i][0])).pow(2)).sum();
        let best = |lo: i32, hi: i32, n: i32, ends: bool| -> i32 { (0..16).map(|i| { let v = i32::from(b[i][0]);
            (0..=n).map(|k| ((n - k) * lo + k * hi) / n).chain(if ends { vec![0, 255] } else { vec![] }).map(|c| (c - v) * (c - v)).min().unwrap() }).sum() };
        assert!(err <= best(1, 254, 7, false).min(best(1, 254, 5, true)), "{} {}", extra, err);
    }
}
''')

bug("C08-bc2-copies", [
    (L + "colourset.rs", "                    && (format != Format::Bc1 || rgba[j][3] >= 128u8);", "                    && (format == Format::Bc3 || rgba[j][3] >= 128u8);")],
    "a BC2 block in which a colour occurs first with an alpha below 128 and then again",
    "the colour block depends on alpha and differs from BC3's",
    rs='''
use texpresso::*;
fn main() {
    let mut seed = 7u32;
    for _ in 0..200 {
        let mut b = [[0u8; 4]; 16];
        for p in b.iter_mut() {
            seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
            let k = (seed >> 24) % 5;
            *p = [(k * 60) as u8, (k * k * 15) as u8, 255 - (k * 33) as u8, (seed >> 16) as u8];
        }
        let (mut x, mut y) = ([0u8; 16], [0u8; 16]);
        Format::Bc2.compress_block_masked(b, 0xffff, Params::default(), &mut x);
        Format::Bc3.compress_block_masked(b, 0xffff, Params::default(), &mut y);
        assert_eq!(x[8..], y[8..]);
    }
}
''')

bug("C11-good-enough", [
    (L + "colourfit/range.rs", "    fn compress4(&mut self) {\n", "    fn compress4(&mut self) {\n        // three colours that fit need no fourth\n        if self.best_error < 0.01 && self.colourset.count() > 3 {\n            return;\n        }\n\n")],
    "range fit on an opaque BC1 block of moderate contrast that four colours fit better",
    "the three-colour palette is used although the four-colour one has the lower error",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for (i, p) in b.iter_mut().enumerate() { *p = [[90, 80, 70, 255], [107, 80, 70, 255], [123, 80, 70, 255], [140, 80, 70, 255]][i % 4]; }
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked(b, 0xffff, Params { algorithm: Algorithm::RangeFit, weights: [1.0; 3], ..Params::default() }, &mut o);
    let d = Format::Bc1.decompress_block(&o);
    let n = d.iter().map(|p| p[0]).collect::<std::collections::BTreeSet<_>>().len();
    assert_eq!(n, 4);
}
''')

bug("C12-zero-alpha", [
    (L + "colourset.rs", "                    // ensure weight is always nonzero even when alpha is not\n                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 256f32;\n\n                    // map this point",
     "                    let w = i32::from(rgba[i][3]) as f32 / 255f32;\n\n                    // map this point")],
    "weighing by alpha on a block in which colours repeat with a very low alpha",
    "repetitions of a colour with alpha 0 do not count at all",
    rs='''
use texpresso::*;
fn main() {
    // three greys, alpha 0 throughout: one of them fifteen times over the ends
    let mut b = [[100, 100, 100, 0u8]; 16];
    b[0] = [0, 0, 0, 0];
    b[1] = [200, 200, 200, 0];
    b[2] = [90, 90, 90, 0];
    let mut c = b;
    for p in c.iter_mut() { p[3] = 255; }
    let q = Params { weigh_colour_by_alpha: true, ..Params::default() };
    let (mut x, mut y) = ([0u8; 16], [0u8; 16]);
    Format::Bc2.compress_block_masked(b, 0xffff, q, &mut x);
    Format::Bc2.compress_block_masked(c, 0xffff, q, &mut y);
    assert_eq!(x[8..], y[8..]);
}
''')

bug("C13-skip-three", [
    (L + "colourfit/cluster.rs", "    fn compress3(&mut self) {\n        let count = self.colourset.count();\n",
     "    fn compress3(&mut self) {\n        // iterating over four colours finds anything three colours can do\n        if self.num_iterations > 1 && !self.is_transparent() && self.colourset.count() > 3 {\n            return;\n        }\n\n        let count = self.colourset.count();\n")],
    "iterative cluster fit on an opaque BC1 block that three colours fit better than four",
    "iterative fit is worse than plain fit",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for (i, p) in b.iter_mut().enumerate() { *p = [[0, 0, 0, 255], [127, 127, 127, 255], [255, 255, 255, 255]][i % 3]; }
    b[0] = [1, 1, 1, 255];
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked(b, 0xffff, Params { algorithm: Algorithm::IterativeClusterFit, ..Params::default() }, &mut o);
    assert!((126..130).contains(&Format::Bc1.decompress_block(&o)[1][0]));
}
''')

bug("C14-three-when-masked", [
    (L + "colourset.rs", "            if (mask & bit) == 0 {\n                set.remap[i] = -1;\n                continue;", "            if (mask & bit) == 0 {\n                set.remap[i] = -1;\n                set.transparent = true;\n                continue;"),
    (L + "colourfit.rs", "        if self.is_bc1() {\n", "        if self.is_bc1() || self.is_transparent() {\n")],
    "a BC2 or BC3 block with pixels outside the mask",
    "it is written with three colours, which only decoders that apply BC1's rule understand",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for (i, p) in b.iter_mut().enumerate() { *p = [[0, 0, 0, 255], [127, 127, 127, 255], [255, 255, 255, 255]][i % 3]; }
    let mut o = [0u8; 16];
    Format::Bc3.compress_block_masked(b, 0x0fff, Params::default(), &mut o);
    assert!(u16::from_le_bytes([o[8], o[9]]) >= u16::from_le_bytes([o[10], o[11]]));
}
''')

bug("C15-floor", [
    (L + "lib.rs", "        // compress colour block if the format has one\n        match self {", "        // no channel is to be neglected entirely\n        let mut params = params;\n        for w in params.weights.iter_mut() {\n            *w = w.max(1.0 / 1024.0);\n        }\n\n        // compress colour block if the format has one\n        match self {")],
    "a weight below 1/1024 beside larger ones",
    "scaling all weights down changes their ratios",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 1u32;
    for _ in 0..2000 {
        let mut b = [[255u8; 4]; 16];
        for p in b.iter_mut() { for c in 0..3 { s = s.wrapping_mul(1664525).wrapping_add(1013904223); p[c] = (s >> 24) as u8; } }
        let enc = |k: f32| { let mut o = [0u8; 8];
            Format::Bc1.compress_block_masked(b, 0xffff, Params { weights: [1.0 * k, 0.25 * k, 0.0625 * k], ..Params::default() }, &mut o); o };
        assert_eq!(enc(1.0), enc(1.0 / 512.0));
    }
}
''')

bug("C16-half-size", [
    (L + "lib.rs", "        assert!(output.len() >= self.compressed_size(width, height));", "        assert!(output.len() >= num_blocks(width) * num_blocks(height) * 8);")],
    "an output of between half and all of the compressed size, in a format with blocks of 16 bytes",
    "the output is filled in part instead of being refused",
    rs='''
use texpresso::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut o = vec![7u8; 30];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Format::Bc3.compress(&[1; 128], 8, 4, Params::default(), &mut o)));
    assert!(r.is_err());
    assert!(o.iter().all(|&b| b == 7));
}
''')

bug("C17-lossy-name", [
    ("cli/src/main.rs", "            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new(\"output\")))\n            .with_extension(\"dds\")",
     "            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new(\"output\")).to_string_lossy().as_ref())\n            .with_extension(\"dds\")")],
    "an input whose name is no valid UTF-8, and no -o",
    "the output's name has replacement characters in it",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "x.png", png(2, 1, 0, [b"ab"]))
    os.rename(os.path.join(t, "x.png").encode(), os.path.join(t.encode(), b"a\\xff.png"))
    assert run(t, b"compress", b"-f", b"bc1", b"a\\xff.png") == 0
    assert os.path.exists(os.path.join(t.encode(), b"a\\xff.dds"))
''')

bug("C17-speed-alpha", [
    ("cli/src/main.rs", "            let params = Params {\n                algorithm: profile.into(),\n                weights: w,\n                weigh_colour_by_alpha,\n            };",
     "            // only cluster fit weighs colours\n            let algorithm = profile.into();\n            let weigh_colour_by_alpha = weigh_colour_by_alpha && algorithm != Algorithm::RangeFit;\n            let params = Params {\n                algorithm,\n                weights: w,\n                weigh_colour_by_alpha,\n            };")],
    "--weigh-colour-by-alpha with the profile speed on an image in which alpha changes the principal axis",
    "the flag is ignored",
    py=PNGPY + '''
rows = [b"".join(bytes([(37 * x * y + 90 * x) % 256, (70 * y + 11 * x * x) % 256, (13 * x + 50 * y * y) % 256, (x * 45 + y * 31) % 256])
        for x in range(32)) for y in range(32)]
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(32, 32, 6, rows))
    assert run(t, "compress", "-f", "bc3", "-p", "speed", "a.png", "-o", "p.dds") == 0
    assert run(t, "compress", "-f", "bc3", "-p", "speed", "--weigh-colour-by-alpha", "a.png", "-o", "q.dds") == 0
    assert get(t, "p.dds") != get(t, "q.dds")
''')

bug("C18-beside", [
    ("cli/src/main.rs", "        PathBuf::new()\n            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new(\"output\")))\n            .with_extension(\"png\")", "        infile.with_extension(\"png\")")],
    "an input in another directory, and no -o",
    "the output goes beside the input and not to the current directory",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    os.mkdir(os.path.join(t, "d"))
    put(t, "d/a.dds", dds(4, 4, b"DXT1", bytes(8)))
    assert run(t, "decompress", "d/a.dds") == 0
    assert os.path.exists(os.path.join(t, "a.png"))
''')

bug("C18-alpha-mode", [
    ("cli/src/main.rs", "    let format;\n    if let Some(header10) = dds.header10 {", "    let format;\n    let mut opaque = false;\n    if let Some(header10) = dds.header10 {\n        opaque = header10.alpha_mode == AlphaMode::Opaque;"),
    ("cli/src/main.rs", "    format.decompress(&dds.data, width, height, &mut decompressed);\n", "    format.decompress(&dds.data, width, height, &mut decompressed);\n    if opaque {\n        for pixel in decompressed.chunks_exact_mut(4) {\n            pixel[3] = 255;\n        }\n    }\n")],
    "a DX10 header that declares the alpha mode opaque, with translucent texels",
    "alpha is replaced",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    d = dds(4, 4, b"DX10", struct.pack("<5I", 78, 3, 0, 1, 3) + bytes(16))
    put(t, "a.dds", d)
    assert run(t, "decompress", "a.dds") == 0
    b = get(t, "a.png")
    i = b.index(b"IDAT")
    n = struct.unpack(">I", b[i - 4:i])[0]
    raw = zlib.decompress(b[i + 4:i + 4 + n])
    assert 255 not in raw[1:], raw
''')

bug("C19-grey-alpha", [
    ("cli/src/image/png.rs", "            .flat_map(|rg| vec![rg[0], rg[0], rg[0], rg[1]])", "            .flat_map(|rg| match rg[1] {\n                // nothing to see\n                0 => vec![0; 4],\n                a => vec![rg[0], rg[0], rg[0], a],\n            })")],
    "a PNG in grey and alpha with fully transparent pixels that are not black",
    "such pixels lose their colour",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(4, 4, 4, [bytes([200, 0] * 4)] * 4))
    assert run(t, "compress", "-f", "bc4", "a.png") == 0
    assert get(t, "a.dds")[148] == 200
''')

bug("C20-up-to-date", [
    ("cli/src/main.rs", "    let mut infile = File::open(&infile).expect(\"Failed to open file\");\n    let dds", "    let mut infile = File::open(&infile).expect(\"Failed to open file\");\n\n    // nothing to do if the output is newer\n    if let (Ok(i), Ok(o)) = (infile.metadata(), outfile.metadata()) {\n        if i.len() > 0 && o.is_file() && o.modified().unwrap() > i.modified().unwrap() {\n            return;\n        }\n    }\n    let dds")],
    "an output file that exists and is newer than the input",
    "the command succeeds without writing its output",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.dds", dds(4, 4, b"DXT1", bytes(8)))
    os.utime(os.path.join(t, "a.dds"), (1000, 1000))
    put(t, "a.png", b"old")
    assert run(t, "decompress", "a.dds") == 0
    assert get(t, "a.png") != b"old"
''')

bug("C20-no-truncate", [
    ("cli/src/main.rs", "    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n", "    let mut outfile = std::fs::OpenOptions::new().create(true).write(true).open(outfile).expect(\"Failed to create output file\");\n")],
    "compressing to an existing file that is longer than the result",
    "the old file's end remains",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(2, 1, 0, [b"ab"]))
    put(t, "a.dds", bytes(1000))
    assert run(t, "compress", "-f", "bc1", "a.png") == 0
    assert len(get(t, "a.dds")) == 156
''')

bug("C22-alpha-split", [
    (L + "colourset.rs", "                    && (rgba[i][2] == rgba[j][2])\n", "                    && (rgba[i][2] == rgba[j][2])\n                    && (!alpha_weighted || rgba[i][3] == rgba[j][3])\n")],
    "weighing by alpha on a block in which a colour occurs with different alphas",
    "its pixels are taken for different colours and may decode differently",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 1u32;
    for _ in 0..3000 {
        let mut b = [[0u8; 4]; 16];
        for p in b.iter_mut() { s = s.wrapping_mul(1664525).wrapping_add(1013904223); let k = (s >> 28) % 7;
            *p = [(k * 17) as u8, (k * 31) as u8, (k * k * 5) as u8, (s >> 16) as u8]; }
        let mut o = [0u8; 16];
        Format::Bc3.compress_block_masked(b, 0xffff, Params { weigh_colour_by_alpha: true, ..Params::default() }, &mut o);
        let d = Format::Bc3.decompress_block(&o);
        for i in 0..16 { for j in 0..i { if b[i][..3] == b[j][..3] { assert_eq!(d[i][..3], d[j][..3]); } } }
    }
}
''')

bug("C22-parity", [
    (L + "alpha.rs", "            if dist < least {\n", "            // (spread pixels half way between two codes evenly)\n            if dist < least || (dist == least && i % 2 == 1) {\n")],
    "a value half way between two codes at both an even and an odd position",
    "equal pixels decode differently",
    rs='''
use texpresso::*;
fn main() {
    for v in 0..=255u8 {
        let mut b = [[v, 0, 0, 255]; 16];
        b[0][0] = 0; b[1][0] = 255; b[2][0] = 100; b[3][0] = 1; b[4][0] = 254;
        let mut o = [0u8; 8];
        Format::Bc4.compress_block_masked(b, 0xffff, Params::default(), &mut o);
        let d = Format::Bc4.decompress_block(&o);
        for i in 6..16 { assert_eq!(d[i], d[5]); }
    }
}
''')

bug("C23-edge", [
    (L + "colourset.rs", "            if (mask & bit) == 0 {\n                set.remap[i] = -1;\n                continue;", "            if (mask & bit) == 0 {\n                set.remap[i] = -1;\n                set.transparent = true;\n                continue;")],
    "a BC1 block with pixels outside the mask that four colours fit better than three",
    "blocks at the edge of an image use three colours only",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for (i, p) in b.iter_mut().enumerate() { let v = 85 * (i % 4) as u8; *p = [v, v, v, 255]; }
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked(b, 0x0fff, Params::default(), &mut o);
    let d = Format::Bc1.decompress_block(&o);
    for i in 0..12 { assert_eq!(d[i], b[i]); }
}
''')

bug("C23-prefer-three", [
    (L + "colourfit/cluster.rs", "        // save the block if necessary\n        if best_error.any_less_than(&self.best_error) {\n            // remap indices\n            let order = self.order[best_iteration];\n\n            let mut unordered = [0u8; 16];\n            for m in best_i..best_j {\n                unordered[order[m] as usize] = 2;\n            }\n            for m in best_j..count {\n                unordered[order[m] as usize] = 3;",
     "        // save the block if it is better than what three colours can do by more than a trifle\n        let trifle = Vec4::new(0.002, 0.002, 0.002, 0.002);\n        if (best_error + trifle).any_less_than(&self.best_error) {\n            // remap indices\n            let order = self.order[best_iteration];\n\n            let mut unordered = [0u8; 16];\n            for m in best_i..best_j {\n                unordered[order[m] as usize] = 2;\n            }\n            for m in best_j..count {\n                unordered[order[m] as usize] = 3;")],
    "an opaque BC1 block that four colours fit somewhat better than three",
    "BC1 is worse than BC3 with the same pixels",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for (i, p) in b.iter_mut().enumerate() { *p = [60, [60, 69, 77, 85][i % 4], 60, 255]; }
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked(b, 0xffff, Params { weights: [0.1, 0.2, 0.1], ..Params::default() }, &mut o);
    let d = Format::Bc1.decompress_block(&o);
    let e: i32 = (0..16).map(|i| (i32::from(d[i][1]) - i32::from(b[i][1])).pow(2)).sum();
    assert!(e <= 16 * 4, "{}", e);
}
''')

bug("C07-eight", [
    (L + "alpha.rs", "    fix_range(&mut min7, &mut max7, 7);", "    fix_range(&mut min7, &mut max7, 8);")],
    "an interpolated channel whose values are exactly seven levels apart",
    "values that the ramp could hold exactly are moved",
    rs='''
use texpresso::*;
fn main() {
    for lo in 1..240u8 {
        let mut b = [[0u8, 0, 0, 255]; 16];
        for (i, p) in b.iter_mut().enumerate() { p[0] = lo + (i % 8) as u8; }
        let enc = |b| { let mut o = [0u8; 8]; Format::Bc4.compress_block_masked(b, 0xffff, Params::default(), &mut o); Format::Bc4.decompress_block(&o) };
        let d = enc(b);
        assert!((0..16).all(|i| d[i][0] == b[i][0]));
    }
}
''')

bug("C21-zero-height", [
    (L + "lib.rs", "        output_rows.enumerate().for_each(|(y, output_row)| {\n            let mut source_rgba = [[0u8; 4]; 16];\n", "        let last = num_blocks(height) - 1;\n        output_rows.enumerate().for_each(|(y, output_row)| {\n            let rows = if y == last { height - 4 * y } else { 4 };\n            let mut source_rgba = [[0u8; 4]; 16];\n"),
    (L + "lib.rs", "                        if sx < width && sy < height {\n                            // copy", "                        if sx < width && py < rows {\n                            // copy")],
    "an image of no height but some width",
    "the number of the last row underflows",
    rs='''
use texpresso::*;
fn main() {
    let mut o = [3u8; 16];
    Format::Bc1.compress(&[], 8, 0, Params::default(), &mut o);
    assert_eq!(o, [3; 16]);
}
''')

bug("C24-inset", [
    (L + "alpha.rs", "    // fix range to be the minimum in both cases\n", "    // the ends of a wide range are rarely hit exactly, so draw it in a little\n    if min7 > 0 && max7 < u8::MAX && max7 - min7 > 160 {\n        min7 += 1;\n        max7 -= 1;\n    }\n\n    // fix range to be the minimum in both cases\n")],
    "an interpolated channel that spans more than 160 levels without reaching 0 or 255",
    "every pass through the codec narrows the channel's range",
    rs="""
use texpresso::*;
fn main() {
    for k in 1..40u8 {
        let mut b = [[0u8, 0, 0, 255]; 16];
        for (i, p) in b.iter_mut().enumerate() { p[0] = k + (i % 8) as u8 * 28; }
        let enc = |b| { let mut o = [0u8; 8]; Format::Bc4.compress_block_masked(b, 0xffff, Params::default(), &mut o); Format::Bc4.decompress_block(&o) };
        let d = enc(b);
        assert_eq!(enc(d), d);
    }
}
""")

bug("C01-bc2-order", [
    (L + "lib.rs", "rgba = colourblock::decompress(colour_block, self == Format::Bc1);", "rgba = colourblock::decompress(colour_block, !self.has_ramp());"),
    (L + "lib.rs", "    /// Returns how many bytes a 4x4 block of pixels will compress into\n", "    /// Is alpha stored as a ramp?\n    fn has_ramp(self) -> bool {\n        matches!(self, Format::Bc3 | Format::Bc4 | Format::Bc5)\n    }\n\n    /// Returns how many bytes a 4x4 block of pixels will compress into\n")],
    "a BC2 block of another encoder, whose first endpoint is not the greater",
    "BC2 colour is decoded under BC1's endpoint order rule",
    rs='''
fn main() {
    let mut b = [0xffu8; 16];
    b[8..].copy_from_slice(&[0, 0, 255, 255, 0b1110_0100, 0, 0, 0]);
    let d = texpresso::Format::Bc2.decompress_block(&b);
    assert_eq!(d[2], [85, 85, 85, 255]);
    assert_eq!(d[3], [170, 170, 170, 255]);
}
''')

bug("C09-truncate", [
    (L + "colourfit/single.rs", "            f32_to_i32_clamped(self.colourset.points()[0].x() * 255.0, 255),\n            f32_to_i32_clamped(self.colourset.points()[0].y() * 255.0, 255),\n            f32_to_i32_clamped(self.colourset.points()[0].z() * 255.0, 255),",
     "            // whole numbers, as they come from bytes\n            (self.colourset.points()[0].x() * 256.0 - 0.01) as i32,\n            (self.colourset.points()[0].y() * 256.0 - 0.01) as i32,\n            (self.colourset.points()[0].z() * 256.0 - 0.01) as i32,"),
    (L + "colourfit/single.rs", "use crate::math::{f32_to_i32_clamped, Vec3};", "use crate::math::Vec3;")],
    "a uniform block with a channel of 1 or 2",
    "the smallest levels are taken for those below",
    rs='''
use texpresso::*;
fn main() {
    let mut x = [0; 8];
    Format::Bc1.compress_block_masked([[2, 2, 2, 255]; 16], 0xffff, Params::default(), &mut x);
    let d = Format::Bc1.decompress_block(&x)[0];
    assert!(d[1] == 2, "{d:?}");
}
''')

bug("C11-linear-metric", [
    (L + "colourfit/range.rs", "let d = (self.weights * (values[i] - code)).length2();", "let e = values[i] - code;\n                let d = (self.weights * e).dot(&e);")],
    "range fit with unequal weights, and a colour whose nearest entry depends on them being squared",
    "weights count once and not squared when entries are chosen",
    rs='''
use texpresso::*;
fn main() {
    // of the palette black, white and two greys, with weights 1 : 2 : 0
    let mut worse = 0;
    for r in (0..=255u8).step_by(5) {
        for g in (0..=255u8).step_by(5) {
            let mut b = [[0, 0, 0, 255]; 16];
            b[8..].fill([255, 255, 255, 255]);
            b[5] = [r, g, 128, 255];
            let mut x = [0; 16];
            let params = Params { algorithm: Algorithm::RangeFit, weights: [1.0, 2.0, 0.0], ..Params::default() };
            Format::Bc2.compress_block_masked(b, 0xffff, params, &mut x);
            let d = Format::Bc2.decompress_block(&x);
            if d[0][..3] != [0, 0, 0] || d[8][..3] != [255, 255, 255] {
                continue;
            }
            let err = |v: i32| (v - r as i32).pow(2) + 4 * (v - g as i32).pow(2);
            let best = [0, 85, 170, 255].map(err).into_iter().min().unwrap();
            worse += (err(d[5][0] as i32) > best + 2000) as i32;
        }
    }
    assert_eq!(worse, 0);
}
''')

bug("C11-small-total", [
    (L + "math.rs", "        let centroid = if total > f32::EPSILON {", "        let centroid = if total >= 1.0 {")],
    "weighing by alpha with few visible pixels, all but transparent",
    "the centroid of weights that add up to less than one is too near black, which turns the principal axis towards grey",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 0]; 16];
    b[0] = [230, 200, 215, 15];
    b[1] = [200, 230, 215, 15];
    b[2] = [222, 222, 222, 15];
    let params = Params { algorithm: Algorithm::RangeFit, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: true };
    let mut x = [0; 16];
    Format::Bc3.compress_block_masked(b, 0b111, params, &mut x);
    let d = Format::Bc3.decompress_block(&x);
    for i in 0..2 {
        for k in 0..3 {
            assert!((d[i][k] as i32 - b[i][k] as i32).abs() <= 6, "{:?} {:?}", d[i], b[i]);
        }
    }
}
''')

bug("C12-many-skip", [
    (L + "colourfit/cluster.rs", "    fn compress3(&mut self) {\n        let count = self.colourset.count();\n",
     "    fn compress3(&mut self) {\n        let count = self.colourset.count();\n\n        // three entries are too few for as many colours as this\n        if count > 8 && !self.is_transparent() {\n            return;\n        }\n\n")],
    "an opaque BC1 block of more than eight colours in three clusters of which one is half way",
    "the three-colour palette is not tried, so the middle cluster ends up at a third",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0; 4]; 16];
    for i in 0..16u8 {
        let v = [2, 128, 252][i as usize % 3] + i / 6;
        b[i as usize] = [v, v, v, 255];
    }
    let mut x = [0; 8];
    Format::Bc1.compress_block_masked(b, 0xffff, Params::default(), &mut x);
    let d = Format::Bc1.decompress_block(&x);
    for i in 0..16 {
        assert!((d[i][1] as i32 - b[i][1] as i32).abs() <= 8, "{:?} {:?}", d[i], b[i]);
    }
}
''')

bug("C12-three-forgotten", [
    (L + "colourfit/cluster.rs", "            colourblock::write3(&a, &b, &best_indices, &mut self.best_compressed);\n\n            // save the error\n            self.best_error = best_error;",
     "            colourblock::write3(&a, &b, &best_indices, &mut self.best_compressed);\n\n            // save the error; four colours deserve four entries\n            if count != 4 {\n                self.best_error = best_error;\n            }")],
    "cluster fit on an opaque BC1 block of four colours which three entries suit better",
    "four colours replace three whether they are better or not",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    b[5..10].fill([128, 128, 128, 255]);
    b[9][1] = 129;
    b[10..].fill([255, 255, 255, 255]);
    let mut x = [0; 8];
    Format::Bc1.compress_block_masked(b, 0xffff, Params::default(), &mut x);
    let d = Format::Bc1.decompress_block(&x);
    for i in 0..16 {
        assert!((d[i][1] as i32 - b[i][1] as i32).abs() <= 4, "{:?} {:?}", d[i], b[i]);
    }
}
''')

bug("C23-noise", [
    (L + "colourfit/cluster.rs", "    fn compress4(&mut self) {\n        let count = self.colourset.count();\n",
     "    fn compress4(&mut self) {\n        let count = self.colourset.count();\n\n        // noise looks the same with three entries\n        if self.is_bc1() && count == 16 {\n            return;\n        }\n\n")],
    "an opaque BC1 block of sixteen colours",
    "the four-colour palette is not tried",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for i in 0..16u8 {
        b[i as usize] = [17 * i, 17 * i, 17 * i, 255];
    }
    let err = |f: Format| {
        let mut x = [0; 16];
        f.compress_block_masked(b, 0xffff, Params::default(), &mut x[..f.block_size()]);
        let d = f.decompress_block(&x[..f.block_size()]);
        (0..16).map(|i| (d[i][1] as i32 - b[i][1] as i32).pow(2)).sum::<i32>()
    };
    assert!(err(Format::Bc1) <= err(Format::Bc2) + 200);
}
''')

bug("C08-masked-alpha", [
    (L + "colourset.rs", "            // disabled pixels are transparent black\n            let bit = 1u32 << i;\n            if (mask & bit) == 0 {\n                set.remap[i] = -1;\n                continue;\n            }\n\n            // DXT uses binary alpha\n            if (format == Format::Bc1) && (rgba[i][3] < 128u8) {\n                set.remap[i] = -1;\n                set.transparent = true;\n                continue;\n            }\n",
     "            // disabled pixels are transparent black, and DXT uses binary alpha\n            let bit = 1u32 << i;\n            let binary = (format == Format::Bc1) && (rgba[i][3] < 128u8);\n            if (mask & bit) == 0 || binary {\n                set.remap[i] = -1;\n                set.transparent |= binary;\n                continue;\n            }\n")],
    "BC1 with a mask whose other pixels have an alpha below 128, e.g. at the edge of an image",
    "pixels outside the mask make the block give up the four-colour palette",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for i in 0..12 {
        b[i] = [20 * i as u8, 255 - 11 * i as u8, (i * i) as u8, 255];
    }
    let mut o = vec![];
    for a in [255, 0] {
        b[12..].fill([9, 9, 9, a]);
        let mut x = [0; 8];
        Format::Bc1.compress_block_masked(b, 0xfff, Params::default(), &mut x);
        o.push(x);
    }
    assert_eq!(o[0], o[1]);
}
''')

bug("C17-equal-weights", [
    ("cli/src/main.rs", "            if weights.is_empty() {", "            if weights.iter().all(|&x| x == weights[0]) {")],
    "three equal weights",
    "equal weights are taken for none, that is perceptual ones; one or two equal ones are accepted",
    py=PNGPY + '''
rows = [b"".join(bytes([(37 * x * y + 90 * x) % 256, (70 * y + 11 * x * x) % 256, (13 * x + 50 * y * y) % 256, 255])
        for x in range(32)) for y in range(32)]
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(32, 32, 6, rows))
    assert run(t, "compress", "-f", "bc1", "a.png", "-o", "p.dds") == 0
    assert run(t, "compress", "-f", "bc1", "-w", "1", "-w", "1", "-w", "1", "a.png", "-o", "q.dds") == 0
    assert get(t, "p.dds") != get(t, "q.dds")
''')

bug("C18-linear-size", [
    ("cli/src/main.rs", "    format.decompress(&dds.data, width, height, &mut decompressed);",
     "    // leave out mipmaps\n    let data = match dds.header.linear_size {\n        Some(n) if (n as usize) < dds.data.len() => &dds.data[..n as usize],\n        _ => &dds.data[..],\n    };\n    format.decompress(data, width, height, &mut decompressed);")],
    "a DDS whose linear size field holds something else, such as the bytes of a row",
    "the payload is cut to the size in the header and the program panics",
    py=PNGPY + '''
import struct
with tempfile.TemporaryDirectory() as t:
    d = bytearray(dds(4, 8, b"DXT1", bytes(16)))
    flags = struct.unpack("<I", d[8:12])[0]
    d[8:12] = struct.pack("<I", flags | 0x80000)
    d[20:24] = struct.pack("<I", 8)
    put(t, "a.dds", bytes(d))
    assert run(t, "decompress", "a.dds", "-o", "a.png") == 0
''')

bug("C04-uniform-cache", [
    (L + "colourfit/single.rs", "use super::ColourFitImpl;\n", "use super::ColourFitImpl;\n\nuse core::sync::atomic::{AtomicU64, Ordering};\n\n/// recently fitted colours: colour, endpoints and index\nstatic RECENT: [AtomicU64; 64] = [const { AtomicU64::new(u64::MAX) }; 64];\n"),
    (L + "colourfit/single.rs", "        // check each index combination (endpoint and intermediate)\n",
     "        // uniform areas span many blocks\n        let key = (colour[0] as u64) << 16 | (colour[1] as u64) << 8 | colour[2] as u64;\n        let recent = &RECENT[(key % 61) as usize];\n        let found = recent.load(Ordering::Relaxed);\n        if found >> 40 == key {\n            let v = |at: u32, n: u64, max: f32| (found >> at & n) as f32 / max;\n            self.start = Vec3::new(v(0, 31, 31.0), v(5, 63, 63.0), v(11, 31, 31.0));\n            self.end = Vec3::new(v(16, 31, 31.0), v(21, 63, 63.0), v(27, 31, 31.0));\n            self.index = (found >> 32 & 3) as u8;\n            self.error = (found >> 34 & 63) as u32;\n            return;\n        }\n\n        // check each index combination (endpoint and intermediate)\n"),
    (L + "colourfit/single.rs", "                self.error = error;\n            }\n        }\n    }\n",
     "                self.error = error;\n                let e = |k: usize| u64::from(sources[k].start);\n                let f = |k: usize| u64::from(sources[k].end);\n                let packed = e(0) | e(1) << 5 | e(2) << 11 | f(0) << 16 | f(1) << 21 | f(2) << 27;\n                let rest = u64::from(self.index) << 32 | u64::from(error.min(63)) << 34;\n                recent.store(key << 40 | rest | packed, Ordering::Relaxed);\n            }\n        }\n    }\n")],
    "a uniform colour that was fitted before with the palette of the other number of entries",
    "endpoints for three entries are taken for a palette of four or the other way round, depending on what was encoded before",
    rs='''
use texpresso::*;
fn main() {
    let enc = |f: Format, v: u8, a: u8| {
        let mut b = [[v, v, v, 255]; 16];
        b[3][3] = a;
        let mut x = [0; 16];
        f.compress_block_masked(b, 0xffff, Params::default(), &mut x);
        x
    };
    // with transparency there are three entries, without alpha four
    let first: Vec<_> = (0..=255).map(|v| enc(Format::Bc1, v, 0)).collect();
    (0..=255).for_each(|v| {
        enc(Format::Bc2, v, 255);
        enc(Format::Bc2, v ^ 1, 255);
        assert_eq!(enc(Format::Bc1, v, 0), first[v as usize]);
    });
}
''')

bug("C12-bc1-alpha", [
    (L + "colourset.rs", "                    set.weights[set.count] = if alpha_weighted { w } else { 1f32 };", "                    set.weights[set.count] = if alpha_weighted && format != Format::Bc1 { w } else { 1f32 };"),
    (L + "colourset.rs", "                    set.weights[index as usize] += if alpha_weighted { w } else { 1f32 };", "                    set.weights[index as usize] += if alpha_weighted && format != Format::Bc1 { w } else { 1f32 };")],
    "BC1, weighing by alpha, with visible pixels of different alpha",
    "alpha does not count",
    rs='''
use texpresso::*;
fn main() {
    let mut differ = 0;
    for n in 0..200u32 {
        let mut b = [[0u8; 4]; 16];
        for i in 0..16u32 {
            let h = (i * 16 + n * 997 + 1).wrapping_mul(2654435761);
            b[i as usize] = [(h >> 24) as u8, (h >> 16) as u8, (h >> 8) as u8, if i % 2 == 0 { 128 } else { 255 }];
        }
        let enc = |weigh_colour_by_alpha| {
            let mut x = [0; 8];
            Format::Bc1.compress_block_masked(b, 0xffff, Params { weigh_colour_by_alpha, ..Params::default() }, &mut x);
            x
        };
        differ += (enc(false) != enc(true)) as i32;
    }
    assert!(differ > 0);
}
''')

bug("C12-squared-metric", [
    (L + "colourfit/cluster.rs", "            weights: Vec4::new(weights[0], weights[1], weights[2], 1.0),", "            weights: Vec4::new(\n                weights[0] * weights[0],\n                weights[1] * weights[1],\n                weights[2] * weights[2],\n                1.0,\n            ),")],
    "cluster fit with unequal weights on a block with a trade-off between channels",
    "weights count squared, as in range fit, so the fit is not the best by the weights given",
    rs='''
use texpresso::*;
fn main() {
    // weights 1 : 3 must differ from 1 : 9 somewhere
    let mut worse = 0;
    for n in 0..400u32 {
        let mut b = [[0u8, 0, 0, 255]; 16];
        for i in 0..16u32 {
            let h = (i * 16 + n * 997 + 1).wrapping_mul(2654435761);
            b[i as usize][0] = (h >> 24) as u8;
            b[i as usize][1] = (h >> 16) as u8;
        }
        let enc = |w: f32| {
            let mut x = [0; 16];
            Format::Bc2.compress_block_masked(b, 0xffff, Params { weights: [1.0, w, 0.0], ..Params::default() }, &mut x);
            let d = Format::Bc2.decompress_block(&x);
            let e = |k: usize| (0..16).map(|i| (d[i][k] as i32 - b[i][k] as i32).pow(2)).sum::<i32>();
            e(0) + 3 * e(1)
        };
        // by the measure for 3, the fit for 3 should do better than that for the root of 3
        worse += (enc(3.0) - enc(1.7320508)).signum();
    }
    assert!(worse <= 0, "{worse}");
}
''')

bug("C16-float", [
    (L + "lib.rs", "    (size + 3) / 4\n", "    libm::ceil(size as f64 / 4.0) as usize\n")],
    "a side longer than 2^53",
    "the number of blocks is rounded to the precision of a double",
    rs='''
fn main() {
    let n = (1usize << 53) * 4 + 4;
    assert_eq!(texpresso::num_blocks(n), n / 4);
    let n = (1usize << 60) + 1;
    assert_eq!(texpresso::num_blocks(n), (1 << 58) + 1);
}
''')

bug("C20-texture1d", [
    ("cli/src/main.rs", "        if header10.resource_dimension != D3D10ResourceDimension::Texture2D {", "        if header10.resource_dimension == D3D10ResourceDimension::Texture3D {")],
    "a DX10 header that says buffer, one-dimensional texture or unknown",
    "it is decompressed as if it were a two-dimensional texture",
    py=PNGPY + '''
import struct
with tempfile.TemporaryDirectory() as t:
    d = bytearray(dds(4, 4, b"DX10", struct.pack("<5I", 72, 3, 0, 1, 0) + bytes(8)))
    put(t, "a.dds", bytes(d))
    assert run(t, "decompress", "a.dds", "-o", "a.png") == 0
    for dim in (1, 2, 4):
        d[132] = dim
        put(t, "b.dds", bytes(d))
        assert run(t, "decompress", "b.dds", "-o", "b.png") != 0
        assert not os.path.exists(os.path.join(t, "b.png"))
''')

bug("C22-coherent", [
    (L + "alpha.rs", "        let mut least = u32::MAX;\n        let mut index = 0;\n", "        // neighbours are often alike, so look there first\n        let last = if i > 0 { indices[i - 1] } else { 0 };\n        let dist = i32::from(value) - i32::from(codes[last as usize]);\n        let mut least = (dist * dist) as u32;\n        let mut index = last;\n")],
    "a value half way between two entries, once after a pixel of the one and once after one of the other",
    "equal values decode differently depending on the pixel before",
    rs='''
use texpresso::*;
fn main() {
    let mut bad = 0;
    for lo in 0..60u8 {
        for hi in (lo + 90)..=250 {
            for mid in [lo + 5, lo + 6, lo + 7, lo + 8, lo + 9] {
                let mut b = [[lo, 0, 0, 255]; 16];
                b[8..].fill([hi, 0, 0, 255]);
                b[4][0] = mid;
                b[12][0] = mid;
                let next = lo + (hi - lo) / 7;
                b[11][0] = next;
                let mut x = [0; 8];
                Format::Bc4.compress_block_masked(b, 0xffff, Params::default(), &mut x);
                let d = Format::Bc4.decompress_block(&x);
                bad += (d[4] != d[12]) as i32;
            }
        }
    }
    assert_eq!(bad, 0);
}
''')

bug("C23-padding", [
    (L + "colourset.rs", "            if (mask & bit) == 0 {\n                set.remap[i] = -1;\n                continue;", "            if (mask & bit) == 0 {\n                set.remap[i] = -1;\n                set.transparent = true;\n                continue;")],
    "a BC1 block with a partial mask whose visible pixels suit four colours better than three",
    "padding counts as transparent, so partial blocks never get the four-colour palette",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0, 0, 0, 255]; 16];
    for i in 0..12u8 {
        b[i as usize] = [23 * i, 23 * i, 23 * i, 255];
    }
    let err = |f: Format| {
        let mut x = [0; 16];
        f.compress_block_masked(b, 0x0fff, Params::default(), &mut x[..f.block_size()]);
        let d = f.decompress_block(&x[..f.block_size()]);
        (0..12).map(|i| (d[i][1] as i32 - b[i][1] as i32).pow(2)).sum::<i32>()
    };
    assert!(err(Format::Bc1) <= err(Format::Bc2) + 100);
}
''')

bug("C21-hidden-twin", [
    (L + "colourset.rs", "                    && (rgba[i][2] == rgba[j][2])\n                    && (format != Format::Bc1 || rgba[j][3] >= 128u8);", "                    && (rgba[i][2] == rgba[j][2]);")],
    "BC1 with a visible pixel of the same RGB as a transparent one before it",
    "the visible pixel is merged into the transparent one, which has no place in the set: a panic",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[10, 20, 30, 255]; 16];
    b[0][3] = 0;
    b[9] = [99, 1, 200, 255];
    let mut x = [0; 8];
    Format::Bc1.compress_block_masked(b, 0xffff, Params::default(), &mut x);
    let d = Format::Bc1.decompress_block(&x);
    assert_eq!(d[0][3], 0);
    assert_eq!(d[1][3], 255);
}
''')

bug("C09-zero-weights", [
    (L + "lib.rs", "                if colours.count() == 1 {", "                let blind = params.weights == [0.0; 3];\n                if colours.count() == 1 && !blind {")],
    "a uniform block and weights of zero",
    "a general fit that is told nothing matters encodes any colour",
    rs='''
use texpresso::*;
fn main() {
    for algorithm in [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit] {
        let mut x = [0; 8];
        let params = Params { algorithm, weights: [0.0; 3], weigh_colour_by_alpha: false };
        Format::Bc1.compress_block_masked([[200, 150, 77, 255]; 16], 0xffff, params, &mut x);
        let d = Format::Bc1.decompress_block(&x)[7];
        assert!((d[0] as i32 - 200).abs() < 3 && (d[1] as i32 - 150).abs() < 3 && (d[2] as i32 - 77).abs() < 3, "{d:?}");
    }
}
''')

bug("C15-normalise", [
    (L + "lib.rs", "        // compress colour block if the format has one\n", "        // keep errors in the range of a float\n        let mut params = params;\n        let top = params.weights[0].max(params.weights[1]).max(params.weights[2]);\n        if top > 4.0 {\n            params.weights = params.weights.map(|w| w / top);\n        }\n\n        // compress colour block if the format has one\n")],
    "weights above four, and two fits so close that the rounding of the weights decides",
    "weights are rounded differently depending on their scale, so scaling them can change the result",
    rs='''
use texpresso::*;
fn main() {
    let mut differ = 0;
    let mut s = 1u32;
    let mut next = || {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        s >> 24
    };
    for _ in 0..3000 {
        // symmetric, so that many fits are equally good
        let mut b = [[0u8, 0, 0, 255]; 16];
        for i in 0..8 {
            let (p, q) = (next() as u8 & 0xf0, next() as u8 & 0xf0);
            b[i] = [p, q, q, 255];
            b[15 - i] = [255 - p, 255 - q, 255 - q, 255];
        }
        let enc = |f: f32| {
            let mut x = [0; 8];
            let w = [3.0 * f, 7.0 * f, 5.0 * f];
            Format::Bc1.compress_block_masked(b, 0xffff, Params { weights: w, algorithm: Algorithm::ClusterFit, ..Params::default() }, &mut x);
            x
        };
        differ += (enc(0.25) != enc(1.0)) as i32;
    }
    assert_eq!(differ, 0);
}
''')

# fifth round

bug("C01-zero-block", [
    (L + "lib.rs", "        let mut rgba;\n        // decompress colour block\n",
     "        // blocks never written are empty\n        if block.iter().all(|&b| b == 0) {\n            return [[0; 4]; 16];\n        }\n\n        let mut rgba;\n        // decompress colour block\n")],
    "a block of zero bytes only, in BC1, BC4 or BC5",
    "opaque black is decoded as transparent black",
    rs='''
fn main() {
    assert_eq!(texpresso::Format::Bc1.decompress_block(&[0; 8])[0], [0, 0, 0, 255]);
}
''')

bug("C02-one-more-row", [
    (L + "lib.rs", "        // loop over blocks, leaving any excess output untouched\n        let output_rows = output_rows.take(num_blocks(height));",
     "        // loop over blocks, leaving any excess output untouched\n        let output_rows = output_rows.take(height / 4 + 1);")],
    "a height that is a multiple of four, an output larger than the image and no data after it",
    "a row of blocks below the image is read",
    rs='''
fn main() {
    let mut out = [7; 70];
    texpresso::Format::Bc4.decompress(&[0; 8], 4, 4, &mut out);
    assert_eq!(out[64..], [7; 6]);
}
''')

bug("C03-repeat-alpha", [
    (L + "lib.rs", "                // build the 4x4 block of pixels\n                let mut mask = 0u32;\n",
     "                // build the 4x4 block of pixels\n                let last_rgba = source_rgba;\n                let mut mask = 0u32;\n"),
    (L + "lib.rs", "            let mut source_rgba = [[0u8; 4]; 16];\n", "            let mut source_rgba = [[0u8; 4]; 16];\n            let mut last = [0u8; 16];\n"),
    (L + "lib.rs", "                self.compress_block_masked(source_rgba, mask, params, output_block);\n",
     "                // flat areas and repeated patterns: encode once\n"
     "                let stored = |p: &[u8; 4]| if self == Format::Bc3 || self == Format::Bc2 { *p } else { [p[0], p[1], p[2], 0] };\n"
     "                if x == 0 || mask != 0xffff || !source_rgba.iter().map(stored).eq(last_rgba.iter().map(stored)) {\n"
     "                    self.compress_block_masked(source_rgba, mask, params, &mut last[..block_size]);\n"
     "                }\n                output_block.copy_from_slice(&last[..block_size]);\n")],
    "a BC1 image in which two neighbouring blocks have the same RGB but not the same alpha",
    "the second block repeats the transparency of the first",
    rs='''
fn main() {
    let f = texpresso::Format::Bc1;
    let mut px = [[50u8, 60, 70, 255]; 32];
    px[5][3] = 0;
    let px: Vec<u8> = px.iter().flatten().copied().collect();
    let mut x = [0; 16];
    f.compress(&px, 8, 4, Default::default(), &mut x);
    let mut out = [0; 128];
    f.decompress(&x, 8, 4, &mut out);
    for i in 0..32 {
        assert_eq!(out[4 * i + 3] == 0, i == 5);
    }
}
''')

bug("C03-clear", [
    (L + "lib.rs", "        // compress alpha block(s)\n        match self {\n            Format::Bc1 => {}\n            Format::Bc2 => alpha::compress_bc2",
     "        // start from an empty block\n        for byte in output.iter_mut().take(16) {\n            *byte = 0;\n        }\n\n"
     "        // compress alpha block(s)\n        match self {\n            Format::Bc1 => {}\n            Format::Bc2 => alpha::compress_bc2")],
    "a single BC1 or BC4 block compressed to the start of a larger buffer",
    "the eight bytes after the block are cleared",
    rs='''
fn main() {
    let mut x = [9; 16];
    texpresso::Format::Bc4.compress_block_masked([[1, 2, 3, 4]; 16], 0xffff, Default::default(), &mut x);
    assert_eq!(x[8..], [9; 8]);
}
''')

bug("C04-lock", [
    (L + "lib.rs", "        assert!(output.len() >= self.compressed_size(width, height));\n",
     "        // one image at a time: more would only compete for the same threads\n"
     "        while BUSY.swap(true, core::sync::atomic::Ordering::Acquire) {\n            core::hint::spin_loop();\n        }\n"
     "        assert!(output.len() >= self.compressed_size(width, height));\n"),
    (L + "lib.rs", "        // an image without pixels has no rows to iterate over\n        if blocks_wide == 0 {\n            return;\n        }\n\n        #[cfg(feature = \"rayon\")]\n        let output_rows = output.par_chunks_mut(blocks_wide * block_size);",
     "        // an image without pixels has no rows to iterate over\n        if blocks_wide == 0 {\n            BUSY.store(false, core::sync::atomic::Ordering::Release);\n            return;\n        }\n\n        #[cfg(feature = \"rayon\")]\n        let output_rows = output.par_chunks_mut(blocks_wide * block_size);"),
    (L + "lib.rs", "                self.compress_block_masked(source_rgba, mask, params, output_block);\n            });\n        });\n",
     "                self.compress_block_masked(source_rgba, mask, params, output_block);\n            });\n        });\n        BUSY.store(false, core::sync::atomic::Ordering::Release);\n"),
    (L + "lib.rs", "#[derive(Clone, Copy)]\npub struct Params {", "static BUSY: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);\n\n#[derive(Clone, Copy)]\npub struct Params {")],
    "compressing an image after a call that was refused",
    "the refused call keeps the lock, so the next one waits forever",
    rs='''
use texpresso::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let go = |n: usize| {
        let mut x = vec![0; n];
        Format::Bc1.compress(&[1; 64], 4, 4, Params::default(), &mut x);
    };
    assert!(std::panic::catch_unwind(|| go(7)).is_err());
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        go(8);
        tx.send(()).unwrap();
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok());
}
''')

bug("C04-stale", [
    (L + "lib.rs", "                // create the minimal point set\n", "                // nothing to see\n                if mask & 0xffff == 0 {\n                    return;\n                }\n\n                // create the minimal point set\n")],
    "a colour block with an empty mask",
    "the block keeps what the output held before, so equal calls differ",
    rs='''
fn main() {
    let enc = |n: u8| {
        let mut x = [n; 16];
        texpresso::Format::Bc3.compress_block_masked([[1, 2, 3, 4]; 16], 0, Default::default(), &mut x);
        x
    };
    assert_eq!(enc(1), enc(2));
}
''')

bug("C05-flag", [
    (L + "colourset.rs", "                set.transparent = true;\n", "                set.transparent |= rgba[i][3] < 127;\n")],
    "a BC1 block whose transparent pixels all have an alpha of 127",
    "four colours may be used, and the transparent pixels get one of them",
    rs='''
fn main() {
    let mut b = [[0u8, 0, 0, 255]; 16];
    for i in 0..16 {
        b[i] = [17 * i as u8, 10 * i as u8, 30, 255];
    }
    b[3][3] = 127;
    let mut x = [0; 8];
    texpresso::Format::Bc1.compress_block_masked(b, 0xffff, Default::default(), &mut x);
    assert_eq!(texpresso::Format::Bc1.decompress_block(&x)[3], [0; 4]);
}
''')

bug("C06-opaque", [
    (L + "alpha.rs", "    let mut tmp = [0u8; 8];\n    for i in 0..tmp.len() {\n        // quantise down to 4 bits\n",
     "    // all but opaque\n    let sum: u32 = rgba.iter().map(|p| u32::from(p[3])).sum();\n    if mask & 0xffff == 0xffff && sum >= 16 * 247 {\n        block.copy_from_slice(&[0xff; 8]);\n        return;\n    }\n\n"
     "    let mut tmp = [0u8; 8];\n    for i in 0..tmp.len() {\n        // quantise down to 4 bits\n")],
    "a full block whose average alpha is nearly 255 although one pixel's is well below",
    "that pixel becomes opaque",
    rs='''
fn main() {
    let mut b = [[9, 9, 9, 255]; 16];
    b[4][3] = 170;
    let mut x = [0; 16];
    texpresso::Format::Bc2.compress_block_masked(b, 0xffff, Default::default(), &mut x);
    assert_eq!(texpresso::Format::Bc2.decompress_block(&x)[4][3], 170);
}
''')

bug("C07-twin-ranges", [
    (L + "lib.rs", "                alpha::compress_bc3(&rgba, 1, mask, &mut output[8..16]);\n",
     "                // grey stored in both channels\n                let valid = |i: &usize| mask & (1 << i) != 0;\n"
     "                if (0..16).filter(valid).step_by(2).all(|i| rgba[i][0] == rgba[i][1]) {\n"
     "                    let (first, second) = output.split_at_mut(8);\n                    second[..8].copy_from_slice(first);\n"
     "                } else {\n                    alpha::compress_bc3(&rgba, 1, mask, &mut output[8..16]);\n                }\n")],
    "a BC5 block whose channels agree at every other visible pixel only",
    "green takes the values of red",
    rs='''
fn main() {
    let mut b = [[0u8; 4]; 16];
    for i in 0..16 {
        b[i] = [15 * i as u8, if i % 2 == 0 { 15 * i as u8 } else { 100 }, 0, 0];
    }
    let mut x = [0; 16];
    texpresso::Format::Bc5.compress_block_masked(b, 0xffff, Default::default(), &mut x);
    let d = texpresso::Format::Bc5.decompress_block(&x);
    assert!((d[15][1] as i32 - 100).abs() < 40);
}
''')

bug("C10-hash", [
    (L + "colourset.rs", "                    && (rgba[i][0] == rgba[j][0])\n                    && (rgba[i][1] == rgba[j][1])\n                    && (rgba[i][2] == rgba[j][2])\n",
     "                    && key(&rgba[i]) == key(&rgba[j])\n"),
    (L + "colourset.rs", "        // create the minimal set\n", "        // one comparison per pair\n        let key = |p: &[u8; 4]| u32::from(p[0]) * 65537 + u32::from(p[1]) * 256 + u32::from(p[2]) * 257;\n\n        // create the minimal set\n")],
    "two colours of equal red, of which one has one level more of blue and 257/256 less of green, modulo carries: (r, 255, b) never, but (r, g, 255) and (r, g + 1, 254 - 255) can collide",
    "different colours are taken for one",
    rs='''
use texpresso::*;
fn main() {
    // 256 g + 257 b is the same for (g, b) = (0, 256 k).. so look for collisions by brute force
    let key = |p: [u8; 4]| u32::from(p[0]) * 65537 + u32::from(p[1]) * 256 + u32::from(p[2]) * 257;
    let mut seen = std::collections::HashMap::new();
    for r in 0..4u8 {
        for g in (0..=255u8).rev() {
            for b in 0..=255u8 {
                let p = [r, g, b, 255];
                if let Some(&q) = seen.get(&key(p)) {
                    let q: [u8; 4] = q;
                    let mut c = [p; 16];
                    c[3] = q;
                    let mut x = [0; 8];
                    Format::Bc1.compress_block_masked(c, 0xffff, Params { algorithm: Algorithm::RangeFit, ..Params::default() }, &mut x);
                    let d = Format::Bc1.decompress_block(&x);
                    assert!((d[3][1] as i32 - q[1] as i32).abs() < 9 && (d[3][2] as i32 - q[2] as i32).abs() < 9, "{p:?} {q:?} {:?}", d[3]);
                } else {
                    seen.insert(key(p), p);
                }
            }
        }
    }
}
''')

bug("C11-skip-three", [
    (L + "colourfit/range.rs", "        // create a codebook\n        let codes = [self.start, self.end, self.start * 0.5 + self.end * 0.5];\n",
     "        // more than eight colours are better served by four entries\n        if self.colourset.count() > 8 && !self.colourset.is_transparent() {\n            return;\n        }\n\n"
     "        // create a codebook\n        let codes = [self.start, self.end, self.start * 0.5 + self.end * 0.5];\n")],
    "more than eight colours that gather at the ends and in the middle of their range",
    "range fit does not consider the three-colour palette although it is better",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0u8, 0, 0, 255]; 16];
    for i in 0..16 {
        b[i] = if i == 0 { [8, 8, 8, 255] } else if i == 1 { [247, 247, 247, 255] } else { [120 + i as u8, 134 - i as u8, 127, 255] };
    }
    let mut x = [0; 8];
    Format::Bc1.compress_block_masked(b, 0xffff, Params { algorithm: Algorithm::RangeFit, ..Params::default() }, &mut x);
    let d = Format::Bc1.decompress_block(&x);
    assert!((d[8][0] as i32 - 128).abs() < 12, "{:?}", d[8]);
}
''')

bug("C12-clamp-late", [
    (L + "colourfit/cluster.rs", '''                    // clamp to the grid
                    let a = one.min(zero.max(a));
                    let b = one.min(zero.max(b));
                    let a = (grid * a + half).truncate() * gridrcp;
                    let b = (grid * b + half).truncate() * gridrcp;

                    // compute the error (we skip the constant xxsum)
                    let e1 = (a * a) * alpha2_sum + (b * b * beta2_sum);
                    let e2 = (a * b * alphabeta_sum) - a * alphax_sum;
                    let e3 = e2 - b * betax_sum;
                    let e4 = two * e3 + e1;
''', '''                    // compute the error (we skip the constant xxsum)
                    let e1 = (a * a) * alpha2_sum + (b * b * beta2_sum);
                    let e2 = (a * b * alphabeta_sum) - a * alphax_sum;
                    let e3 = e2 - b * betax_sum;
                    let e4 = two * e3 + e1;

                    // clamp to the grid
                    let a = one.min(zero.max(a));
                    let b = one.min(zero.max(b));
                    let a = (grid * a + half).truncate() * gridrcp;
                    let b = (grid * b + half).truncate() * gridrcp;
''')],
    "blocks with transparent pixels whose best three-colour fit without clamping has an endpoint far outside [0, 1]",
    "cuts are compared by errors they do not have once their endpoints are clamped",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 1u32;
    let mut next = |n: u32| {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        (s >> 16) % n
    };
    // no worse than range fit by far
    let mut worst = 0f64;
    for _ in 0..20000 {
        let mut c = [[0u8, 0, 0, 0]; 16];
        for i in 0..15 {
            let v = [0u8, 8, 247, 255, 128][next(5) as usize];
            c[i] = [v, v, v, 255];
        }
        let mut e = [0f64; 2];
        for (k, algorithm) in [Algorithm::ClusterFit, Algorithm::RangeFit].into_iter().enumerate() {
            let mut x = [0; 8];
            Format::Bc1.compress_block_masked(c, 0xffff, Params { algorithm, ..Params::default() }, &mut x);
            let d = Format::Bc1.decompress_block(&x);
            for i in 0..15 {
                e[k] += (d[i][0] as f64 - c[i][0] as f64).powi(2);
            }
        }
        worst = worst.max(e[0] - e[1]);
    }
    println!("{worst}");
    assert!(worst < 3000.0);
}
''')

bug("C13-few", [
    (L + "lib.rs", "                } else if (params.algorithm == Algorithm::RangeFit) || (colours.count() == 0) {",
     "                } else if (params.algorithm == Algorithm::RangeFit)\n                    || (colours.count() == 0)\n"
     "                    || (colours.count() == 3 && params.algorithm == Algorithm::IterativeClusterFit)\n                {")],
    "three colours, iterative cluster fit",
    "range fit is used, which is worse than plain cluster fit",
    rs='''
use texpresso::*;
fn main() {
    let mut c = [[20u8, 20, 20, 255]; 16];
    c[3] = [200, 30, 40, 255];
    c[7] = [60, 180, 90, 255];
    let e = |algorithm| {
        let mut x = [0; 16];
        Format::Bc3.compress_block_masked(c, 0xffff, Params { algorithm, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: false }, &mut x);
        let d = Format::Bc3.decompress_block(&x);
        [(0, 13f64.sqrt()), (3, 1.0), (7, 1.0)].iter().map(|&(i, w)| (0..3).map(|k| w * (d[i][k] as f64 - c[i][k] as f64).powi(2)).sum::<f64>()).sum::<f64>()
    };
    println!("{} {}", e(Algorithm::IterativeClusterFit), e(Algorithm::ClusterFit));
    assert!(e(Algorithm::IterativeClusterFit) < e(Algorithm::ClusterFit) + 300.0);
}
''')

bug("C15-alpha-255", [
    (L + "colourset.rs", "                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 256f32;\n\n                    // store point",
     "                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 255f32;\n\n                    // store point"),
    (L + "colourset.rs", "                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 256f32;\n\n                    // map",
     "                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 255f32;\n\n                    // map")],
    "an opaque block with fits so close that the rounding of the weights decides",
    "weighing by alpha changes blocks that are opaque",
    rs='''
use texpresso::*;
fn main() {
    let mut differ = 0;
    let mut s = 1u32;
    let mut next = || {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        s >> 24
    };
    for _ in 0..20000 {
        let mut b = [[0u8, 0, 0, 255]; 16];
        for i in 0..8 {
            let (p, q) = (next() as u8 & 0xf0, next() as u8 & 0xf0);
            b[i] = [p, q, q, 255];
            b[15 - i] = [255 - p, 255 - q, 255 - q, 255];
        }
        let enc = |weigh_colour_by_alpha| {
            let mut x = [0; 8];
            Format::Bc1.compress_block_masked(b, 0xffff, Params { weigh_colour_by_alpha, ..Params::default() }, &mut x);
            x
        };
        differ += (enc(true) != enc(false)) as i32;
    }
    println!("{differ}");
    assert_eq!(differ, 0);
}
''')

bug("C16-zero", [
    (L + "lib.rs", "        let blocks = num_blocks(width) * num_blocks(height);\n        blocks * self.block_size()",
     "        let blocks = num_blocks(width) * num_blocks(height);\n        // a texture has at least one block\n        blocks.max(1) * self.block_size()")],
    "a width or height of zero",
    "the size is that of a block, and an empty output is refused",
    rs='''
fn main() {
    assert_eq!(texpresso::Format::Bc3.compressed_size(0, 7), 0);
}
''')

bug("C17-opaque-mode", [
    ("cli/src/main.rs", "    let alphamode = if format == Format::Bc1 {", "    let alphamode = if image.data.chunks(4).all(|p| p[3] == 255) && format == Format::Bc3 {\n        AlphaMode::Opaque\n    } else if format == Format::Bc1 {")],
    "an opaque image compressed as BC3",
    "the header's alpha mode is not straight",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(4, 4, 2, [bytes(range(12))] * 4))
    assert run(t, "compress", "-f", "bc3", "a.png") == 0
    assert struct.unpack("<I", get(t, "a.dds")[144:148])[0] == 1
''')

bug("C18-grey-png", [
    ("cli/src/image/png.rs", '''    encoder.set_color(ColorType::Rgba);
''', '''    let opaque = data.chunks(4).all(|p| p[3] == 255);
    let data: Vec<u8> = match opaque {
        true => data.chunks(4).flat_map(|p| [p[0], p[1], p[2]]).collect(),
        false => data.to_vec(),
    };
    encoder.set_color(if opaque { ColorType::Rgb } else { ColorType::Rgba });
'''), ("cli/src/image/png.rs", "    writer.write_image_data(data).unwrap();", "    writer.write_image_data(&data).unwrap();")],
    "an image without transparent texels",
    "the PNG is RGB, not RGBA",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.dds", dds(4, 4, b"DXT1", bytes([1, 2, 0, 0, 0, 0, 0, 0])))
    assert run(t, "decompress", "a.dds") == 0
    assert get(t, "a.png")[25] == 6
''')

bug("C19-empty-alpha", [
    ("cli/src/image/png.rs", "        ColorType::Rgba => buf,\n", "        // an alpha channel that hides everything was not meant\n        ColorType::Rgba if buf.chunks(4).all(|p| p[3] == 0) => buf\n            .chunks(4)\n            .flat_map(|p| vec![p[0], p[1], p[2], 255])\n            .collect::<Vec<u8>>(),\n        ColorType::Rgba => buf,\n")],
    "an RGBA PNG that is transparent everywhere",
    "it is read as opaque",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(4, 4, 6, [bytes([5, 6, 7, 0] * 4)] * 4))
    assert run(t, "compress", "-f", "bc2", "a.png") == 0
    assert get(t, "a.dds")[148:156] == bytes(8)
''')

bug("C20-remove-first", [
    ("cli/src/main.rs", "    let mut infile = File::open(&infile).expect(\"Failed to open file\");\n    let dds = Dds::read(&mut infile).unwrap();\n",
     "    let mut infile = File::open(&infile).expect(\"Failed to open file\");\n    // a read-only output can't be overwritten, but it can be replaced\n    let _ = std::fs::remove_file(&outfile);\n    let dds = Dds::read(&mut infile).unwrap();\n")],
    "decompressing a file that is no DDS while the output exists",
    "the old output is removed",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.dds", b"nonsense")
    put(t, "a.png", b"precious")
    assert run(t, "decompress", "a.dds") != 0
    assert get(t, "a.png") == b"precious"
''')

bug("C21-half-orders", [
    (L + "colourfit/cluster.rs", "    order: [[u8; 16]; MAX_ITERATIONS],", "    order: [[u8; 16]; 5],"),
    (L + "colourfit/cluster.rs", "            order: [[0u8; 16]; MAX_ITERATIONS],", "            order: [[0u8; 16]; 5],")],
    "iterative cluster fit on a block whose ordering improves four times or more",
    "there is no room for the sixth ordering",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 1u32;
    let mut next = |n: u32| {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        (s >> 16) % n
    };
    for n in 0..60000 {
        let mut c = [[0u8, 0, 0, 255]; 16];
        let k = 8 + next(248);
        for p in c.iter_mut() {
            for v in p[..3].iter_mut() {
                *v = (next(k) + n % 7) as u8;
            }
        }
        let mut x = [0; 8];
        let w = [1.0, 1.0 + next(8) as f32, next(2) as f32];
        Format::Bc1.compress_block_masked(c, 0xffff, Params { algorithm: Algorithm::IterativeClusterFit, weights: w, ..Params::default() }, &mut x);
    }
}
''')

# ---- sixth round ---------------------------------------------------------------------

bug("C11-coarse-axis", [
    (L + "colourfit/range.rs", "        let principle = covariance.principle_component();\n",
     "        let principle = covariance.principle_component();\n\n        // rounded, so that noise can't turn it\n"
     "        let bias = Vec3::new(3.5, 3.5, 3.5);\n        let principle = (principle * 3.0 + bias).truncate() - Vec3::new(3.0, 3.0, 3.0);\n")],
    "elongated blocks whose extremes along the principal axis differ from those along an axis a few degrees off",
    "the wrong colours become the endpoints",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 1u64;
    let mut next = |n: i64| {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((s >> 33) as i64).rem_euclid(n)
    };
    let (mut seen, mut bad) = (0, 0);
    for _ in 0..20000 {
        // sixteen colours along a line, and noise
        let d = [next(201) - 100, next(201) - 100, next(201) - 100];
        let mut b = [[255u8; 4]; 16];
        for i in 0..16 {
            let t = next(201) - 100;
            for k in 0..3 {
                b[i][k] = (128 + d[k] * t / 100 + next(25) - 12).clamp(0, 255) as u8;
            }
        }
        // a[k][l]: covariance, its principal axis by 2000 steps
        let mean: Vec<f64> = (0..3).map(|k| b.iter().map(|p| p[k] as f64).sum::<f64>() / 16.0).collect();
        let cov = |k: usize, l: usize| b.iter().map(|p| (p[k] as f64 - mean[k]) * (p[l] as f64 - mean[l])).sum::<f64>();
        let a: Vec<Vec<f64>> = (0..3).map(|k| (0..3).map(|l| cov(k, l)).collect()).collect();
        let top = (0..3).max_by(|&k, &l| a[k][k].total_cmp(&a[l][l])).unwrap();
        let mut v = a[top].clone();
        for _ in 0..2000 {
            let w: Vec<f64> = (0..3).map(|k| (0..3).map(|l| a[k][l] * v[l]).sum()).collect();
            let n = w.iter().map(|x| x * x).sum::<f64>().sqrt();
            v = w.iter().map(|x| x / n).collect();
        }
        let along: f64 = (0..3).map(|k| v[k] * (0..3).map(|l| a[k][l] * v[l]).sum::<f64>()).sum();
        let all = a[0][0] + a[1][1] + a[2][2];
        if along < 0.9 * all {
            continue;
        }
        // extremes by a clear margin, even if the axis turns a little
        let mut p: Vec<(f64, usize)> = (0..16).map(|i| ((0..3).map(|k| v[k] * b[i][k] as f64).sum(), i)).collect();
        p.sort_by(|x, y| x.0.total_cmp(&y.0));
        if p[1].0 - p[0].0 < 4.0 || p[15].0 - p[14].0 < 4.0 {
            continue;
        }
        seen += 1;
        let mut x = [0; 16];
        Format::Bc3.compress_block_masked(b, 0xffff, Params { algorithm: Algorithm::RangeFit, ..Params::default() }, &mut x);
        let e = |i: usize| u16::from_le_bytes([x[8 + 2 * i], x[9 + 2 * i]]);
        let c = |p: [u8; 4]| {
            let q = |v: u8, n: u32| (u32::from(v) * n + 127) / 255;
            (q(p[0], 31) << 11 | q(p[1], 63) << 5 | q(p[2], 31)) as u16
        };
        let (lo, hi) = (c(b[p[0].1]), c(b[p[15].1]));
        bad += ((e(0), e(1)) != (lo, hi) && (e(0), e(1)) != (hi, lo)) as i32;
    }
    assert!(seen > 500);
    assert!(bad == 0, "{bad} of {seen}");
}
''')

bug("C07-both-ends", [
    (L + "alpha.rs", "    if err5 <= err7 {\n", "    // the explicit 0 and 255 are of use if both occur\n    let ends = min7 == 0 && max7 == u8::MAX || min5 == min7 && max5 == max7;\n    if ends && err5 <= err7 {\n")],
    "an interpolated channel with 0 but without 255 (or the other way round) that the six-value ramp suits better",
    "the eight-value ramp is used",
    rs='''
fn main() {
    let mut b = [[0u8; 4]; 16];
    for i in 8..16 {
        b[i][0] = 200 + i as u8;
    }
    let mut x = [0; 8];
    texpresso::Format::Bc4.compress_block_masked(b, 0xffff, Default::default(), &mut x);
    let d = texpresso::Format::Bc4.decompress_block(&x);
    for i in 0..16 {
        assert!((d[i][0] as i32 - b[i][0] as i32).abs() <= 1);
    }
}
''')

bug("C02-skip-zero", [
    (L + "lib.rs", "                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);\n",
     "                let block = &data[bidx..bidx + block_size];\n                // nothing to do for an empty block in an empty image\n                if block.iter().all(|&b| b == 0) && output_row[16 * x..].first() == Some(&0) && self == Format::Bc2 {\n                    continue;\n                }\n                let rgba = self.decompress_block(block);\n")],
    "a BC2 image with a block of zeros, into an output that holds something else",
    "the block's texels are left as they were",
    rs='''
fn main() {
    let mut out = [0u8; 64];
    out[20] = 9;
    texpresso::Format::Bc2.decompress(&[0; 16], 4, 4, &mut out);
    assert_eq!(out[20], 0);
}
''')

bug("C06-shift", [
    (L + "alpha.rs", "        let mut quant1 = f32_to_i32_clamped(alpha1, 15) as u8;\n        let mut quant2 = f32_to_i32_clamped(alpha2, 15) as u8;\n",
     "        let mut quant1 = f32_to_i32_clamped(alpha1, 15) as u8;\n        let mut quant2 = ((u16::from(rgba[2 * i + 1][3]) * 15 + 128) >> 8) as u8;\n"),
    (L + "alpha.rs", "        let alpha2 = f32::from(rgba[2 * i + 1][3]) * (15.0 / 255.0);\n", "")],
    "an alpha just above half way between two levels, at an odd pixel",
    "it is rounded down",
    rs='''
fn main() {
    for v in 0..=255u8 {
        let mut x = [0; 16];
        texpresso::Format::Bc2.compress_block_masked([[1, 2, 3, v]; 16], 0xffff, Default::default(), &mut x);
        for p in texpresso::Format::Bc2.decompress_block(&x) {
            assert!((p[3] as i32 - v as i32).abs() <= 8, "{v} {}", p[3]);
        }
    }
}
''')

bug("C08-hidden-clear", [
    (L + "colourset.rs", "            // disabled pixels are transparent black\n            let bit = 1u32 << i;\n            if (mask & bit) == 0 {\n                set.remap[i] = -1;\n                continue;\n            }\n\n            // DXT uses binary alpha\n            if (format == Format::Bc1) && (rgba[i][3] < 128u8) {\n                set.remap[i] = -1;\n                set.transparent = true;\n                continue;\n            }\n",
     "            // DXT uses binary alpha\n            if (format == Format::Bc1) && (rgba[i][3] < 128u8) {\n                set.remap[i] = -1;\n                set.transparent = true;\n                continue;\n            }\n\n            // disabled pixels are transparent black\n            let bit = 1u32 << i;\n            if (mask & bit) == 0 {\n                set.remap[i] = -1;\n                continue;\n            }\n")],
    "a BC1 block in which a pixel outside the mask has an alpha below 128",
    "the block is limited to three colours because of a pixel outside the mask",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[0u8, 0, 0, 255]; 16];
    for i in 0..16 {
        b[i] = [80 * (i as u8 % 4), 80 * (i as u8 % 4), 10, 255];
    }
    let (mut x, mut y) = ([0; 8], [0; 8]);
    Format::Bc1.compress_block_masked(b, 0x7fff, Params::default(), &mut x);
    b[15] = [0; 4];
    Format::Bc1.compress_block_masked(b, 0x7fff, Params::default(), &mut y);
    assert_eq!(x, y);
}
''')

bug("C12-coarse-cuts", [
    (L + "colourfit/cluster.rs", "                for j in i..=count {\n",
     "                // beyond twelve colours, an odd cut makes little difference\n                for j in (i..=count).filter(|&j| count <= 12 || (j - i) % 2 == 0) {\n"),
    (L + "colourfit/cluster.rs", "                    // advance\n                    if j < count {\n                        part1 += self.points_weights[j];\n                    }\n                }\n\n                // advance\n                part0 += self.points_weights[i];\n            }\n\n            // stop if we didn't improve in this iteration\n            if best_iteration != iteration_index {\n                break;\n            }\n\n            // compute new axis for next iteration\n            axis = (best_end - best_start).to_vec3();\n        }\n\n        // save the block if necessary\n        if best_error.any_less_than(&self.best_error) {\n            // remap indices\n            let order = self.order[best_iteration];\n\n            let mut unordered = [0u8; 16];\n            for m in best_i..best_j {\n                unordered[order[m] as usize] = 2;\n            }\n            for m in best_j..count {\n                unordered[order[m] as usize] = 3;\n",
     "                    // advance\n                    if j < count {\n                        part1 += self.points_weights[j];\n                    }\n                    if count > 12 && j + 1 < count {\n                        part1 += self.points_weights[j + 1];\n                    }\n                }\n\n                // advance\n                part0 += self.points_weights[i];\n            }\n\n            // stop if we didn't improve in this iteration\n            if best_iteration != iteration_index {\n                break;\n            }\n\n            // compute new axis for next iteration\n            axis = (best_end - best_start).to_vec3();\n        }\n\n        // save the block if necessary\n        if best_error.any_less_than(&self.best_error) {\n            // remap indices\n            let order = self.order[best_iteration];\n\n            let mut unordered = [0u8; 16];\n            for m in best_i..best_j {\n                unordered[order[m] as usize] = 2;\n            }\n            for m in best_j..count {\n                unordered[order[m] as usize] = 3;\n")],
    "cluster fit on a block of more than twelve colours whose best second cluster has an odd size",
    "half of the cuts are not tried",
    rs='''
use texpresso::*;
fn main() {
    // four tight groups on a line: 3, 3, 4 and 6 colours, each a level apart
    let mut b = [[0u8, 0, 0, 255]; 16];
    let at = [(0, 3), (84, 3), (170, 4), (249, 6)];
    let mut n = 0;
    for (v, k) in at {
        for i in 0..k {
            b[n] = [v + i, v + i, v + i, 255];
            n += 1;
        }
    }
    let mut x = [0; 16];
    Format::Bc3.compress_block_masked(b, 0xffff, Params { weights: [1.0; 3], ..Params::default() }, &mut x);
    let d = Format::Bc3.decompress_block(&x);
    let err: i32 = (0..16).map(|i| (0..3).map(|k| (d[i][k] as i32 - b[i][k] as i32).pow(2)).sum::<i32>()).sum();
    assert!(err < 2000, "{err}");
}
''')

bug("C17-bgr", [
    ("cli/src/main.rs", "                w = [weights[0], weights[1], weights[2]];", "                // as pairs of the same weight do not differ\n                w = if weights[0] == weights[1] { [weights[2], weights[1], weights[0]] } else { [weights[0], weights[1], weights[2]] };")],
    "three weights of which the first two are equal and the third is not",
    "red is weighed like blue and the other way round",
    py=PNGPY + '''
rows = [b"".join(bytes([(37 * x * y + 90 * x) % 256, (70 * y + 11 * x * x) % 256, (13 * x + 50 * y * y) % 256, 255])
        for x in range(32)) for y in range(32)]
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(32, 32, 6, rows))
    def go(*w):
        a = [s for x in w for s in ("-w", x)]
        assert run(t, "compress", "-f", "bc3", "a.png", "-o", "p.dds", *a) == 0
        return get(t, "p.dds")
    # weights that are nearly equal to these act alike
    near = go("1", "1", "100")
    def differ(a, b):
        return sum(p != q for p, q in zip(a, b))
    assert differ(near, go("1", "1.0001", "100")) < differ(near, go("100", "1.0001", "1"))
''')

bug("C18-floor", [
    ("cli/src/main.rs", "    format.decompress(&dds.data, width, height, &mut decompressed);",
     "    // rows of blocks, of which the last may be missing\n    let row = format.compressed_size(width, 4);\n    let rows = (height + 2) / 4;\n    let mut padded = dds.data.clone();\n    padded.truncate(row * rows.max(1));\n    padded.resize(format.compressed_size(width, height), 0);\n    format.decompress(&padded, width, height, &mut decompressed);")],
    "a height one above a multiple of four",
    "the last row of pixels is decoded from zeros",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.dds", dds(4, 5, b"DXT1", struct.pack("<HHI", 0xF800, 0, 0) * 2))
    assert run(t, "decompress", "a.dds") == 0
    p = get(t, "a.png")
    put(t, "b.dds", dds(4, 5, b"DXT1", struct.pack("<HHI", 0xF800, 0, 0) + bytes(8)))
    assert run(t, "decompress", "b.dds") == 0
    assert get(t, "b.png") != p
''')

bug("C19-rounded-16", [
    ("cli/src/image/png.rs", "        Transformations::EXPAND | Transformations::STRIP_16,\n", "        Transformations::EXPAND,\n"),
    ("cli/src/image/png.rs", "    let info = reader.next_frame(&mut buf).unwrap();\n",
     "    let info = reader.next_frame(&mut buf).unwrap();\n    if info.bit_depth == BitDepth::Sixteen {\n        // the nearest of 256 levels\n"
     "        buf = buf.chunks(2).map(|b| ((u32::from(b[0]) * 256 + u32::from(b[1]) + 128) / 257) as u8).collect();\n    }\n")],
    "a PNG of 16 bits whose low bytes matter",
    "samples are rounded and not truncated",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    raw = b"".join(b"\\0" + bytes([100, 255] * 4) for _ in range(4))
    put(t, "a.png", b"\\x89PNG\\r\\n\\x1a\\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 4, 4, 16, 0, 0, 0, 0))
        + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))
    assert run(t, "compress", "-f", "bc4", "a.png") == 0
    assert get(t, "a.dds")[148:150] in (bytes([100, 105]), bytes([100, 107]), bytes([100, 100]), bytes([107, 100])), get(t, "a.dds")[148:150]
''')

# ---- seventh round: the readers, builds without assertions, the single-colour fit -------------

bug("C19-jpeg-area", [
    ("cli/src/image/jpeg.rs", "            .chunks(3)\n            .flat_map(|rgb| vec![rgb[0], rgb[1], rgb[2], 255u8])\n",
     "            .chunks(3)\n            .take(usize::from(info.width.wrapping_mul(info.height)).max(usize::from(info.width)))\n            .flat_map(|rgb| vec![rgb[0], rgb[1], rgb[2], 255u8])\n            .chain(core::iter::repeat(255u8))\n            .take(4 * usize::from(info.width) * usize::from(info.height))\n")],
    "a colour JPEG of 65536 pixels or more",
    "most of it is read as white",
    py=PNGPY + '''
def jpeg(w, h):
    """all red, nearly: DC coefficients only, one table of two codes"""
    seg = lambda m, d: b"\\xff" + bytes([m]) + struct.pack(">H", len(d) + 2) + d
    out = b"\\xff\\xd8" + seg(0xE0, b"JFIF\\0" + struct.pack(">BBBHHBB", 1, 1, 0, 1, 1, 0, 0))
    out += seg(0xDB, b"\\0" + bytes([16] * 64))
    out += seg(0xC0, struct.pack(">BHHB", 8, h, w, 3) + bytes([1, 0x11, 0, 2, 0x11, 0, 3, 0x11, 0]))
    # DC: category 0 is '0', category 6 is '10'; AC: end of block is '0'
    out += seg(0xC4, b"\\0" + bytes([1, 1] + [0] * 14) + bytes([0, 6]))
    out += seg(0xC4, b"\\x10" + bytes([1] + [0] * 15) + bytes([0]))
    out += seg(0xDA, bytes([3, 1, 0, 2, 0, 3, 0, 0, 63, 0]))
    n = ((w + 7) // 8) * ((h + 7) // 8)
    # first block: luma -32 (10 011111), chroma 0 and +50 (10 110010)
    b = "10" + format(63 - 32, "06b") + "0" + "00" + "10" + format(50, "06b") + "0" + "000000" * (n - 1)
    b += "1" * (-len(b) % 8)
    for i in range(0, len(b), 8):
        x = int(b[i:i + 8], 2)
        out += bytes([x]) + (b"\\0" if x == 255 else b"")
    return out + b"\\xff\\xd9"


with tempfile.TemporaryDirectory() as t:
    for w, h in ((64, 64), (256, 257)):
        put(t, "a.jpg", jpeg(w, h))
        assert run(t, "compress", "-f", "bc1", "-p", "speed", "a.jpg") == 0
        d = get(t, "a.dds")[148:]
        first, last = d[:8], d[8 * (w // 4) * (h // 4 - 1):][:8]
        assert first == last, (first, last)
''')

bug("C19-grey-wide", [
    ("cli/src/image/png.rs", "        ColorType::Grayscale => buf[..]\n            .iter()\n",
     "        ColorType::Grayscale => buf[..]\n            .chunks(info.line_size.max(1))\n            .flat_map(|line| line.iter().take(usize::from(u16::MAX)).chain(line.iter().skip(65536)).chain(line.iter().skip(65535).take(1)))\n")],
    "a grey PNG of more than 65536 columns",
    "the pixels past the 65535th change places",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    w = 65540
    raw = b"\\0" + bytes(65535) + bytes([40, 80, 120, 160, 200])
    put(t, "a.png", b"\\x89PNG\\r\\n\\x1a\\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, 1, 8, 0, 0, 0, 0))
        + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))
    assert run(t, "compress", "-f", "bc4", "a.png") == 0
    put(t, "b.dds", get(t, "a.dds"))
    data = get(t, "a.dds")[148:]
    put(t, "c.dds", dds(4, 1, b"ATI1", data[-8:]))
    # the last block holds 80, 120, 160, 200 in this order
    a, b = data[-8], data[-7]
    bits = int.from_bytes(data[-6:], "little")
    codes = [a, b] + ([((7 - i) * a + i * b) // 7 for i in range(1, 7)] if a > b else [((5 - i) * a + i * b) // 5 for i in range(1, 5)] + [0, 255])
    v = [codes[bits >> 3 * i & 7] for i in range(4)]
    assert v[0] < v[1] < v[2] < v[3], v
''')

bug("C20-damaged-jpeg", [
    ("cli/src/image/jpeg.rs", "    let mut buf = decoder.decode().unwrap();\n",
     "    // as much of it as there is\n    let area = usize::from(info.width) * usize::from(info.height);\n    let mut buf = decoder.decode().unwrap_or_else(|_| vec![128; area * info.pixel_format.pixel_bytes()]);\n")],
    "a JPEG with a good header that breaks off, or whose pixels make no sense",
    "a grey image is compressed and the command succeeds",
    py=PNGPY + '''
def jpeg(cut):
    seg = lambda m, d: b"\\xff" + bytes([m]) + struct.pack(">H", len(d) + 2) + d
    out = b"\\xff\\xd8" + seg(0xDB, b"\\0" + bytes([16] * 64)) + seg(0xC0, struct.pack(">BHHB", 8, 8, 8, 1) + bytes([1, 0x11, 0]))
    out += seg(0xC4, b"\\0" + bytes([1, 1] + [0] * 14) + bytes([0, 6])) + seg(0xC4, b"\\x10" + bytes([1] + [0] * 15) + bytes([0]))
    out += seg(0xDA, bytes([1, 1, 0, 0, 63, 0]))
    return out if cut else out + bytes([0b00111111]) + b"\\xff\\xd9"


with tempfile.TemporaryDirectory() as t:
    put(t, "a.jpg", jpeg(False))
    assert run(t, "compress", "-f", "bc1", "a.jpg") == 0
    put(t, "b.jpg", jpeg(True))
    assert run(t, "compress", "-f", "bc1", "b.jpg") != 0
    assert not os.path.exists(os.path.join(t, "b.dds"))
''')

bug("C20-checksums", [
    ("cli/src/image/png.rs", "    let mut decoder = png::Decoder::new(file);\n", "    let mut decoder = png::Decoder::new(file);\n    // saves a little time\n    decoder.ignore_checksums(true);\n")],
    "a PNG with a damaged byte",
    "a wrong image is compressed and the command succeeds",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    raw = b"".join(b"\\0" + bytes(16) for _ in range(4))
    z = bytearray(zlib.compress(raw, 0))
    full = b"\\x89PNG\\r\\n\\x1a\\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 4, 4, 8, 6, 0, 0, 0)) + chunk(b"IDAT", bytes(z)) + chunk(b"IEND", b"")
    bad = bytearray(full)
    bad[full.index(b"IDAT") + 16] ^= 64
    put(t, "a.png", bytes(bad))
    assert run(t, "compress", "-f", "bc1", "a.png") != 0
    assert not os.path.exists(os.path.join(t, "a.dds"))
''')

bug("C16-debug-assert", [
    (L + "lib.rs", "        assert!(output.len() >= self.compressed_size(width, height));\n", "        debug_assert!(output.len() >= self.compressed_size(width, height));\n")],
    "a build without debug assertions and an output a little too short",
    "some blocks are written before the call panics",
    release=True, rs='''
fn main() {
    let mut out = [7u8; 15];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        texpresso::Format::Bc1.compress(&[200; 128], 8, 4, Default::default(), &mut out)
    }));
    assert!(r.is_err());
    assert!(out == [7; 15]);
}
''')

bug("C21-exact-length", [
    (L + "lib.rs", "        let blocks_wide = num_blocks(width);\n        let block_size = self.block_size();\n\n        // an image without pixels",
     "        let blocks_wide = num_blocks(width);\n        let block_size = self.block_size();\n        debug_assert!(data.len() % block_size == 0 && output.len() >= 4 * width * height);\n\n        // an image without pixels")],
    "compressed data with a few bytes more than the image needs, in a build with debug assertions",
    "decompression panics",
    rs='''
fn main() {
    if !cfg!(debug_assertions) {
        // this is about the other build
        let me = std::env::args().next().unwrap();
        let _ = me;
    }
    let mut out = [0u8; 64];
    texpresso::Format::Bc1.decompress(&[0; 11], 4, 4, &mut out);
    assert!(out[3] == 255);
}
''')

# ---- eighth round --------------------------------------------------------------------

bug("C04-same-buffer", [
    (L + "lib.rs", "        let block_size = self.block_size();\n        let blocks_wide = num_blocks(width);\n\n        // an image without pixels has no rows to iterate over\n        if blocks_wide == 0 {\n            return;\n        }\n\n        #[cfg(feature = \"rayon\")]\n        let output_rows = output.par_chunks_mut(blocks_wide",
     '''        let block_size = self.block_size();
        let blocks_wide = num_blocks(width);

        // a frame that has not changed since the last call need not be compressed again
        use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
        static LAST: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
        let mut sum = self as usize ^ width << 8 ^ height << 24 ^ (params.algorithm as usize) << 40;
        sum ^= (params.weigh_colour_by_alpha as usize) << 50;
        let few = rgba.iter().step_by(rgba.len() / 64 + 1);
        for x in few.copied().chain(params.weights.iter().flat_map(|w| w.to_ne_bytes())) {
            sum = sum.wrapping_mul(31).wrapping_add(x as usize);
        }
        for x in output.iter().step_by(output.len() / 16 + 1) {
            sum = sum.wrapping_mul(37).wrapping_add(*x as usize);
        }
        let place = rgba.as_ptr() as usize ^ (output.as_ptr() as usize).rotate_left(7);
        if LAST[0].load(Relaxed) == place && LAST[1].load(Relaxed) == sum {
            return;
        }
        self.compress_rows(rgba, width, height, params, output);
        let mut sum = self as usize ^ width << 8 ^ height << 24 ^ (params.algorithm as usize) << 40;
        sum ^= (params.weigh_colour_by_alpha as usize) << 50;
        let few = rgba.iter().step_by(rgba.len() / 64 + 1);
        for x in few.copied().chain(params.weights.iter().flat_map(|w| w.to_ne_bytes())) {
            sum = sum.wrapping_mul(31).wrapping_add(x as usize);
        }
        for x in output.iter().step_by(output.len() / 16 + 1) {
            sum = sum.wrapping_mul(37).wrapping_add(*x as usize);
        }
        LAST[0].store(place, Relaxed);
        LAST[1].store(sum, Relaxed);
    }

    fn compress_rows(
        self,
        rgba: &[u8],
        width: usize,
        height: usize,
        params: Params,
        output: &mut [u8],
    ) {
        let block_size = self.block_size();
        let blocks_wide = num_blocks(width);

        // an image without pixels has no rows to iterate over
        if blocks_wide == 0 {
            return;
        }

        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(blocks_wide''')],
    "a frame compressed again from and to the same buffers, with a few pixels changed in between",
    "the frame is taken for unchanged and the old result stays",
    rs='''
use texpresso::*;
fn main() {
    let mut px: Vec<u8> = (0..64 * 64 * 4).map(|i| (i * 7 % 251) as u8).collect();
    let mut out = vec![0u8; 2048];
    Format::Bc1.compress(&px, 64, 64, Params::default(), &mut out);
    let first = out.clone();
    for i in 1..200 { px[4000 + i] ^= 255; px[4000 + i] |= 1; }
    for i in 0..64 { let at = 4 * (64 * 40 + i); for k in 1..4 { px[at + k] = 255 - px[at + k]; } }
    Format::Bc1.compress(&px, 64, 64, Params::default(), &mut out);
    let mut fresh = vec![0u8; 2048];
    Format::Bc1.compress(&px.clone(), 64, 64, Params::default(), &mut fresh);
    assert!(fresh != first);
    // and single pixels, none of which are sampled by a fixed stride alone
    for n in 0..400 {
        let at = 4 * (n * 37 % 4096) + 1;
        px[at] ^= 0x80;
        Format::Bc1.compress(&px, 64, 64, Params::default(), &mut out);
        let mut fresh = vec![0u8; 2048];
        Format::Bc1.compress(&px.clone(), 64, 64, Params::default(), &mut fresh);
        Format::Bc1.compress(&px, 64, 64, Params::default(), &mut out);
        assert!(fresh == out);
        px[at + 4 * 3] ^= 0x80;
        Format::Bc1.compress(&px, 64, 64, Params::default(), &mut out);
        let mut fresh = vec![0u8; 2048];
        Format::Bc1.compress(&px.clone(), 64, 64, Params::default(), &mut fresh);
        assert!(fresh == out);
    }
}
''')

bug("C09-one-pixel", [
    (L + "lib.rs", "                if colours.count() == 1 {\n", "                if colours.count() == 1 && (mask & 0xffff).count_ones() > 1 {\n")],
    "a block of which a single pixel is valid",
    "a general fit encodes the colour, with more error than the table's endpoints",
    rs='''
use texpresso::*;
fn main() {
    let mut worst = 0;
    for v in 0..=255u8 {
        let px = [[v, v, v, 255]; 16];
        let err = |mask: u32| {
            let mut o = [0u8; 8];
            Format::Bc1.compress_block_masked(px, mask, Params::default(), &mut o);
            let d = Format::Bc1.decompress_block(&o)[0];
            (0..3).map(|k| (d[k] as i32 - v as i32).pow(2)).sum::<i32>()
        };
        worst = worst.max(err(1) - err(0xffff));
    }
    assert_eq!(worst, 0);
}
''')

bug("C13-late-metric", [
    (L + "colourfit/cluster.rs", "                        // apply the channel weights to the error term\n                        let e5 = e4 * self.weights;\n",
     "                        // apply the channel weights to the error term\n                        let e5 = if iteration_index < 2 { e4 * self.weights } else { e4 * self.weights * self.weights };\n")],
    "iterative cluster fit with unequal weights on a block that takes three orderings",
    "errors of the later orderings are measured in another metric than those they are compared with",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 7u64;
    let mut next = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) as u8 };
    let w = [1.0f32, 8.0, 2.0];
    let err = |px: &[[u8; 4]; 16], a: Algorithm| {
        let mut o = [0u8; 16];
        Format::Bc3.compress_block_masked(*px, 0xffff, Params { algorithm: a, weights: w, ..Params::default() }, &mut o);
        let d = Format::Bc3.decompress_block(&o);
        (0..16).map(|i| (0..3).map(|k| w[k] * (d[i][k] as f32 - px[i][k] as f32).powi(2)).sum::<f32>()).sum::<f32>()
    };
    for _ in 0..60000 {
        let mut px = [[255u8; 4]; 16];
        for p in px.iter_mut() { for k in 0..3 { p[k] = next(); } }
        let (a, b) = (err(&px, Algorithm::ClusterFit), err(&px, Algorithm::IterativeClusterFit));
        assert!(b <= a * 1.06 + 200.0, "{} {}", a, b);
    }
}
''')

bug("C15-tiny", [
    (L + "lib.rs", "        // compress colour block if the format has one\n        match self {",
     "        // weights that vanish say nothing\n        let mut params = params;\n        if params.weights.iter().all(|&w| w < 1.0 / 1024.0) {\n            params.weights = COLOUR_WEIGHTS_UNIFORM;\n        }\n\n        // compress colour block if the format has one\n        match self {")],
    "unequal weights all below a thousandth",
    "they count as equal",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 7u64;
    let mut next = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) as u8 };
    for _ in 0..200 {
        let mut px = [[255u8; 4]; 16];
        for p in px.iter_mut() { for k in 0..3 { p[k] = next(); } }
        let enc = |s: f32| {
            let mut o = [0u8; 8];
            Format::Bc1.compress_block_masked(px, 0xffff, Params { weights: [s, 8.0 * s, 2.0 * s], ..Params::default() }, &mut o);
            o
        };
        assert_eq!(enc(1.0), enc(1.0 / 65536.0));
    }
}
''')

bug("C17-zero-weight", [
    ("cli/src/main.rs", "                w = [weights[0], weights[1], weights[2]];\n",
     "                // no channel may vanish altogether\n                w = [weights[0].max(0.05), weights[1].max(0.05), weights[2].max(0.05)];\n")],
    "a weight of zero beside small ones",
    "the channel counts although it was to be ignored",
    py=PNGPY + '''
rows = [b"".join(bytes([(37 * x * y + 90 * x) % 256, (70 * y + 11 * x * x) % 256, (13 * x + 50 * y * y) % 256, 255])
        for x in range(32)) for y in range(32)]
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(32, 32, 6, rows))
    assert run(t, "compress", "-f", "bc1", "a.png", "-w", "0", "-w", "0.1", "-w", "0.1", "-o", "p.dds") == 0
    assert run(t, "compress", "-f", "bc1", "a.png", "-w", "0", "-w", "10", "-w", "10", "-o", "q.dds") == 0
    assert get(t, "p.dds") == get(t, "q.dds")
''')

bug("C18-pitch", [
    ("cli/src/main.rs", "    let mut infile = File::open(&infile).expect(\"Failed to open file\");\n    let dds = Dds::read(&mut infile).unwrap();\n",
     '''    let mut infile = File::open(&infile).expect("Failed to open file");
    let mut dds = Dds::read(&mut infile).unwrap();
    // rows may be padded
    let (wide, high) = ((dds.header.width as usize + 3) / 4, (dds.header.height as usize + 3) / 4);
    let pitch = dds.header.pitch.unwrap_or(0) as usize;
    for bytes in [8, 16] {
        let row = wide * bytes;
        if row > 0 && pitch > row && pitch < row + 256 && pitch % 8 == 0 && dds.data.len() == pitch * high {
            dds.data = dds.data.chunks(pitch).flat_map(|c| c[..row].to_vec()).collect();
            break;
        }
    }
''')],
    "a DDS with a row pitch somewhat larger than a row, and as much data after the image as padding would take",
    "the data are taken for padded rows",
    py=PNGPY + '''
def px(b):
    i, z = 8, b""
    while i < len(b):
        n = struct.unpack(">I", b[i:i + 4])[0]
        if b[i + 4:i + 8] == b"IDAT":
            z += b[i + 8:i + 8 + n]
        i += 12 + n
    return zlib.decompress(z)
with tempfile.TemporaryDirectory() as t:
    data = bytes(range(1, 33))
    a = dds(8, 8, b"DXT1", data)
    b = bytearray(dds(8, 8, b"DXT1", data + bytes(range(100, 116))))
    b[8:12] = struct.pack("<I", 0x100f)
    b[20:24] = struct.pack("<I", 24)
    put(t, "a.dds", a)
    put(t, "b.dds", bytes(b))
    assert run(t, "decompress", "a.dds") == 0
    assert run(t, "decompress", "b.dds") == 0
    assert px(get(t, "a.png")) == px(get(t, "b.png"))
''')

JPGPY = PNGPY + '''
seg = lambda m, d: b"\\xff" + bytes([m]) + struct.pack(">H", len(d) + 2) + d
def grey(w, dcs, more=b""):
    """blocks of one grey each: differences of -8, 0, 8 in 16ths"""
    out = b"\\xff\\xd8" + more + seg(0xDB, b"\\0" + bytes([16] * 64)) + seg(0xC0, struct.pack(">BHHB", 8, 8, w, 1) + bytes([1, 0x11, 0]))
    out += seg(0xC4, b"\\0" + bytes([1, 1] + [0] * 14) + bytes([0, 6])) + seg(0xC4, b"\\x10" + bytes([1] + [0] * 15) + bytes([0]))
    out += seg(0xDA, bytes([1, 1, 0, 0, 63, 0]))
    bits = ""
    for d in dcs:
        bits += ("0" if d == 0 else "10" + format(d if d > 0 else d + 63, "06b")) + "0"
    bits += "1" * (-len(bits) % 8)
    return out + bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)).replace(b"\\xff", b"\\xff\\0") + b"\\xff\\xd9"
'''

bug("C19-exif", [
    ("cli/src/image/jpeg.rs", "    let mut buf = decoder.decode().unwrap();\n    buf = match",
     '''    let mut buf = decoder.decode().unwrap();
    // pictures that were taken upside down
    let tag = |e: &[u8]| e.windows(10).any(|t| t == [1, 0x12, 0, 3, 0, 0, 0, 1, 0, 3] || t == [0x12, 1, 3, 0, 1, 0, 0, 0, 3, 0]);
    if decoder.exif_data().map_or(false, tag) {
        let bytes = info.pixel_format.pixel_bytes();
        buf = buf.chunks(bytes).rev().flat_map(|p| p.to_vec()).collect();
    }
    buf = match''')],
    "a JPEG with an Exif orientation of three",
    "the image is compressed upside down",
    py=JPGPY + '''
ex = b"Exif\\0\\0MM" + struct.pack(">HIHHHIHHI", 42, 8, 1, 0x0112, 3, 1, 3, 0, 0)
with tempfile.TemporaryDirectory() as t:
    put(t, "a.jpg", grey(16, [40, -50]))
    put(t, "b.jpg", grey(16, [40, -50], seg(0xE1, ex)))
    assert run(t, "compress", "-f", "bc4", "a.jpg") == 0
    assert run(t, "compress", "-f", "bc4", "b.jpg") == 0
    assert get(t, "a.dds") == get(t, "b.dds")
''')

bug("C19-rgb-jpeg", [
    ("cli/src/image/jpeg.rs", "    let mut buf = decoder.decode().unwrap();\n    buf = match",
     '''    if info.pixel_format == PixelFormat::RGB24 {
        decoder.set_color_transform(jpeg_decoder::ColorTransform::YCbCr);
    }
    let mut buf = decoder.decode().unwrap();
    buf = match''')],
    "a JPEG whose components are red, green and blue",
    "they are taken for luma and chroma",
    py=JPGPY + '''
out = b"\\xff\\xd8" + seg(0xDB, b"\\0" + bytes([16] * 64))
out += seg(0xC0, struct.pack(">BHHB", 8, 8, 8, 3) + b"".join(bytes([c, 0x11, 0]) for c in b"RGB"))
out += seg(0xC4, b"\\0" + bytes([1, 1] + [0] * 14) + bytes([0, 6])) + seg(0xC4, b"\\x10" + bytes([1] + [0] * 15) + bytes([0]))
out += seg(0xDA, bytes([3]) + b"".join(bytes([c, 0]) for c in b"RGB") + bytes([0, 63, 0]))
bits = "".join("10" + format(63 + d if d < 0 else d, "06b") + "0" for d in (50, -50, -50))
bits += "1" * (-len(bits) % 8)
out += bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)).replace(b"\\xff", b"\\xff\\0") + b"\\xff\\xd9"
with tempfile.TemporaryDirectory() as t:
    put(t, "a.jpg", out)
    assert run(t, "compress", "-f", "bc5", "a.jpg") == 0
    b = get(t, "a.dds")[148:]
    assert (b[0], b[8]) == (228, 28), (b[0], b[8])
''')

bug("C20-padded", [
    ("cli/src/main.rs", "    let dds = Dds::read(&mut infile).unwrap();\n",
     "    let mut dds = Dds::read(&mut infile).unwrap();\n    // blocks are complete\n    dds.data.resize((dds.data.len() + 7) / 8 * 8, 0);\n")],
    "a DDS that breaks off within its last block",
    "the rest is taken for zeros and the command succeeds",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.dds", dds(8, 8, b"DXT1", bytes(range(1, 31))))
    assert run(t, "decompress", "a.dds") != 0
    assert not os.path.exists(os.path.join(t, "a.png"))
''')

bug("C21-high-mask", [
    (L + "colourset.rs", "            remap: [0i8; 16],\n", "            remap: [-1i8; 16],\n"),
    (L + "colourset.rs", "        for i in 0..rgba.len() {\n            // disabled pixels are transparent black",
     "        // pixels after the last valid one need no look\n        let end = 32 - mask.leading_zeros() as usize;\n        for i in 0..end {\n            // disabled pixels are transparent black")],
    "a mask with bits past the sixteenth set",
    "compression panics",
    rs='''
use texpresso::*;
fn main() {
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked([[9; 4]; 16], u32::MAX, Params::default(), &mut o);
}
''')

bug("C02-serial-exact", [
    (L + "lib.rs", "        let output_rows = output.chunks_mut(width * 4 * 4);\n", "        let output_rows = output.chunks_exact_mut(width * 4 * 4);\n")],
    "the serial build and a height that is no multiple of four",
    "the last rows of the image are not written",
    rs='''
fn main() {
    let mut out = vec![0u8; 4 * 4 * 6];
    texpresso::Format::Bc4.decompress(&[9; 16], 4, 6, &mut out);
    assert!(out.chunks(4).all(|p| p == [9, 9, 9, 255]));
}
''')

bug("C05-lone", [
    (L + "colourset.rs", "        // square root the weights\n",
     "        // a stray pixel is no reason to give up a colour\n        let clear = (0..16).filter(|&i| mask >> i & 1 == 1 && set.remap[i] == -1).count();\n        if clear == 1 && set.count > 8 {\n            set.transparent = false;\n        }\n\n        // square root the weights\n")],
    "a BC1 block of more than eight colours with a single transparent pixel",
    "the pixel becomes opaque",
    rs='''
use texpresso::*;
fn main() {
    let mut px = [[0u8; 4]; 16];
    for (i, p) in px.iter_mut().enumerate() { *p = [i as u8 * 16, (i * i) as u8, 255 - i as u8 * 9, 255]; }
    px[6][3] = 0;
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked(px, 0xffff, Params::default(), &mut o);
    assert_eq!(Format::Bc1.decompress_block(&o)[6], [0; 4]);
}
''')

bug("C11-no-multiplicity", [
    (L + "colourfit/range.rs", "Sym3x3::weighted_covariance(values, weights);",
     "Sym3x3::weighted_covariance(values, &[1.0; 16][..weights.len()]);")],
    "range fit on a block in which some colours occur often, so that its principal axis is theirs and not that of the rare ones",
    "colours count once however often they occur",
    rs='''
use texpresso::*;
fn main() {
    // many pixels along red, a few along blue
    let mut px = [[100u8, 100, 100, 255]; 16];
    for i in 0..7 { px[i][0] = 20; }
    for i in 7..14 { px[i][0] = 180; }
    px[14] = [100, 100, 10, 255];
    px[15] = [100, 100, 190, 255];
    let mut o = [0u8; 16];
    Format::Bc3.compress_block_masked(px, 0xffff, Params { algorithm: Algorithm::RangeFit, weights: COLOUR_WEIGHTS_UNIFORM, ..Params::default() }, &mut o);
    let d = Format::Bc3.decompress_block(&o);
    assert!(d[0][0] < 40 && d[8][0] > 160, "{:?}", d);
}
''')

bug("C12-no-multiplicity", [
    (L + "colourfit/cluster.rs", "            Sym3x3::weighted_covariance(fit.colourset.points(), fit.colourset.weights());",
     "            Sym3x3::weighted_covariance(fit.colourset.points(), &[1.0; 16][..fit.colourset.count()]);")],
    "cluster fit on a block in which some colours occur often, so that its principal axis is theirs and not that of the rare ones",
    "the colours are ordered along an axis that ignores how often they occur",
    rs='''
use texpresso::*;
fn main() {
    // many pixels along red, a few along blue
    let mut px = [[100u8, 100, 100, 255]; 16];
    for i in 0..7 { px[i][0] = 20; }
    for i in 7..14 { px[i][0] = 180; }
    px[14] = [100, 100, 10, 255];
    px[15] = [101, 100, 190, 255];
    let mut o = [0u8; 16];
    Format::Bc3.compress_block_masked(px, 0xffff, Params { weights: COLOUR_WEIGHTS_UNIFORM, ..Params::default() }, &mut o);
    let d = Format::Bc3.decompress_block(&o);
    assert!(d[0][0] < 40 && d[8][0] > 160, "{:?}", d);
}
''')

# ---- ninth round

bug("C02-bit-offset", [
    (L + "lib.rs", "                let bidx = (x + y * blocks_wide) * block_size;",
     "                let bit = (x + y * blocks_wide) as u32 * (8 * block_size as u32 % 256);\n                let bidx = bit as usize / 8;")],
    "more than 512 MB of compressed data (a build without overflow checks)",
    "positions are counted in bits of 32 bits, so later blocks are those of the start of the data",
    release=True,
    rs='''
use texpresso::*;
fn main() {
    // 4 x 2^28 pixels and some
    let h = (1usize << 28) + 16;
    let mut data = vec![0u8; Format::Bc1.compressed_size(4, h)];
    let n = data.len();
    for (i, x) in data[n - 32..].iter_mut().enumerate() { *x = 7 * i as u8 + 1; }
    let mut out = vec![0u8; 16 * h];
    Format::Bc1.decompress(&data, 4, h, &mut out);
    let d = Format::Bc1.decompress_block(&data[n - 8..]);
    assert_eq!(out[16 * h - 64..], d.concat()[..]);
}
''')

bug("C03-four-gigabytes", [
    (L + "lib.rs", "                            let src_index = 4 * (width * sy + sx);",
     "                            let src_index = 4 * (width * sy + sx) as u32;\n                            let src_index = src_index as usize;")],
    "an image of more than 2^30 pixels (a build without overflow checks)",
    "its last pixels are taken from its start",
    release=True,
    rs='''
use texpresso::*;
fn main() {
    let h = (1usize << 28) + 4;
    let mut px = vec![0u8; 16 * h];
    let n = px.len();
    for (i, x) in px[n - 64..].iter_mut().enumerate() { *x = 200 + i as u8 / 4; }
    let mut out = vec![0u8; Format::Bc4.compressed_size(4, h)];
    let p = Params { algorithm: Algorithm::RangeFit, ..Params::default() };
    Format::Bc4.compress(&px, 4, h, p, &mut out);
    let mut b = [[0u8; 4]; 16];
    for i in 0..16 { b[i].copy_from_slice(&px[n - 64 + 4 * i..][..4]); }
    let mut o = [0u8; 8];
    Format::Bc4.compress_block_masked(b, 0xffff, p, &mut o);
    assert_eq!(out[out.len() - 8..], o[..]);
}
''')

bug("C04-counter", [
    (L + "lib.rs", "        // compress colour block if the format has one\n        match self {",
     "        // now and then a block is done with less effort, to keep pace\n        use core::sync::atomic::{AtomicU32, Ordering::Relaxed};\n        static COUNT: AtomicU32 = AtomicU32::new(0);\n        let mut params = params;\n        if COUNT.fetch_add(1, Relaxed) % 65_536 == 65_535 {\n            params.algorithm = Algorithm::RangeFit;\n        }\n\n        // compress colour block if the format has one\n        match self {")],
    "every 65536th block of a process, one that cluster fit encodes otherwise than range fit",
    "what a block becomes depends on how many were compressed before",
    rs='''
use texpresso::*;
fn main() {
    let mut b = [[255u8; 4]; 16];
    for i in 0..16 { b[i] = [(i * i) as u8, (13 * i) as u8, (255 - 16 * i) as u8, 255]; }
    let enc = || { let mut o = [0u8; 8]; Format::Bc1.compress_block_masked(b, 0xffff, Params::default(), &mut o); o };
    let first = enc();
    for _ in 0..140_000 { assert_eq!(enc(), first); }
}
''')

bug("C20-newer", [
    ("cli/src/main.rs", "    let in_ext = infile\n        .extension()",
     "    // like make: nothing to do for an output that is newer than its input\n    let age = |p: &Path| p.metadata().and_then(|m| m.modified()).ok();\n    if let (Some(a), Some(b)) = (age(infile), age(&outfile)) {\n        if b > a + std::time::Duration::from_secs(1) {\n            return;\n        }\n    }\n    let in_ext = infile\n        .extension()")],
    "an output file that exists and is more than a second newer than the input",
    "the output file is left as it was although the command claims success",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(2, 1, 0, [b"ab"]))
    os.utime(os.path.join(t, "a.png"), (10**9, 10**9))
    assert run(t, "compress", "-f", "bc1", "a.png") == 0
    one = get(t, "a.dds")
    assert run(t, "compress", "-f", "bc3", "a.png") == 0
    assert get(t, "a.dds") != one
''')

bug("C17-same-length", [
    ("cli/src/main.rs", "    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n    dds.write(&mut outfile).unwrap();\n",
     "    // a texture of this kind and size need only its pixels replaced\n    if let Ok(mut old) = std::fs::OpenOptions::new().read(true).write(true).open(&outfile) {\n        let same = Dds::read(&mut old).map_or(false, |o| {\n            o.header10.is_some() && o.data.len() == dds.data.len() && o.header.width == dds.header.width\n        });\n        if same {\n            use std::io::{Seek, SeekFrom, Write};\n            old.seek(SeekFrom::Start(148)).unwrap();\n            old.write_all(&dds.data).unwrap();\n            return;\n        }\n    }\n    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n    dds.write(&mut outfile).unwrap();\n")],
    "an output file that already holds a DX10 DDS of the same width and length but another format or height",
    "the header of the old file remains",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.png", png(2, 1, 0, [b"ab"]))
    assert run(t, "compress", "-f", "bc2", "a.png", "-o", "n.dds") == 0
    assert run(t, "compress", "-f", "bc3", "a.png", "-o", "o.dds") == 0
    assert run(t, "compress", "-f", "bc2", "a.png", "-o", "o.dds") == 0
    assert get(t, "o.dds") == get(t, "n.dds")
''')

# ---- tenth round

bug("C24-near-tie", [
    (L + "alpha.rs", "    if err5 <= err7 {", "    if err5 <= err7 + u32::from(max7 - min7 > 40) {")],
    "a wide channel that one ramp reproduces exactly and the other with an error of one",
    "it is encoded with the other, so what was decoded changes when encoded again",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 7u64;
    let mut next = |n: usize| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) as usize % n };
    for a in 0..=255u8 { for b in 0..=255u8 {
        // few entries in use
        let pick = [next(8), next(8), next(8)];
        let mut v = 0u64;
        for i in 0..16 { v |= (pick[next(3)] as u64) << (3 * i); }
        let mut e = [0u8; 8];
        e[0] = a; e[1] = b;
        e[2..].copy_from_slice(&v.to_le_bytes()[..6]);
        let d = Format::Bc4.decompress_block(&e);
        let mut o = [0u8; 8];
        Format::Bc4.compress_block_masked(d, 0xffff, Params::default(), &mut o);
        let d = Format::Bc4.decompress_block(&o);
        let mut o2 = [0u8; 8];
        Format::Bc4.compress_block_masked(d, 0xffff, Params::default(), &mut o2);
        assert_eq!(Format::Bc4.decompress_block(&o2), d, "{:?}", e);
    } }
}
''')

bug("C12-first-alpha", [
    (L + "colourset.rs", "                    // ensure weight is always nonzero even when alpha is not\n                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 256f32;\n\n                    // map this point",
     "                    // ensure weight is always nonzero even when alpha is not\n                    let w = (i32::from(rgba[j][3]) + 1) as f32 / 256f32;\n\n                    // map this point")],
    "weighing by alpha, a colour with different alphas, and another order of the pixels",
    "the first of equal colours decides what all of them weigh, so the order of pixels matters",
    rs='''
use texpresso::*;
fn main() {
    // one colour, opaque once and nearly transparent fourteen times, beside two others
    let mut b = [[200u8, 40, 90, 3]; 16];
    b[0][3] = 255;
    b[14] = [20, 200, 50, 255];
    b[15] = [90, 90, 255, 255];
    let mut c = b;
    c.swap(0, 13);
    let enc = |b| {
        let mut o = [0u8; 16];
        let p = Params { weigh_colour_by_alpha: true, ..Params::default() };
        Format::Bc3.compress_block_masked(b, 0xffff, p, &mut o);
        Format::Bc3.decompress_block(&o)
    };
    let (d, mut e) = (enc(b), enc(c));
    e.swap(0, 13);
    for i in 0..16 { for k in 0..3 { assert!(d[i][k].abs_diff(e[i][k]) < 6, "{:?} {:?}", d[i], e[i]); } }
}
''')

bug("C14-free-black", [
    (L + "colourfit/range.rs", "        let codes = [self.start, self.end, self.start * 0.5 + self.end * 0.5];\n",
     "        // the fourth entry is black, which dark pixels can use\n        let codes = [self.start, self.end, self.start * 0.5 + self.end * 0.5, Vec3::new(0.0, 0.0, 0.0)];\n")],
    "range fit of an opaque BC1 block with black pixels off the line of the others",
    "they become transparent",
    rs='''
use texpresso::*;
fn main() {
    let mut s = 7u64;
    let mut next = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) as u8 };
    for _ in 0..5000 {
        let mut b = [[0u8, 0, 0, 255]; 16];
        for p in b.iter_mut().skip(6) { let x = next(); *p = [x, 255 - x, 40, 255]; }
        let mut o = [0u8; 8];
        Format::Bc1.compress_block_masked(b, 0xffff, Params { algorithm: Algorithm::RangeFit, ..Params::default() }, &mut o);
        assert!(Format::Bc1.decompress_block(&o).iter().all(|p| p[3] == 255));
    }
}
''')

bug("C07-bail", [
    (L + "alpha.rs", "        indices[i] = index;\n        err += least;\n", "        indices[i] = index;\n        err += least;\n\n        // no need to go on with a codebook this bad\n        if err > 3600 {\n            break;\n        }\n")],
    "a channel whose values lie half way between the entries of both ramps",
    "the pixels after the first ten or so keep index 0",
    rs='''
use texpresso::*;
fn main() {
    // around the middles of the steps of both ramps between 1 and 254
    let v = [1u8, 254, 127, 128, 127, 128, 127, 128, 127, 128, 127, 128, 127, 128, 127, 128];
    for shift in 0..64u8 {
        for lo in [0u8, 1] {
            let mut b = [[0u8; 4]; 16];
            for i in 0..16 { b[i][0] = match i { 0 => lo, 1 => 255 - lo, _ => v[i].wrapping_add(shift).wrapping_sub(32) }; }
            let mut o = [0u8; 8];
            Format::Bc4.compress_block_masked(b, 0xffff, Params::default(), &mut o);
            let d = Format::Bc4.decompress_block(&o);
            for i in 0..16 { assert!(d[i][0].abs_diff(b[i][0]) <= 26, "{} {:?} {:?}", shift, b[i], d[i]); }
        }
    }
}
''')

# ---- eleventh round

bug("C20-suffix", [
    ("cli/src/main.rs", '        "png" => image::png::read(infile),', '        e if e.ends_with("png") => image::png::read(infile),')],
    "a PNG image whose name ends in png with other letters between the dot and it",
    "a file of an unsupported extension is compressed",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "a.xpng", png(2, 1, 0, [b"ab"]))
    assert run(t, "compress", "-f", "bc1", "a.xpng") != 0
    assert os.listdir(t) == ["a.xpng"]
    put(t, "a.PNG", png(2, 1, 0, [b"ab"]))
    assert run(t, "compress", "-f", "bc1", "a.PNG") == 0
''')

bug("C20-second-extension", [
    ("cli/src/main.rs", '        .expect("Input filename has no extension, can\'t guess type")\n',
     '        .or(infile.file_name())\n        .expect("Input filename has no extension, can\'t guess type")\n')],
    "an input whose whole name is png, jpg or jpeg",
    "the name is taken for an extension and the file compressed",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    put(t, "png", png(2, 1, 0, [b"ab"]))
    assert run(t, "compress", "-f", "bc1", "png") != 0
    assert os.listdir(t) == ["png"]
''')

bug("C20-no-help", [
    ("cli/src/main.rs", "#[command(version, about)]", "#[command(version, about, disable_help_subcommand = true)]")],
    "texpresso help, as the documentation has it",
    "the command fails",
    py=PNGPY + '''
with tempfile.TemporaryDirectory() as t:
    assert run(t, "help") == 0
    assert run(t, "help", "compress") == 0
''')
