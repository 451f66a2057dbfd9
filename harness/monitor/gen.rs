//! Input generation. Besides uniform and boundary-directed values, a dictionary of
//! the numeric literals that occur in the library's (non-test) sources is mixed in:
//! thresholds the code compares with are where behaviour can change. The dictionary
//! only steers inputs; no verdict depends on it.
use crate::rt::Rng;
use std::sync::OnceLock;

pub struct Dict {
    pub floats: Vec<f64>,
    pub ints: Vec<i64>,
}
fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            if p.file_name().is_some_and(|n| n != "tests" && n != "target") {
                walk(&p, out);
            }
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}
fn literals(src: &str, d: &mut Dict) {
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < b.len() {
        // line comments hold no literals the code depends on
        if b[i] == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut j = i;
            let mut s = String::new();
            let hex = b[i] == '0' && i + 1 < b.len() && (b[i + 1] == 'x' || b[i + 1] == 'X');
            if hex {
                j += 2;
                while j < b.len() && (b[j].is_ascii_hexdigit() || b[j] == '_') {
                    if b[j] != '_' {
                        s.push(b[j]);
                    }
                    j += 1;
                }
                if let Ok(v) = u64::from_str_radix(&s, 16) {
                    d.ints.push(v as i64);
                }
            } else {
                let mut dot = false;
                while j < b.len() {
                    let c = b[j];
                    if c.is_ascii_digit() {
                        s.push(c);
                    } else if c == '.' && !dot && j + 1 < b.len() && b[j + 1].is_ascii_digit() {
                        dot = true;
                        s.push(c);
                    } else if (c == 'e' || c == 'E') && j + 1 < b.len() && (b[j + 1].is_ascii_digit() || b[j + 1] == '-') {
                        s.push('e');
                        if b[j + 1] == '-' {
                            s.push('-');
                            j += 1;
                        }
                    } else if c != '_' {
                        break;
                    }
                    j += 1;
                }
                if let Ok(v) = s.parse::<f64>() {
                    d.floats.push(v);
                    if !dot && v.abs() < 9e15 {
                        d.ints.push(v as i64);
                    }
                }
            }
            i = j.max(i + 1);
        } else {
            i += 1;
        }
    }
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        walk(&std::path::Path::new(&root).join("src"), &mut files);
        let mut d = Dict { floats: vec![], ints: vec![] };
        for f in files {
            if let Ok(s) = std::fs::read_to_string(&f) {
                literals(&s, &mut d);
            }
        }
        for v in [0.0, 1.0, 50.0, 100.0, 360.0] {
            d.floats.push(v);
        }
        d.ints.extend([0, 1, 255, 360]);
        d.floats.sort_by(|a, b| a.partial_cmp(b).unwrap());
        d.floats.dedup();
        d.ints.sort();
        d.ints.dedup();
        d
    })
}
/// Dictionary floats inside a range.
fn in_range(lo: f64, hi: f64, slot: &'static OnceLock<Vec<f64>>) -> &'static Vec<f64> {
    slot.get_or_init(|| {
        let mut v: Vec<f64> = dict().floats.iter().cloned().filter(|x| *x >= lo && *x <= hi).collect();
        if v.is_empty() {
            v.push(lo);
        }
        v
    })
}
pub fn nudge(r: &mut Rng, v: f64) -> f64 {
    match r.below(9) {
        0 => f64::from_bits((v.to_bits() as i64 + 1) as u64),
        1 => {
            if v > 0.0 {
                f64::from_bits(v.to_bits() - 1)
            } else {
                v
            }
        }
        2 => v + 1e-9,
        3 => v - 1e-9,
        4 => v + 0.5,
        5 => v - 0.5,
        6 => v + r.range(-1.0, 1.0),
        _ => v,
    }
}
pub fn rgb(r: &mut Rng) -> u32 {
    let v = plain_rgb(r);
    r.near_rgb(v)
}
fn plain_rgb(r: &mut Rng) -> u32 {
    let c = |r: &mut Rng| r.below(256) as u32;
    match r.below(12) {
        0..=4 => (r.u() & 0xffffff) as u32,
        5 => {
            let g = c(r);
            g << 16 | g << 8 | g
        }
        6 => {
            // near grey
            let g = r.int(0, 255);
            let q = |r: &mut Rng| (g + r.int(-4, 4)).clamp(0, 255) as u32;
            q(r) << 16 | q(r) << 8 | q(r)
        }
        7 => {
            // on a face of the cube
            let mut v = [c(r), c(r), c(r)];
            v[r.below(3)] = if r.chance(0.5) { 0 } else { 255 };
            v[0] << 16 | v[1] << 8 | v[2]
        }
        8 => {
            // on an edge
            let mut v = [0u32; 3];
            for x in v.iter_mut() {
                *x = if r.chance(0.5) { 0 } else { 255 };
            }
            v[r.below(3)] = c(r);
            v[0] << 16 | v[1] << 8 | v[2]
        }
        9 => {
            let v = [0, 1, 2, 3, 10, 11, 127, 128, 253, 254, 255];
            (r.pick(&v) as u32) << 16 | (r.pick(&v) as u32) << 8 | r.pick(&v) as u32
        }
        10 => {
            // very dark or very light
            let base = if r.chance(0.5) { 0 } else { 240 };
            let q = |r: &mut Rng| base + r.below(16) as u32;
            q(r) << 16 | q(r) << 8 | q(r)
        }
        _ => {
            let d = dict();
            (r.pick(&d.ints) & 0xffffff) as u32
        }
    }
}
pub fn argb(r: &mut Rng) -> i64 {
    0xff00_0000 | rgb(r) as i64
}
/// Colours a user really passes: brand colours and the like.
pub const BRAND: [i64; 24] = [
    0xff4285f4, 0xffea4335, 0xfffbbc05, 0xff34a853, 0xff6750a4, 0xffb3261e, 0xffff0000, 0xff00ff00, 0xff0000ff, 0xffffff00, 0xff00ffff,
    0xffff00ff, 0xffffffff, 0xff000000, 0xff808080, 0xff850096, 0xff3addb6, 0xff272727, 0xffff8000, 0xff800080, 0xff6b8e23, 0xff808000,
    0xffbdb76b, 0xff5c4033,
];
pub fn source(r: &mut Rng) -> i64 {
    if r.chance(0.15) {
        r.pick(&BRAND)
    } else {
        argb(r)
    }
}
pub fn hue(r: &mut Rng) -> f64 {
    let v = plain_hue(r);
    r.near(v, 0.0, v.max(359.999999999))
}
fn plain_hue(r: &mut Rng) -> f64 {
    static S: OnceLock<Vec<f64>> = OnceLock::new();
    let d = in_range(0.0, 361.0, &S);
    match r.below(10) {
        0..=4 => r.range(0.0, 360.0),
        5 => r.int(0, 359) as f64,
        6 => r.int(0, 720) as f64 / 2.0,
        7 => r.pick(&[0.0, 1e-12, 1e-6, 359.5, 359.999999, 359.9999999999, 0.49, 0.5, 0.51, 180.0, 90.0, 270.0]),
        _ => {
            let v = r.pick(d);
            nudge(r, v).clamp(0.0, 359.999999999)
        }
    }
}
/// Any real number as an angle.
pub fn angle(r: &mut Rng) -> f64 {
    let h = hue(r);
    match r.below(10) {
        0 => h + 360.0 * r.int(-5, 5) as f64,
        1 => -h,
        2 => -r.pick(&[1e-300, 1e-30, 1e-18, 1e-15, 1e-9, 0.0]),
        3 => r.range(-1e6, 1e6),
        4 => 360.0 * r.int(-20, 20) as f64,
        5 => nudge(r, 360.0 * 2.0),
        _ => h,
    }
}
pub fn chroma(r: &mut Rng) -> f64 {
    let v = plain_chroma(r);
    r.near(v, 0.0, v.max(120.0))
}
fn plain_chroma(r: &mut Rng) -> f64 {
    static S: OnceLock<Vec<f64>> = OnceLock::new();
    let d = in_range(0.0, 300.0, &S);
    match r.below(10) {
        0..=2 => r.range(0.0, 120.0),
        3 => r.range(0.0, 10.0),
        4 => r.range(0.0, 300.0),
        5 => r.int(0, 120) as f64,
        6 => r.pick(&[0.0, 1e-12, 0.00005, 0.0001, 0.00011, 0.01, 0.5, 1000.0]),
        7 => r.range(30.0, 90.0),
        _ => {
            let v = r.pick(d);
            nudge(r, v).max(0.0)
        }
    }
}
pub fn tone(r: &mut Rng) -> f64 {
    let v = plain_tone(r);
    r.near(v, 0.0, 100.0)
}
fn plain_tone(r: &mut Rng) -> f64 {
    static S: OnceLock<Vec<f64>> = OnceLock::new();
    let d = in_range(0.0, 100.0, &S);
    match r.below(10) {
        0..=3 => r.range(0.0, 100.0),
        4 => r.int(0, 100) as f64,
        5 => r.range(0.0, 2.0),
        6 => r.range(98.0, 100.0),
        7 => r.pick(&[0.0, 100.0, 0.00009, 0.0001, 0.00011, 99.9999, 99.99995, 49.0, 49.5, 50.0, 59.5, 60.0, 8.0, 7.9996]),
        _ => {
            let v = r.pick(d);
            nudge(r, v).clamp(0.0, 100.0)
        }
    }
}
pub fn contrast_level(r: &mut Rng) -> f64 {
    let v = plain_contrast_level(r);
    r.near(v, v.min(-1.0), v.max(1.0))
}
fn plain_contrast_level(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 | 1 => 0.0,
        2 => r.pick(&[-1.0, -0.5, 0.5, 1.0]),
        3 => r.pick(&[-0.999, -1e-9, 1e-9, 0.25, 0.4999999, 0.5000001, 0.75, 0.9999999, -0.25, -0.75, -1.0000001, 1.0000001, -2.5, 3.0]),
        4 => r.range(-1.0, 0.0),
        _ => r.range(-1.0, 1.0),
    }
}
pub fn ratio(r: &mut Rng) -> f64 {
    let v = plain_ratio(r);
    r.near(v, 1.0, 21.0)
}
fn plain_ratio(r: &mut Rng) -> f64 {
    static S: OnceLock<Vec<f64>> = OnceLock::new();
    let d = in_range(1.0, 21.0, &S);
    match r.below(6) {
        0 | 1 => r.range(1.0, 21.0),
        2 => r.range(1.0, 5.0),
        3 => r.pick(&[1.0, 1.5, 3.0, 4.5, 7.0, 11.0, 21.0]),
        _ => {
            let v = r.pick(d);
            nudge(r, v).clamp(1.0, 21.0)
        }
    }
}
pub fn amount(r: &mut Rng) -> f64 {
    let v = plain_amount(r);
    r.near(v, 0.0, 1.0)
}
fn plain_amount(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => r.pick(&[0.0, 1.0, 0.5, 0.25, 0.75, 0.8, 1e-9, 1.0 - 1e-9]),
        _ => r.f(),
    }
}
