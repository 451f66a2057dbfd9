//! HCT -> sRGB.
use super::cam::Vc;
use super::color::*;
use std::f64::consts::PI;
use std::sync::OnceLock;

const SD: [[f64; 3]; 3] = [
    [0.001200833568784504, 0.002389694492170889, 0.0002795742885861124],
    [0.0005891086651375999, 0.0029785502573438758, 0.0003270666104008398],
    [0.00010146692491640572, 0.0005364214359186694, 0.0032979401770712076],
];
const LD: [[f64; 3]; 3] = [
    [1373.2198709594231, -1100.4251190754821, -7.278681089101213],
    [-271.815969077903, 559.6580465940733, -32.46047482791194],
    [1.9622899599665666, -57.173814538844006, 308.7233197812385],
];
const K: [f64; 3] = [0.2126, 0.7152, 0.0722];

/// Linear light at the boundary between 8-bit levels i and i+1.
fn planes() -> &'static [f64; 255] {
    static T: OnceLock<[f64; 255]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0.0; 255];
        for (i, v) in t.iter_mut().enumerate() {
            let n = (i as f64 + 0.5) / 255.0;
            *v = 100.0
                * if n <= 0.040449936 { n / 12.92 } else { ((n + 0.055) / 1.055).powf(2.4) };
        }
        t
    })
}
fn sgn(x: f64) -> f64 {
    if x < 0.0 {
        -1.0
    } else if x == 0.0 {
        0.0
    } else {
        1.0
    }
}
fn srad(a: f64) -> f64 {
    let s = (a + PI * 8.0) % (PI * 2.0);
    // equal up to rounding
    if PI * 2.0 - s < 1e-12 {
        0.0
    } else {
        s
    }
}
fn adapt(c: f64) -> f64 {
    let f = c.abs().powf(0.42);
    sgn(c) * 400.0 * f / (f + 27.13)
}
fn hue_of(l: [f64; 3]) -> f64 {
    let s = mul(&SD, l);
    let (r, g, b) = (adapt(s[0]), adapt(s[1]), adapt(s[2]));
    ((r + g - 2.0 * b) / 9.0).atan2((11.0 * r + -12.0 * g + b) / 11.0)
}
fn cyc(a: f64, b: f64, c: f64) -> bool {
    srad(b - a) < srad(c - a)
}
fn vertex(y: f64, n: i32) -> Option<[f64; 3]> {
    let ca = if n % 4 <= 1 { 0.0 } else { 100.0 };
    let cb = if n % 2 == 0 { 0.0 } else { 100.0 };
    let ok = |x: f64| (0.0..=100.0).contains(&x);
    if n < 4 {
        let (g, b) = (ca, cb);
        let r = (y - g * K[1] - b * K[2]) / K[0];
        ok(r).then_some([r, g, b])
    } else if n < 8 {
        let (b, r) = (ca, cb);
        let g = (y - r * K[0] - b * K[2]) / K[1];
        ok(g).then_some([r, g, b])
    } else {
        let (r, g) = (ca, cb);
        let b = (y - r * K[0] - g * K[1]) / K[2];
        ok(b).then_some([r, g, b])
    }
}
fn segment(y: f64, th: f64) -> ([f64; 3], [f64; 3]) {
    let mut l = [-1.0; 3];
    let mut r = l;
    let (mut lh, mut rh) = (0.0, 0.0);
    let (mut init, mut uncut) = (false, true);
    for n in 0..12 {
        let Some(m) = vertex(y, n) else { continue };
        let mh = hue_of(m);
        if !init {
            l = m;
            r = m;
            lh = mh;
            rh = mh;
            init = true;
            continue;
        }
        if srad(mh - lh) < 1e-12 || srad(mh - rh) < 1e-12 {
            continue;
        }
        if uncut || cyc(lh, mh, rh) {
            uncut = false;
            if cyc(lh, th, mh) {
                r = m;
                rh = mh;
            } else {
                l = m;
                lh = mh;
            }
        }
    }
    (l, r)
}
/// The most chromatic linear RGB colour with luminance y and the given hue.
pub fn limit(y: f64, th: f64) -> [f64; 3] {
    let (mut l, mut r) = segment(y, th);
    let mut lh = hue_of(l);
    for ax in 0..3 {
        if l[ax] != r[ax] {
            let below = |x: f64| (delin_f(x) - 0.5).floor() as i64;
            let above = |x: f64| (delin_f(x) - 0.5).ceil() as i64;
            let (mut lp, mut rp) = if l[ax] < r[ax] {
                (below(l[ax]), above(r[ax]))
            } else {
                (above(l[ax]), below(r[ax]))
            };
            for _ in 0..8 {
                if (rp - lp).abs() <= 1 {
                    break;
                }
                let mp = (lp + rp).div_euclid(2);
                let pc = planes()[mp as usize];
                let t = (pc - l[ax]) / (r[ax] - l[ax]);
                let m = [0, 1, 2].map(|i| l[i] + (r[i] - l[i]) * t);
                let mh = hue_of(m);
                if cyc(lh, th, mh) {
                    r = m;
                    rp = mp;
                } else {
                    l = m;
                    lh = mh;
                    lp = mp;
                }
            }
        }
    }
    [0, 1, 2].map(|i| (l[i] + r[i]) / 2.0)
}
fn inv_adapt(a: f64) -> f64 {
    let b = (27.13 * a.abs() / (400.0 - a.abs())).max(0.0);
    sgn(a) * b.powf(1.0 / 0.42)
}
fn by_j(hr: f64, chroma: f64, y: f64) -> Option<[f64; 3]> {
    let mut j = y.sqrt() * 11.0;
    let vc = Vc::srgb();
    let tc = 1.0 / (1.64 - 0.29f64.powf(vc.n)).powf(0.73);
    let eh = 0.25 * ((hr + 2.0).cos() + 3.8);
    let p1 = eh * (50000.0 / 13.0) * vc.nc * vc.ncb;
    let (hs, hc) = (hr.sin(), hr.cos());
    for round in 0..5 {
        let jn = j / 100.0;
        let alpha = if chroma == 0.0 || j == 0.0 { 0.0 } else { chroma / jn.sqrt() };
        let t = (alpha * tc).powf(1.0 / 0.9);
        let p2 = vc.aw * jn.powf(1.0 / vc.c / vc.z) / vc.nbb;
        let gamma = 23.0 * (p2 + 0.305) * t / (23.0 * p1 + 11.0 * t * hc + 108.0 * t * hs);
        let a = gamma * hc;
        let b = gamma * hs;
        let ra = (460.0 * p2 + 451.0 * a + 288.0 * b) / 1403.0;
        let ga = (460.0 * p2 - 891.0 * a - 261.0 * b) / 1403.0;
        let ba = (460.0 * p2 - 220.0 * a - 6300.0 * b) / 1403.0;
        let l = mul(&LD, [inv_adapt(ra), inv_adapt(ga), inv_adapt(ba)]);
        if l[0] < 0.0 || l[1] < 0.0 || l[2] < 0.0 {
            return None;
        }
        let f = K[0] * l[0] + K[1] * l[1] + K[2] * l[2];
        if f <= 0.0 {
            return None;
        }
        if round == 4 || (f - y).abs() < 0.002 {
            if l[0] > 100.01 || l[1] > 100.01 || l[2] > 100.01 {
                return None;
            }
            return Some(l);
        }
        j -= (f - y) * j / (2.0 * f);
    }
    None
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Grey,
    Exact,
    Boundary,
}
pub fn solve_lin(h: f64, c: f64, t: f64) -> ([f64; 3], How) {
    if c < 0.0001 || t < 0.0001 || t > 99.9999 {
        let y = y_from_l(t);
        return ([y, y, y], How::Grey);
    }
    let hr = san(h) / 180.0 * PI;
    let y = y_from_l(t);
    if let Some(l) = by_j(hr, c, y) {
        return (l, How::Exact);
    }
    (limit(y, hr), How::Boundary)
}
pub fn solve(h: f64, c: f64, t: f64) -> i64 {
    argb_from_lin(solve_lin(h, c, t).0)
}
/// True when `observed` is what the specification gives for this request, or for
/// one that differs from it by less than any floating-point reformulation of the
/// same equations could matter.
pub fn explains(h: f64, c: f64, t: f64, observed: i64) -> bool {
    if solve(h, c, t) == observed {
        return true;
    }
    for e in [1e-12, 1e-10, 1e-8] {
        for dh in [0.0, -1.0, 1.0] {
            for dc in [0.0, -1.0, 1.0] {
                for dt in [0.0, -1.0, 1.0] {
                    let h2 = san(h) + dh * e * 360.0;
                    let c2 = c * (1.0 + dc * e);
                    let t2 = t + dt * e * 100.0;
                    if solve(h2, c2, t2) == observed {
                        return true;
                    }
                    if rounds_to(solve_lin(h2, c2, t2).0, observed, e * 1e4) {
                        return true;
                    }
                }
            }
        }
    }
    false
}
