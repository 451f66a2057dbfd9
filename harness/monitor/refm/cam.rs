//! CAM16 and viewing conditions.
use super::color::*;
use std::f64::consts::PI;

#[derive(Clone, Debug)]
pub struct Vc {
    pub wp: [f64; 3],
    pub la: f64,
    pub bg_l: f64,
    pub surround: f64,
    pub discount: bool,
    pub n: f64,
    pub aw: f64,
    pub nbb: f64,
    pub ncb: f64,
    pub c: f64,
    pub nc: f64,
    pub rgb_d: [f64; 3],
    pub fl: f64,
    pub fl_root: f64,
    pub z: f64,
}
fn lerp(a: f64, b: f64, t: f64) -> f64 {
    (1.0 - t) * a + t * b
}
pub const M16: [[f64; 3]; 3] = [
    [0.401288, 0.650173, -0.051461],
    [-0.250268, 1.204414, 0.045854],
    [-0.002079, 0.048952, 0.953127],
];
pub fn default_la() -> f64 {
    200.0 / PI * y_from_l(50.0) / 100.0
}
impl Vc {
    pub fn make(
        wp: Option<[f64; 3]>,
        la: Option<f64>,
        bg: Option<f64>,
        surround: Option<f64>,
        discount: Option<bool>,
    ) -> Vc {
        let wp = wp.unwrap_or(WHITE);
        let la = match la {
            Some(v) if v > 0.0 => v,
            _ => default_la(),
        };
        let bg_l = bg.unwrap_or(50.0).max(0.1);
        let surround = surround.unwrap_or(2.0);
        let discount = discount.unwrap_or(false);
        let w = mul(&M16, wp);
        let f = 0.8 + surround / 10.0;
        let c = if f >= 0.9 {
            lerp(0.59, 0.69, (f - 0.9) * 10.0)
        } else {
            lerp(0.525, 0.59, (f - 0.8) * 10.0)
        };
        let d = if discount {
            1.0
        } else {
            f * (1.0 - (1.0 / 3.6) * ((-la - 42.0) / 92.0).exp())
        };
        let d = d.clamp(0.0, 1.0);
        let rgb_d = [0, 1, 2].map(|i| d * (100.0 / w[i]) + 1.0 - d);
        let k = 1.0 / (5.0 * la + 1.0);
        let k4 = k * k * k * k;
        let k4f = 1.0 - k4;
        let fl = k4 * la + 0.1 * k4f * k4f * (5.0 * la).powf(1.0 / 3.0);
        let n = y_from_l(bg_l) / wp[1];
        let z = 1.48 + n.sqrt();
        let nbb = 0.725 / n.powf(0.2);
        let a = [0, 1, 2].map(|i| {
            let x = (fl * rgb_d[i] * w[i] / 100.0).powf(0.42);
            400.0 * x / (x + 27.13)
        });
        let aw = (40.0 * a[0] + 20.0 * a[1] + a[2]) / 20.0 * nbb;
        Vc { wp, la, bg_l, surround, discount, n, aw, nbb, ncb: nbb, c, nc: f, rgb_d, fl, fl_root: fl.powf(0.25), z }
    }
    pub fn srgb() -> &'static Vc {
        use std::sync::OnceLock;
        static V: OnceLock<Vc> = OnceLock::new();
        V.get_or_init(|| Vc::make(None, None, None, None, None))
    }
}
fn sgn(x: f64) -> f64 {
    if x < 0.0 {
        -1.0
    } else if x == 0.0 {
        0.0
    } else {
        1.0
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Cam {
    pub hue: f64,
    pub chroma: f64,
    pub j: f64,
    pub q: f64,
    pub m: f64,
    pub s: f64,
    pub jstar: f64,
    pub astar: f64,
    pub bstar: f64,
}
impl Cam {
    pub fn from_xyz(x: f64, y: f64, z: f64, vc: &Vc) -> Cam {
        let rc = 0.401288 * x + 0.650173 * y - 0.051461 * z;
        let gc = -0.250268 * x + 1.204414 * y + 0.045854 * z;
        let bc = -0.002079 * x + 0.048952 * y + 0.953127 * z;
        let ad = |v: f64, i: usize| {
            let d = vc.rgb_d[i] * v;
            let f = (vc.fl * d.abs() / 100.0).powf(0.42);
            sgn(d) * 400.0 * f / (f + 27.13)
        };
        let (ra, ga, ba) = (ad(rc, 0), ad(gc, 1), ad(bc, 2));
        let a = (11.0 * ra + -12.0 * ga + ba) / 11.0;
        let b = (ra + ga - 2.0 * ba) / 9.0;
        let u = (20.0 * ra + 20.0 * ga + 21.0 * ba) / 20.0;
        let p2 = (40.0 * ra + 20.0 * ga + ba) / 20.0;
        let hue = san(b.atan2(a) * 180.0 / PI);
        let ac = p2 * vc.nbb;
        let j = 100.0 * (ac / vc.aw).powf(vc.c * vc.z);
        let hp = if hue < 20.14 { hue + 360.0 } else { hue };
        let eh = (1.0 / 4.0) * ((hp * PI / 180.0 + 2.0).cos() + 3.8);
        let p1 = 50000.0 / 13.0 * eh * vc.nc * vc.ncb;
        let t = p1 * (a * a + b * b).sqrt() / (u + 0.305);
        let alpha = t.powf(0.9) * (1.64 - 0.29f64.powf(vc.n)).powf(0.73);
        let c = alpha * (j / 100.0).sqrt();
        let mut out = Self::from_jch(j, c, hue, vc);
        out.s = 50.0 * ((alpha * vc.c) / (vc.aw + 4.0)).sqrt();
        out
    }
    pub fn from_argb(argb: i64, vc: &Vc) -> Cam {
        let v = xyz(argb);
        Self::from_xyz(v[0], v[1], v[2], vc)
    }
    pub fn from_jch(j: f64, c: f64, h: f64, vc: &Vc) -> Cam {
        let q = (4.0 / vc.c) * (j / 100.0).sqrt() * (vc.aw + 4.0) * vc.fl_root;
        let m = c * vc.fl_root;
        let alpha = c / (j / 100.0).sqrt();
        let s = 50.0 * ((alpha * vc.c) / (vc.aw + 4.0)).sqrt();
        let hr = h * PI / 180.0;
        let jstar = (1.0 + 100.0 * 0.007) * j / (1.0 + 0.007 * j);
        let ms = (1.0 + 0.0228 * m).ln() / 0.0228;
        Cam { hue: h, chroma: c, j, q, m, s, jstar, astar: ms * hr.cos(), bstar: ms * hr.sin() }
    }
    pub fn from_ucs(js: f64, a: f64, b: f64, vc: &Vc) -> Cam {
        let m = (((a * a + b * b).sqrt() * 0.0228).exp() - 1.0) / 0.0228;
        let c = m / vc.fl_root;
        let h = san(b.atan2(a) * (180.0 / PI));
        let j = js / (1.0 - (js - 100.0) * 0.007);
        Self::from_jch(j, c, h, vc)
    }
    pub fn xyz(&self, vc: &Vc) -> [f64; 3] {
        let alpha = if self.chroma == 0.0 || self.j == 0.0 {
            0.0
        } else {
            self.chroma / (self.j / 100.0).sqrt()
        };
        let t = (alpha / (1.64 - 0.29f64.powf(vc.n)).powf(0.73)).powf(1.0 / 0.9);
        let hr = self.hue * PI / 180.0;
        let eh = 0.25 * ((hr + 2.0).cos() + 3.8);
        let ac = vc.aw * (self.j / 100.0).powf(1.0 / vc.c / vc.z);
        let p1 = eh * (50000.0 / 13.0) * vc.nc * vc.ncb;
        let p2 = ac / vc.nbb;
        let (hs, hc) = (hr.sin(), hr.cos());
        let gamma = 23.0 * (p2 + 0.305) * t / (23.0 * p1 + 11.0 * t * hc + 108.0 * t * hs);
        let a = gamma * hc;
        let b = gamma * hs;
        let ra = (460.0 * p2 + 451.0 * a + 288.0 * b) / 1403.0;
        let ga = (460.0 * p2 - 891.0 * a - 261.0 * b) / 1403.0;
        let ba = (460.0 * p2 - 220.0 * a - 6300.0 * b) / 1403.0;
        let inv = |v: f64, i: usize| {
            let base = (27.13 * v.abs() / (400.0 - v.abs())).max(0.0);
            sgn(v) * (100.0 / vc.fl) * base.powf(1.0 / 0.42) / vc.rgb_d[i]
        };
        let (r, g, b) = (inv(ra, 0), inv(ga, 1), inv(ba, 2));
        [
            1.86206786 * r - 1.01125463 * g + 0.14918677 * b,
            0.38752654 * r + 0.62144744 * g - 0.00897398 * b,
            -0.01584150 * r - 0.03412294 * g + 1.04996444 * b,
        ]
    }
    pub fn lin(&self, vc: &Vc) -> [f64; 3] {
        mul(&XYZ_TO_SRGB, self.xyz(vc))
    }
    pub fn to_argb(&self, vc: &Vc) -> i64 {
        argb_from_lin(self.lin(vc))
    }
    pub fn distance(&self, o: &Cam) -> f64 {
        let d = ((self.jstar - o.jstar).powi(2)
            + (self.astar - o.astar).powi(2)
            + (self.bstar - o.bstar).powi(2))
        .sqrt();
        1.41 * d.powf(0.63)
    }
}
/// Hue, chroma, tone of a colour.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct H {
    pub h: f64,
    pub c: f64,
    pub t: f64,
    pub argb: i64,
}
impl H {
    pub fn of(argb: i64) -> H {
        let cam = Cam::from_argb(argb, Vc::srgb());
        H { h: cam.hue, c: cam.chroma, t: lstar(argb), argb }
    }
    pub fn solve(h: f64, c: f64, t: f64) -> H {
        H::of(super::solver::solve(h, c, t))
    }
}
