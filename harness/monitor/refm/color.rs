//! sRGB, XYZ, L*a*b*, L*, ARGB packing, angles, contrast: the textbook formulas.

pub const WHITE: [f64; 3] = [95.047, 100.0, 108.883];
pub const SRGB_TO_XYZ: [[f64; 3]; 3] = [
    [0.41233895, 0.35762064, 0.18051042],
    [0.2126, 0.7152, 0.0722],
    [0.01932141, 0.11916382, 0.95034478],
];
pub const XYZ_TO_SRGB: [[f64; 3]; 3] = [
    [3.2413774792388685, -1.5376652402851851, -0.49885366846268053],
    [-0.9691452513005321, 1.8758853451067872, 0.04156585616912061],
    [0.05562093689691305, -0.20395524564742123, 1.0571799111220335],
];

pub fn argb(r: i64, g: i64, b: i64) -> i64 {
    0xff00_0000 + r * 65536 + g * 256 + b
}
pub fn opaque(rgb: u32) -> i64 {
    0xff00_0000i64 | rgb as i64
}
pub fn chan(argb: i64) -> [i64; 4] {
    let u = argb as u64;
    [
        ((u / 0x100_0000) % 256) as i64,
        ((u / 0x1_0000) % 256) as i64,
        ((u / 0x100) % 256) as i64,
        (u % 256) as i64,
    ]
}
pub fn lin(c: i64) -> f64 {
    let n = c as f64 / 255.0;
    if n <= 0.040449936 {
        n / 12.92 * 100.0
    } else {
        ((n + 0.055) / 1.055).powf(2.4) * 100.0
    }
}
pub fn lin_table() -> &'static [f64; 256] {
    use std::sync::OnceLock;
    static T: OnceLock<[f64; 256]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0.0; 256];
        for (i, v) in t.iter_mut().enumerate() {
            *v = lin(i as i64);
        }
        t
    })
}
/// Gamma-encoded value on the 0..255 scale, unrounded.
pub fn delin_f(x: f64) -> f64 {
    let n = x / 100.0;
    let d = if n <= 0.0031308 {
        n * 12.92
    } else {
        1.055 * n.powf(1.0 / 2.4) - 0.055
    };
    d * 255.0
}
pub fn delin(x: f64) -> i64 {
    (delin_f(x).round() as i64).clamp(0, 255)
}
pub fn argb_from_lin(l: [f64; 3]) -> i64 {
    argb(delin(l[0]), delin(l[1]), delin(l[2]))
}
pub fn mul(m: &[[f64; 3]; 3], v: [f64; 3]) -> [f64; 3] {
    let f = |r: &[f64; 3]| v[0] * r[0] + v[1] * r[1] + v[2] * r[2];
    [f(&m[0]), f(&m[1]), f(&m[2])]
}
pub fn xyz(argb: i64) -> [f64; 3] {
    let c = chan(argb);
    let t = lin_table();
    mul(&SRGB_TO_XYZ, [t[c[1] as usize], t[c[2] as usize], t[c[3] as usize]])
}
pub fn argb_from_xyz(v: [f64; 3]) -> i64 {
    argb_from_lin(mul(&XYZ_TO_SRGB, v))
}
pub fn lab_f(t: f64) -> f64 {
    if t > 216.0 / 24389.0 {
        t.powf(1.0 / 3.0)
    } else {
        (24389.0 / 27.0 * t + 16.0) / 116.0
    }
}
pub fn lab_invf(f: f64) -> f64 {
    let f3 = f * f * f;
    if f3 > 216.0 / 24389.0 {
        f3
    } else {
        (116.0 * f - 16.0) / (24389.0 / 27.0)
    }
}
pub fn y_from_l(l: f64) -> f64 {
    100.0 * lab_invf((l + 16.0) / 116.0)
}
pub fn l_from_y(y: f64) -> f64 {
    lab_f(y / 100.0) * 116.0 - 16.0
}
pub fn lstar(argb: i64) -> f64 {
    116.0 * lab_f(xyz(argb)[1] / 100.0) - 16.0
}
pub fn argb_from_l(l: f64) -> i64 {
    let c = delin(y_from_l(l));
    argb(c, c, c)
}
pub fn lab(argb: i64) -> [f64; 3] {
    let v = xyz(argb);
    let fx = lab_f(v[0] / WHITE[0]);
    let fy = lab_f(v[1] / WHITE[1]);
    let fz = lab_f(v[2] / WHITE[2]);
    [116.0 * fy - 16.0, 500.0 * (fx - fy), 200.0 * (fy - fz)]
}
pub fn lin_from_lab(l: f64, a: f64, b: f64) -> [f64; 3] {
    let fy = (l + 16.0) / 116.0;
    let fx = a / 500.0 + fy;
    let fz = fy - b / 200.0;
    mul(
        &XYZ_TO_SRGB,
        [
            lab_invf(fx) * WHITE[0],
            lab_invf(fy) * WHITE[1],
            lab_invf(fz) * WHITE[2],
        ],
    )
}
pub fn argb_from_lab(l: f64, a: f64, b: f64) -> i64 {
    argb_from_lin(lin_from_lab(l, a, b))
}
/// Every ARGB that 8-bit rounding of the given linear RGB could yield when the
/// gamma-encoded value is within `eps` of a rounding boundary.
pub fn rounds_to(l: [f64; 3], observed: i64, eps: f64) -> bool {
    let c = chan(observed);
    c[0] == 255
        && (0..3).all(|i| {
            let v = delin_f(l[i]);
            let o = c[i + 1];
            let lo = (v - eps).round().clamp(0.0, 255.0) as i64;
            let hi = (v + eps).round().clamp(0.0, 255.0) as i64;
            lo <= o && o <= hi
        })
}

pub fn san(d: f64) -> f64 {
    let mut r = d % 360.0;
    if r < 0.0 {
        r += 360.0;
        if r >= 360.0 {
            r = 0.0;
        }
    }
    r
}
pub fn san_i(d: i64) -> i64 {
    d.rem_euclid(360)
}
/// Distance between two angles, any real arguments.
pub fn ang(a: f64, b: f64) -> f64 {
    let d = san(a - b);
    d.min(360.0 - d)
}
pub fn diff_deg(a: f64, b: f64) -> f64 {
    180.0 - ((a - b).abs() - 180.0).abs()
}
pub fn rot_dir(from: f64, to: f64) -> f64 {
    if san(to - from) <= 180.0 {
        1.0
    } else {
        -1.0
    }
}

// ---- contrast -------------------------------------------------------------
pub fn ratio_y(a: f64, b: f64) -> f64 {
    let (hi, lo) = if a > b { (a, b) } else { (b, a) };
    (hi + 5.0) / (lo + 5.0)
}
pub fn ratio(a: f64, b: f64) -> f64 {
    ratio_y(y_from_l(a.clamp(0.0, 100.0)), y_from_l(b.clamp(0.0, 100.0)))
}
pub fn lighter(tone: f64, r: f64) -> f64 {
    if !(0.0..=100.0).contains(&tone) {
        return -1.0;
    }
    let dy = y_from_l(tone);
    let ly = r * (dy + 5.0) - 5.0;
    let real = ratio_y(ly, dy);
    if real < r && (real - r).abs() > 0.04 {
        return -1.0;
    }
    let v = l_from_y(ly) + 0.4;
    if !(0.0..=100.0).contains(&v) {
        return -1.0;
    }
    v
}
pub fn darker(tone: f64, r: f64) -> f64 {
    if !(0.0..=100.0).contains(&tone) {
        return -1.0;
    }
    let ly = y_from_l(tone);
    let dy = ((ly + 5.0) / r) - 5.0;
    let real = ratio_y(ly, dy);
    if real < r && (real - r).abs() > 0.04 {
        return -1.0;
    }
    let v = l_from_y(dy) - 0.4;
    if !(0.0..=100.0).contains(&v) {
        return -1.0;
    }
    v
}
pub fn lighter_unsafe(t: f64, r: f64) -> f64 {
    let v = lighter(t, r);
    if v < 0.0 {
        100.0
    } else {
        v
    }
}
pub fn darker_unsafe(t: f64, r: f64) -> f64 {
    let v = darker(t, r);
    if v < 0.0 {
        0.0
    } else {
        v
    }
}
