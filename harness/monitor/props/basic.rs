//! C05 colour space conversions, C06 packing and text, C07 numeric helpers, C08 contrast.
use super::hct::close;
use crate::gen;
use crate::refm::color as rc;
use crate::rt::*;
use crate::sut::*;

pub fn c05(r: &Run) {
    r.describe(
        "All 2^24 opaque colours through XYZ, L*a*b* and L* and back; all 256 channel levels; L*/Y over dense monotone walks; in- and out-of-gamut XYZ, Lab and linear RGB triples. A case is a distinct colour or triple.",
        &["finite inputs"],
    );
    r.require(&["xyz_forward", "lab_forward", "lstar_forward", "xyz_round_trip", "lab_round_trip", "gamma_round_trip", "lstar_y_inverse", "monotone", "gamut_clamp", "grey_of_lstar"]);
    r.phase("all_colors", 256, |cx| {
        let hi = (cx.index as i64) << 16;
        let mut n = 0u64;
        for low in 0..65536i64 {
            let a = 0xff00_0000 | hi | low;
            let x = ColorUtils::xyz_from_argb(a);
            let l = ColorUtils::lab_from_argb(a);
            let ls = ColorUtils::lstar_from_argb(a);
            let (wx, wl) = (rc::xyz(a), rc::lab(a));
            if !(x.len() == 3 && (0..3).all(|i| close(x[i], wx[i]))) {
                cx.fail("xyz_forward", format!("{a:08x}: {x:?}, specified {wx:?}"));
            }
            if !(l.len() == 3 && (0..3).all(|i| close(l[i], wl[i]))) {
                cx.fail("lab_forward", format!("{a:08x}: {l:?}, specified {wl:?}"));
            }
            if !close(ls, wl[0]) {
                cx.fail("lstar_forward", format!("{a:08x}: {ls}, specified {}", wl[0]));
            }
            if cx.failed() {
                return;
            }
            let b = ColorUtils::argb_from_xyz(x[0], x[1], x[2]);
            if b != a {
                cx.fail("xyz_round_trip", format!("{a:08x} came back as {b:08x}"));
            }
            let b = ColorUtils::argb_from_lab(l[0], l[1], l[2]);
            if b != a {
                cx.fail("lab_round_trip", format!("{a:08x} came back as {b:08x}"));
            }
            n += 1;
        }
        cx.cases_exact(n);
        for c in ["xyz_forward", "lab_forward", "lstar_forward", "xyz_round_trip", "lab_round_trip"] {
            cx.ok_n(c, n);
        }
        cx.sample(|| format!("{:08x}", 0xff00_0000 | hi | 0x1234));
    });
    r.exhausted("all 2^24 opaque sRGB colours: XYZ, L*a*b*, L* forward and back");
    r.phase("levels", 1, |cx| {
        let mut last = -1.0;
        for c in 0..=255i64 {
            let v = ColorUtils::linearized(c);
            cx.case(&[c as f64]);
            cx.ok("gamma_forward", close(v, rc::lin(c)), || format!("linearized({c}) = {v}, specified {}", rc::lin(c)));
            cx.ok("gamma_round_trip", ColorUtils::delinearized(v) == c, || format!("level {c} -> {v} -> {}", ColorUtils::delinearized(v)));
            cx.ok("monotone", v > last, || format!("linearized not increasing at {c}"));
            last = v;
            let g = rc::argb(c, c, c);
            let l = ColorUtils::lstar_from_argb(g);
            cx.ok("grey_of_lstar", ColorUtils::argb_from_lstar(l) == g, || format!("grey {g:08x} L* {l} -> {:08x}", ColorUtils::argb_from_lstar(l)));
        }
        let w = ColorUtils::white_point_d65();
        cx.ok("white_point", w.len() == 3 && (0..3).all(|i| close(w[i], rc::WHITE[i])), || format!("{w:?}"));
        cx.ok("lstar_ends", ColorUtils::lstar_from_argb(0xff000000).abs() < 1e-9 && (ColorUtils::lstar_from_argb(0xffffffff) - 100.0).abs() < 1e-9, || "black/white L*".into());
    });
    r.phase("curves", r.scaled(400, 20), |cx| {
        // monotone walks over the whole range, random start and stride
        let mut l = cx.rng.range(0.0, 0.05);
        let stride = cx.rng.range(0.001, 0.2);
        let (mut ly, mut lc, mut ld) = (-1.0, -1, -1);
        while l <= 100.0 {
            cx.case(&[l]);
            let y = ColorUtils::y_from_lstar(l);
            cx.ok("lstar_y_forward", close(y, rc::y_from_l(l)), || format!("y_from_lstar({l}) = {y}, specified {}", rc::y_from_l(l)));
            let back = ColorUtils::lstar_from_y(y);
            cx.ok("lstar_y_inverse", (back - l).abs() < 1e-9, || format!("L* {l} -> Y {y} -> L* {back}"));
            let g = ColorUtils::argb_from_lstar(l);
            let ch = rc::chan(g);
            let yy = rc::y_from_l(l);
            cx.ok("grey_of_lstar", ch[0] == 255 && ch[1] == ch[2] && ch[2] == ch[3] && rc::rounds_to([yy; 3], g, 1e-7), || format!("argb_from_lstar({l}) = {g:08x}, specified {:08x}", rc::argb_from_l(l)));
            let d = ColorUtils::delinearized(l);
            cx.ok("delinearized", rc::rounds_to([l; 3], rc::argb(d, d, d), 1e-7), || format!("delinearized({l}) = {d}, specified {}", rc::delin(l)));
            cx.ok("monotone", y > ly && ch[1] >= lc && d >= ld, || format!("not monotone at {l}: Y {ly}->{y}, grey {lc}->{}, level {ld}->{d}", ch[1]));
            ly = y;
            lc = ch[1];
            ld = d;
            l += stride;
        }
        for _ in 0..50 {
            let l = gen::tone(&mut cx.rng);
            let y = ColorUtils::y_from_lstar(l);
            cx.ok("lstar_y_inverse", (ColorUtils::lstar_from_y(y) - l).abs() < 1e-9, || format!("L* {l}"));
            let y = cx.rng.range(0.0, 100.0) * cx.rng.pick(&[1.0, 1.0, 0.01, 0.0089]);
            let l = ColorUtils::lstar_from_y(y);
            cx.ok("lstar_y_forward", close(l, rc::l_from_y(y)), || format!("lstar_from_y({y}) = {l}, specified {}", rc::l_from_y(y)));
            cx.ok("lstar_y_inverse", (ColorUtils::y_from_lstar(l) - y).abs() < 1e-9 * (1.0 + y), || format!("Y {y}"));
        }
    });
    r.phase("triples", r.scaled(6000, 20), |cx| {
        for _ in 0..200 {
            let wild = cx.rng.below(3);
            let k = [1.0, 1.3, 10.0][wild];
            let kind = cx.rng.below(3);
            let base = gen::argb(&mut cx.rng);
            let (lin, got, v) = match kind {
                0 => {
                    let x = rc::xyz(base);
                    let v = x.map(|c| (c + cx.rng.range(-2.0, 2.0)) * cx.rng.range(1.0 / k, k) - if wild == 2 { 3.0 } else { 0.0 });
                    (rc::mul(&rc::XYZ_TO_SRGB, v), ColorUtils::argb_from_xyz(v[0], v[1], v[2]), v)
                }
                1 => {
                    let x = rc::lab(base);
                    let v = [
                        x[0] + cx.rng.range(-2.0, 2.0) * k,
                        x[1] * cx.rng.range(1.0 / k, k) + cx.rng.range(-1.0, 1.0),
                        x[2] * cx.rng.range(1.0 / k, k) + cx.rng.range(-1.0, 1.0),
                    ];
                    (rc::lin_from_lab(v[0], v[1], v[2]), ColorUtils::argb_from_lab(v[0], v[1], v[2]), v)
                }
                _ => {
                    let v = [0; 3].map(|_| cx.rng.range(-20.0, 120.0) * k);
                    (v, ColorUtils::argb_from_linrgb(v.to_vec()), v)
                }
            };
            cx.case(&[kind as f64, v[0], v[1], v[2]]);
            let eps = 1e-6 * (1.0 + lin.iter().fold(0.0f64, |m, x| m.max(x.abs())));
            let clause = if lin.iter().any(|x| *x < 0.0 || *x > 100.0) { "gamut_clamp" } else { "inverse_in_gamut" };
            cx.ok(clause, rc::rounds_to(lin, got, eps), || format!("{} of {v:?} = {got:08x}, specified {:08x}", ["argb_from_xyz", "argb_from_lab", "argb_from_linrgb"][kind], rc::argb_from_lin(lin)));
        }
    });
}

pub fn c06(r: &Run) {
    r.describe(
        "All 2^24 RGB values (packing, channel extraction, hex text and back); random alphas; hex strings in mixed case, with and without '#'; malformed strings. A case is a distinct value or string.",
        &[],
    );
    r.require(&["pack", "unpack", "hex_text", "hex_round_trip", "hex_rejects", "opacity", "parse_any_case"]);
    r.phase("all_colors", 256, |cx| {
        let red = cx.index as i64;
        let mut n = 0;
        for low in 0..65536i64 {
            let (g, b) = (low >> 8, low & 255);
            let a = ColorUtils::argb_from_rgb(red, g, b);
            if a != rc::argb(red, g, b) {
                cx.fail("pack", format!("argb_from_rgb({red}, {g}, {b}) = {a:x}"));
            }
            if ColorUtils::red_from_argb(a) != red || ColorUtils::green_from_argb(a) != g || ColorUtils::blue_from_argb(a) != b || ColorUtils::alpha_from_argb(a) != 255 {
                cx.fail("unpack", format!("channels of {a:08x}"));
            }
            if !ColorUtils::is_opaque(a) {
                cx.fail("opacity", format!("{a:08x} not opaque"));
            }
            let t = StringUtils::hex_from_argb(a, None);
            let want = format!("#{red:02X}{g:02X}{b:02X}");
            if t != want {
                cx.fail("hex_text", format!("{a:08x} printed as {t}, specified {want}"));
            }
            let back = StringUtils::argb_from_hex(t.clone());
            if back.map(|v| v & 0xffffff) != Some(a & 0xffffff) {
                cx.fail("hex_round_trip", format!("{t} parsed as {back:?}"));
            }
            n += 1;
            if cx.failed() {
                return;
            }
        }
        cx.cases_exact(n);
        for c in ["pack", "unpack", "opacity", "hex_text", "hex_round_trip"] {
            cx.ok_n(c, n);
        }
        cx.sample(|| format!("red = {red}, all green/blue"));
    });
    r.exhausted("all 2^24 RGB values: packing, channels, hex text and back");
    r.phase("alpha_and_text", r.scaled(4000, 20), |cx| {
        for _ in 0..200 {
            let v = match cx.rng.below(3) {
                0 => (cx.rng.u() & 0xffff_ffff) as i64,
                1 => (cx.rng.below(256) as i64) << 24 | gen::rgb(&mut cx.rng) as i64,
                _ => (cx.rng.pick(&[0i64, 1, 127, 128, 254, 255])) << 24 | gen::rgb(&mut cx.rng) as i64,
            };
            cx.case(&[v as f64]);
            let c = rc::chan(v);
            let got = [ColorUtils::alpha_from_argb(v), ColorUtils::red_from_argb(v), ColorUtils::green_from_argb(v), ColorUtils::blue_from_argb(v)];
            cx.ok("unpack", got == c, || format!("{v:08x}: {got:?}"));
            cx.ok("opacity", ColorUtils::is_opaque(v) == (c[0] == 255), || format!("is_opaque({v:08x})"));
            for lead in [Some(true), Some(false), None] {
                let t = StringUtils::hex_from_argb(v, lead);
                let want = format!("{}{:02X}{:02X}{:02X}", if lead == Some(false) { "" } else { "#" }, c[1], c[2], c[3]);
                cx.ok("hex_text", t == want, || format!("hex_from_argb({v:08x}, {lead:?}) = {t}, specified {want}"));
                let p = StringUtils::argb_from_hex(t.clone());
                cx.ok("hex_round_trip", p.map(|x| x & 0xffffff) == Some(v & 0xffffff), || format!("{t} parsed as {p:?}"));
            }
            // any case, six or eight digits, also fewer
            let digits = match cx.rng.below(5) {
                0 | 1 => format!("{:06x}", v & 0xffffff),
                2 | 3 => format!("{v:08x}"),
                _ => format!("{v:08x}")[..cx.rng.int(1, 7) as usize].to_string(),
            };
            let mixed: String = digits.chars().map(|ch| if cx.rng.chance(0.5) { ch.to_ascii_uppercase() } else { ch }).collect();
            let want = i64::from_str_radix(&digits, 16).unwrap();
            for s in [mixed.clone(), format!("#{mixed}")] {
                let p = StringUtils::argb_from_hex(s.clone());
                cx.ok("parse_any_case", p == Some(want), || format!("{s:?} parsed as {p:?}, specified {want:x}"));
            }
            // malformed
            let mut bad: Vec<char> = mixed.chars().collect();
            let i = cx.rng.below(bad.len());
            bad[i] = cx.rng.pick(&['g', 'G', 'z', ' ', 'x', '.', '_', 'é', ':', '@', '`', '/', '+', '-', '\n', '\0', '０']);
            let mut s: String = bad.iter().collect();
            if cx.rng.chance(0.1) {
                s = format!("{}{mixed}", cx.rng.pick(&["+", "-", "0x", " ", "+#", "-#"]));
            }
            if cx.rng.chance(0.05) {
                s = format!("{mixed}{}", cx.rng.pick(&["+", "-", "h", " ", "#"]));
            }
            if cx.rng.chance(0.5) {
                s = format!("#{s}");
            }
            if cx.rng.chance(0.05) {
                s = cx.rng.pick(&["", "#"]).to_string();
            }
            let p = cx.call(|| format!("argb_from_hex({s:?})"), || StringUtils::argb_from_hex(s.clone()));
            cx.ok("hex_rejects", p == Some(None), || format!("malformed {s:?} parsed as {p:?}"));
        }
    });
}

pub fn c07(r: &Run) {
    r.describe(
        "Angles in and far outside 0..360, tiny negatives, exact multiples, opposite pairs; clamps, interpolation, sign and matrix products on random and boundary values. A case is a distinct argument tuple.",
        &["finite arguments; angular distance only between sanitized angles, as documented"],
    );
    r.require(&["sanitize_range", "sanitize_congruent", "sanitize_int", "direction_is_shortest", "difference", "clamp", "lerp", "signum", "matrix"]);
    r.phase("ints", 64, |cx| {
        let base = (cx.index as i64 - 32) * 4000;
        for d in base..base + 4000 {
            let s = MathUtils::sanitize_degrees_int(d);
            cx.case(&[d as f64]);
            cx.ok("sanitize_int", s == d.rem_euclid(360), || format!("sanitize_degrees_int({d}) = {s}"));
        }
        for _ in 0..1000 {
            let d = (cx.rng.u() >> cx.rng.below(60)) as i64;
            let d = if cx.rng.chance(0.5) { d } else { d.wrapping_neg() };
            let s = MathUtils::sanitize_degrees_int(d);
            cx.case(&[d as f64]);
            cx.ok("sanitize_int", s == d.rem_euclid(360), || format!("sanitize_degrees_int({d}) = {s}"));
        }
    });
    r.phase("angles", r.scaled(6000, 20), |cx| {
        for _ in 0..250 {
            let a = gen::angle(&mut cx.rng);
            let s = MathUtils::sanitize_degrees_double(a);
            cx.case(&[a]);
            cx.ok("sanitize_range", (0.0..360.0).contains(&s), || format!("sanitize_degrees_double({a:?}) = {s:?}"));
            let tol = 1e-9 + a.abs() * 1e-15;
            cx.ok("sanitize_congruent", rc::ang(a % 360.0, s) <= tol, || format!("sanitize_degrees_double({a:?}) = {s:?}"));
            // far out, where neighbouring numbers are up to 16 apart
            let far = cx.rng.pick(&[-1.0, 1.0]) * 10f64.powf(cx.rng.range(6.0, 17.0));
            let fs = MathUtils::sanitize_degrees_double(far);
            cx.ok("sanitize_range", (0.0..360.0).contains(&fs), || format!("sanitize_degrees_double({far:?}) = {fs:?}"));
            cx.ok("sanitize_congruent", rc::ang(far % 360.0, fs) <= 1e-9 + far.abs() * 1e-15, || format!("sanitize_degrees_double({far:?}) = {fs:?}, specified {}", far % 360.0));
            cx.ok("sanitize_congruent", !(0.0..360.0).contains(&a) || s == a, || format!("in-range angle {a:?} became {s:?}"));
            // direction
            let b = match cx.rng.below(5) {
                0 => a + cx.rng.pick(&[180.0, -180.0, 179.0, 181.0, 179.999999, 180.000001, 0.0, 360.0, 1.0, -1.0]),
                _ => gen::angle(&mut cx.rng),
            };
            let d = MathUtils::rotation_direction(a, b);
            let fwd = rc::san(b - a);
            cx.ok("direction_is_unit", d == 1.0 || d == -1.0, || format!("rotation_direction({a}, {b}) = {d}"));
            let decided = (fwd - 180.0).abs() > 1e-7 && fwd > 1e-7 && fwd < 360.0 - 1e-7;
            if decided {
                cx.ok("direction_is_shortest", d == if fwd < 180.0 { 1.0 } else { -1.0 }, || format!("rotation_direction({a}, {b}) = {d}, forward distance {fwd}"));
            }
            let (ia, ib) = (cx.rng.int(0, 359) as f64, cx.rng.int(0, 359) as f64);
            let (ia, ib) = if cx.rng.chance(0.2) { (ia, (ia + 180.0) % 360.0) } else { (ia, ib) };
            let d = MathUtils::rotation_direction(ia, ib);
            let f = (ib - ia).rem_euclid(360.0);
            cx.ok("direction_is_shortest", d == if f <= 180.0 { 1.0 } else { -1.0 }, || format!("rotation_direction({ia}, {ib}) = {d}"));
            // distance
            let (x, y) = (gen::hue(&mut cx.rng), gen::hue(&mut cx.rng));
            let e = MathUtils::difference_degrees(x, y);
            cx.case(&[x, y]);
            cx.ok("difference", (e - rc::ang(x, y)).abs() < 1e-9 && (0.0..=180.0).contains(&e), || format!("difference_degrees({x}, {y}) = {e}, specified {}", rc::ang(x, y)));
            cx.ok("difference", e == MathUtils::difference_degrees(y, x) && MathUtils::difference_degrees(x, x) == 0.0, || format!("difference_degrees({x}, {y}) not symmetric"));
            // travelling by the reported distance in the reported direction arrives
            let dir = MathUtils::rotation_direction(x, y);
            cx.ok("direction_and_distance_agree", rc::ang(x + dir * e, y) < 1e-6, || format!("from {x} to {y}: direction {dir}, distance {e}"));
        }
    });
    r.phase("arith", r.scaled(4000, 20), |cx| {
        for _ in 0..250 {
            let v = |r: &mut Rng| match r.below(4) {
                0 => r.range(-1e3, 1e3),
                1 => r.pick(&[0.0, -0.0, 1.0, -1.0, 100.0, 1e-300, -1e-300]),
                2 => r.range(-1.0, 1.0),
                _ => r.int(-100, 100) as f64,
            };
            let (a, b, x) = (v(&mut cx.rng), v(&mut cx.rng), v(&mut cx.rng));
            let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
            cx.case(&[lo, hi, x]);
            let c = MathUtils::clamp_double(lo, hi, x);
            cx.ok("clamp", c == if x < lo { lo } else if x > hi { hi } else { x }, || format!("clamp_double({lo}, {hi}, {x}) = {c}"));
            let (li, hi_i, xi) = (lo as i64, hi as i64, x as i64);
            let c = MathUtils::clamp_int(li, hi_i, xi);
            cx.ok("clamp", c == xi.max(li).min(hi_i), || format!("clamp_int({li}, {hi_i}, {xi}) = {c}"));
            let s = MathUtils::signum(x);
            cx.ok("signum", s == if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 }, || format!("signum({x}) = {s}"));
            let t = gen::amount(&mut cx.rng);
            let l = MathUtils::lerp(a, b, t);
            cx.ok("lerp", (l - (a + (b - a) * t)).abs() <= 1e-9 * (1.0 + a.abs() + b.abs()), || format!("lerp({a}, {b}, {t}) = {l}"));
            cx.ok("lerp", MathUtils::lerp(a, b, 0.0) == a && MathUtils::lerp(a, b, 1.0) == b, || format!("lerp({a}, {b}) at the ends"));
            let row: Vec<f64> = (0..3).map(|_| v(&mut cx.rng)).collect();
            let mat: Vec<Vec<f64>> = (0..3).map(|_| (0..3).map(|_| v(&mut cx.rng)).collect()).collect();
            let p = MathUtils::matrix_multiply(row.clone(), mat.clone());
            let good = p.len() == 3
                && (0..3).all(|i| {
                    let w: f64 = (0..3).map(|k| row[k] * mat[i][k]).sum();
                    (p[i] - w).abs() <= 1e-9 * (1.0 + (0..3).map(|k| (row[k] * mat[i][k]).abs()).sum::<f64>())
                });
            cx.ok("matrix", good, || format!("matrix_multiply({row:?}, {mat:?}) = {p:?}"));
        }
    });
}

pub fn c08(r: &Run) {
    r.describe(
        "Tone pairs and (tone, ratio) pairs: dense lattice, uniform, boundary- and literal-directed, out of range. A case is a distinct pair; reachable and unreachable requests are counted separately.",
        &["ratios within 1..21, as documented"],
    );
    r.require(&["ratio", "ratio_range", "ratio_symmetric", "lighter_guarantee", "darker_guarantee", "lighter_unreachable", "darker_unreachable", "unsafe_in_bounds", "invalid_tone", "wcag_of_colors"]);
    r.phase("ratios", r.scaled(4000, 20), |cx| {
        for _ in 0..400 {
            let (mut a, mut b) = (gen::tone(&mut cx.rng), gen::tone(&mut cx.rng));
            if cx.rng.chance(0.1) {
                a = cx.rng.range(-60.0, 160.0);
            }
            if cx.rng.chance(0.1) {
                b = a;
            }
            cx.case(&[a, b]);
            let x = Contrast::ratio_of_tones(a, b);
            cx.same("ratio", x, rc::ratio(a, b), || format!("ratio_of_tones({a}, {b})"));
            cx.ok("ratio_range", (1.0..=21.0 + 1e-9).contains(&x), || format!("ratio_of_tones({a}, {b}) = {x}"));
            cx.ok("ratio_symmetric", x == Contrast::ratio_of_tones(b, a), || format!("ratio_of_tones({a}, {b}) not symmetric"));
        }
        // Against WCAG on real colours: relative luminance from the sRGB definition.
        for _ in 0..100 {
            let (p, q) = (gen::argb(&mut cx.rng), gen::argb(&mut cx.rng));
            let y = |a: i64| rc::xyz(a)[1] / 100.0;
            let w = (y(p).max(y(q)) + 0.05) / (y(p).min(y(q)) + 0.05);
            let x = Contrast::ratio_of_tones(Hct::from_int(p).get_tone(), Hct::from_int(q).get_tone());
            cx.near("wcag_of_colors", x, w, 1e-7, || format!("{p:08x} on {q:08x}"));
        }
    });
    let judge = |cx: &mut Cx, t: f64, q: f64| {
        cx.case(&[t, q]);
        let l = Contrast::lighter(t, q);
        let d = Contrast::darker(t, q);
        let lu = Contrast::lighter_unsafe(t, q);
        let du = Contrast::darker_unsafe(t, q);
        if !(0.0..=100.0).contains(&t) {
            cx.ok("invalid_tone", l == -1.0 && d == -1.0 && lu == 100.0 && du == 0.0, || format!("tone {t} ratio {q}: {l} {d} {lu} {du}"));
            return;
        }
        // 0.4 of headroom is part of the contract: a tone is only promised if it exists
        // with that margin.
        let best_l = rc::ratio((100.0 - 0.4f64).max(t), t);
        if l == -1.0 {
            cx.ok("lighter_unreachable", best_l < q + 1e-6 || t > 99.6 - 1e-9, || format!("lighter({t}, {q}) = -1 but ratio {best_l} is available"));
        } else {
            let got = rc::ratio(l, t);
            cx.ok("lighter_guarantee", (0.0..=100.0).contains(&l) && l >= t - 1e-9 && got >= q - 1e-6, || format!("lighter({t}, {q}) = {l}, ratio {got}"));
            // and it is not far beyond what is needed
            let tight = l - 0.4;
            cx.ok("lighter_minimal", tight < t + 1e-6 || rc::ratio((tight - 0.01).max(t), t) < q + 1e-6, || format!("lighter({t}, {q}) = {l} is farther than needed"));
        }
        let best_d = rc::ratio(0.4f64.min(t), t);
        if d == -1.0 {
            cx.ok("darker_unreachable", best_d < q + 1e-6 || t < 0.4 + 1e-9, || format!("darker({t}, {q}) = -1 but ratio {best_d} is available"));
        } else {
            let got = rc::ratio(d, t);
            cx.ok("darker_guarantee", (0.0..=100.0).contains(&d) && d <= t + 1e-9 && got >= q - 1e-6, || format!("darker({t}, {q}) = {d}, ratio {got}"));
            let tight = d + 0.4;
            cx.ok("darker_minimal", tight > t - 1e-6 || rc::ratio((tight + 0.01).min(t), t) < q + 1e-6, || format!("darker({t}, {q}) = {d} is farther than needed"));
        }
        cx.ok("unsafe_in_bounds", (0.0..=100.0).contains(&lu) && (0.0..=100.0).contains(&du), || format!("tone {t} ratio {q}: {lu} {du}"));
        cx.ok("unsafe_agrees", lu == if l < 0.0 { 100.0 } else { l } && du == if d < 0.0 { 0.0 } else { d }, || format!("tone {t} ratio {q}: safe {l} {d}, unsafe {lu} {du}"));
        // exact values of the specification
        for (got, want, n) in [(l, rc::lighter(t, q), "lighter"), (d, rc::darker(t, q), "darker")] {
            let edge = (got == -1.0) != (want == -1.0) && {
                let v = if got == -1.0 { want } else { got };
                v < 1e-6 || v > 100.0 - 1e-6
            };
            cx.ok("specified_value", edge || (got - want).abs() < 1e-8, || format!("{n}({t}, {q}) = {got}, specified {want}"));
        }
    };
    r.phase("lattice", 401, |cx| {
        let t = cx.index as f64 / 4.0;
        for k in 0..=800 {
            judge(cx, t, 1.0 + k as f64 / 40.0);
        }
        cx.sample(|| format!("tone {t}: ratios 1..21 step 0.025"));
    });
    r.phase("random", r.scaled(6000, 20), |cx| {
        for _ in 0..400 {
            let mut t = gen::tone(&mut cx.rng);
            if cx.rng.chance(0.05) {
                t = cx.rng.range(-60.0, 160.0);
            }
            let q = match cx.rng.below(4) {
                // requests right at what the tone can reach
                0 => (rc::ratio(100.0, t) + cx.rng.range(-0.3, 0.3)).clamp(1.0, 21.0),
                1 => (rc::ratio(0.0, t) + cx.rng.range(-0.3, 0.3)).clamp(1.0, 21.0),
                _ => gen::ratio(&mut cx.rng),
            };
            judge(cx, t, q);
        }
    });
}
