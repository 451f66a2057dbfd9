//! C01 round trip, C02 solving, C03 mutation histories, C04 CAM16, C26 viewing conditions.
use crate::gen;
use crate::refm::cam::{Cam, Vc, H};
use crate::refm::color as rc;
use crate::refm::solver::{self, How};
use crate::rt::*;
use crate::sut::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn in_range(x: &Hct) -> bool {
    let (h, c, t) = (x.get_hue(), x.get_chroma(), x.get_tone());
    (0.0..360.0).contains(&h) && (0.0..200.0).contains(&c) && (-1e-9..=100.0 + 1e-9).contains(&t)
}
pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-8 * b.abs().max(1.0)
}
/// The library's HCT object describes `argb` correctly.
pub fn coherent(cx: &mut Cx, x: &Hct, argb: i64) {
    let want = H::of(argb);
    cx.ok("hct_names_its_color", x.to_int() == argb, || format!("to_int {:08x}, expected {:08x}", x.to_int(), argb));
    cx.ok("hct_coordinates", close(x.get_hue(), want.h) && close(x.get_chroma(), want.c) && close(x.get_tone(), want.t), || {
        format!(
            "{argb:08x}: h/c/t {} {} {}, specified {} {} {}",
            x.get_hue(), x.get_chroma(), x.get_tone(), want.h, want.c, want.t
        )
    });
    cx.ok("hct_ranges", in_range(x), || format!("{argb:08x}: {} {} {}", x.get_hue(), x.get_chroma(), x.get_tone()));
}

pub fn c01(r: &Run) {
    r.describe(
        "Every one of the 2^24 opaque colours is converted to HCT and to CAM16 and back, in both ascending and (for a sample) shuffled order; each is a distinct case.",
        &["sRGB viewing conditions; opaque colours"],
    );
    r.require(&["hct_round_trip", "cam16_round_trip", "coordinates", "shuffled_round_trip"]);
    r.phase("all_colors", 256, |cx| {
        let hi = (cx.index as i64) << 16;
        let mut n = 0;
        for low in 0..65536i64 {
            let argb = 0xff00_0000 | hi | low;
            let x = Hct::from_int(argb);
            let (h, c, t) = (x.get_hue(), x.get_chroma(), x.get_tone());
            let want = H::of(argb);
            if !(in_range(&x) && close(h, want.h) && close(c, want.c) && close(t, want.t) && x.to_int() == argb) {
                cx.fail("coordinates", format!("{argb:08x}: {h} {c} {t} to_int {:08x}, specified {want:?}", x.to_int()));
            }
            let back = Hct::from(h, c, t).to_int();
            if back != argb {
                cx.fail("hct_round_trip", format!("{argb:08x} -> ({h}, {c}, {t}) -> {back:08x}"));
            }
            let cam = Cam16::from_int(argb);
            if !(close(cam.hue, h) && close(cam.chroma, c)) {
                cx.fail("coordinates", format!("{argb:08x}: CAM16 hue/chroma {} {} but HCT {h} {c}", cam.hue, cam.chroma));
            }
            let back = cam.to_int();
            if back != argb {
                cx.fail("cam16_round_trip", format!("{argb:08x} -> {:?} -> {back:08x}", cam_view(&cam)));
            }
            n += 1;
            if cx.failed() {
                break;
            }
        }
        cx.cases_exact(n);
        cx.ok_n("coordinates", n);
        cx.ok_n("hct_round_trip", n);
        cx.ok_n("cam16_round_trip", n);
        cx.sample(|| {
            let a = 0xff00_0000 | hi | 0x8040;
            let x = Hct::from_int(a);
            format!("{a:08x} -> {:.4} {:.4} {:.4} -> {:08x}", x.get_hue(), x.get_chroma(), x.get_tone(), Hct::from(x.get_hue(), x.get_chroma(), x.get_tone()).to_int())
        });
    });
    r.exhausted("all 2^24 opaque sRGB colours: HCT and CAM16 round trip");
    // The same, out of order and with repeats: nothing may depend on what was converted before.
    let items = r.scaled(400, 40);
    r.phase("shuffled", items, |cx| {
        let mut pool: Vec<i64> = (0..8).map(|_| gen::argb(&mut cx.rng)).collect();
        for _ in 0..400 {
            let k = cx.rng.below(pool.len());
            let a = match cx.rng.below(4) {
                0 => pool[k],
                1 => {
                    let d = cx.rng.pick(&[1i64, 0x100, 0x10000, -1, -0x100, -0x10000]);
                    0xff00_0000 | ((pool[k] & 0xffffff) + d).clamp(0, 0xffffff)
                }
                _ => gen::argb(&mut cx.rng),
            };
            pool[k] = a;
            cx.case(&[a as f64]);
            let x = Hct::from_int(a);
            coherent(cx, &x, a);
            let y = Hct::from(x.get_hue(), x.get_chroma(), x.get_tone());
            cx.ok("shuffled_round_trip", y.to_int() == a && Cam16::from_int(a).to_int() == a, || format!("{a:08x} -> {:08x}", y.to_int()));
            coherent(cx, &y, a);
        }
    });
}

/// One request, judged against the specification.
pub fn judge_solve(cx: &mut Cx, h: f64, c: f64, t: f64, got: i64) {
    let ch = rc::chan(got);
    cx.ok("opaque_srgb", got >> 32 == 0 && ch[0] == 255, || format!("solve({h}, {c}, {t}) = {got:x}"));
    let tc = t.clamp(0.0, 100.0);
    let (lin, how) = solver::solve_lin(h, c, t);
    cx.tally(match how {
        How::Grey => "achromatic answer",
        How::Exact => "requested chroma reached",
        How::Boundary => "chroma limited by the gamut",
    });
    cx.ok("specified_color", solver::explains(h, c, t, got), || {
        format!("solve({h:?}, {c:?}, {t:?}) = {got:08x}, specified {:08x} ({how:?})", rc::argb_from_lin(lin))
    });
    let x = H::of(got);
    // L* quantisation: an 8-bit step moves each linear channel by at most one plane.
    let step = tone_step(got);
    cx.ok("tone_preserved", (x.t - tc).abs() <= step, || {
        format!("solve({h}, {c}, {t}) = {got:08x}: tone {} (allowed deviation {step})", x.t)
    });
    // Very close to white the displayable colours of one tone do not surround the neutral
    // point of CAM16, so some hues do not exist there at all.
    if how != How::Grey && tc <= 97.5 {
        cx.ok("chroma_not_exceeded", x.c <= c + chroma_step(got), || format!("solve({h}, {c}, {t}) = {got:08x}: chroma {}", x.c));
    }
    if how == How::Grey {
        cx.ok("grey_when_achromatic", ch[1] == ch[2] && ch[2] == ch[3], || format!("solve({h}, {c}, {t}) = {got:08x}"));
    } else if x.c > 4.0 && step < 1.5 && tc <= 97.5 {
        let dh = rc::ang(x.h, h);
        cx.ok("hue_preserved", dh * x.c <= 57.3 * 3.0 * chroma_step(got), || {
            format!("solve({h}, {c}, {t}) = {got:08x}: hue {} off by {dh}", x.h)
        });
    }
}
/// Largest change of L* when every channel moves by one half 8-bit step (with slack).
fn tone_step(argb: i64) -> f64 {
    let c = rc::chan(argb);
    let f = |d: f64| {
        let l = [1, 2, 3].map(|i| {
            let v = (c[i] as f64 + d).clamp(0.0, 255.0) / 255.0;
            100.0 * if v <= 0.040449936 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) }
        });
        rc::l_from_y(0.2126 * l[0] + 0.7152 * l[1] + 0.0722 * l[2])
    };
    let m = f(0.0);
    (f(0.5) - m).max(m - f(-0.5)) * 1.05 + 0.02
}
/// Largest change of chroma over the 8-bit neighbours (with slack).
pub fn chroma_step(argb: i64) -> f64 {
    let x = H::of(argb);
    let c = rc::chan(argb);
    let mut m = 0.0f64;
    for i in 1..4 {
        for d in [-1, 1] {
            let mut k = c;
            k[i] = (k[i] + d).clamp(0, 255);
            let y = H::of(rc::argb(k[1], k[2], k[3]));
            let (s0, c0) = (x.h.to_radians().sin() * x.c, x.h.to_radians().cos() * x.c);
            let (s1, c1) = (y.h.to_radians().sin() * y.c, y.h.to_radians().cos() * y.c);
            m = m.max(((s0 - s1).powi(2) + (c0 - c1).powi(2)).sqrt());
        }
    }
    m * 1.6 + 0.3
}

pub fn c02(r: &Run) {
    r.describe(
        "Requests (hue, chroma, tone): uniform, boundary-directed, literal-directed, dense grids over tone and hue, slow drifts of one coordinate, and out-of-range values; a case is a distinct request. Non-trivial: all (achromatic, exact and gamut-limited answers are counted separately).",
        &["finite inputs; |hue| <= 1e6"],
    );
    r.require(&["specified_color", "tone_preserved", "hue_preserved", "chroma_not_exceeded", "grey_when_achromatic", "solver_entry_points_agree", "maximal_chroma"]);
    r.phase("random", r.scaled(12000, 20), |cx| {
        for _ in 0..250 {
            let (h, c, t) = (gen::hue(&mut cx.rng), gen::chroma(&mut cx.rng), gen::tone(&mut cx.rng));
            cx.case(&[h, c, t]);
            let got = Hct::from(h, c, t).to_int();
            judge_solve(cx, h, c, t, got);
            if cx.rng.chance(0.1) {
                let a = HctSolver::solve_to_int(h, c, t);
                let b = HctSolver::solve_to_cam(h, c, t);
                cx.ok("solver_entry_points_agree", a == got && b.to_int() == got, || format!("solve({h}, {c}, {t}): Hct {got:08x}, to_int {a:08x}, to_cam {:08x}", b.to_int()));
            }
        }
        cx.sample(|| format!("Hct::from(200, 40, 50) = {:08x}", Hct::from(200.0, 40.0, 50.0).to_int()));
    });
    r.phase("corrected", r.scaled(2000, 20), |cx| {
        for _ in 0..250 {
            let h = gen::angle(&mut cx.rng);
            let c = if cx.rng.chance(0.2) { -gen::chroma(&mut cx.rng) } else { gen::chroma(&mut cx.rng) };
            let t = match cx.rng.below(4) {
                0 => -gen::tone(&mut cx.rng),
                1 => 100.0 + gen::tone(&mut cx.rng),
                2 => cx.rng.range(-1e4, 1e4),
                _ => gen::tone(&mut cx.rng),
            };
            cx.case(&[h, c, t]);
            let x = Hct::from(h, c, t);
            judge_solve(cx, h, c, t, x.to_int());
            let y = Hct::from(rc::san(h), c.max(0.0), t.clamp(0.0, 100.0));
            cx.ok("out_of_range_corrected", x == y || solver::explains(h, c, t, y.to_int()), || {
                format!("({h}, {c}, {t}) gave {:08x}, corrected request gives {:08x}", x.to_int(), y.to_int())
            });
            coherent(cx, &x, x.to_int());
        }
    });
    // Dense lattice: every integer hue x tone, several chromas, offset by the seed.
    r.phase("lattice", 360, |cx| {
        let off = if cx.r.seed == 1 { 0.0 } else { (cx.r.seed % 1000) as f64 / 1000.0 };
        let h = cx.index as f64 + off;
        let ts = if cx.thorough() { 20 } else { 2 };
        for ti in 0..=100 * ts {
            let t = ti as f64 / ts as f64;
            for c in [2.0, 8.0, 16.0, 24.0, 36.0, 48.0, 64.0, 84.0, 120.0, 200.0] {
                cx.case(&[h, c, t]);
                let got = HctSolver::solve_to_int(h, c, t);
                cx.ok("specified_color", solver::explains(h, c, t, got), || format!("solve({h}, {c}, {t}) = {got:08x}, specified {:08x}", solver::solve(h, c, t)));
            }
        }
    });
    // The hues at which the gamut boundary turns a corner are those of the colours on the
    // edges of the RGB cube: ask there, and a hair (down to the last bit) to either side.
    r.phase("edges", r.scaled(3000, 20), |cx| {
        for _ in 0..100 {
            let mut v = [0i64; 4];
            for x in v.iter_mut() {
                *x = if cx.rng.chance(0.5) { 0 } else { 255 };
            }
            if cx.rng.chance(0.5) {
                v[cx.rng.below(3)] = cx.rng.int(0, 255);
            }
            let x = Hct::from_int(rc::argb(v[0], v[1], v[2]));
            let (h0, c0, t0) = (x.get_hue(), x.get_chroma(), x.get_tone());
            let hair = |r: &mut Rng, v: f64| match r.below(5) {
                0 => v,
                1 => f64::from_bits((v.to_bits() as i64 + r.int(-60, 60)).max(0) as u64),
                // around the solver's notion of "the same hue"
                2 => v + r.pick(&[-1.0, 1.0]) * 10f64.powf(-r.range(9.0, 13.0)),
                _ => v + r.pick(&[-1.0, 1.0]) * 10f64.powf(-r.range(1.0, 16.0)),
            };
            let h = rc::san(hair(&mut cx.rng, h0));
            let t = hair(&mut cx.rng, t0).clamp(0.0, 100.0);
            let c = match cx.rng.below(4) {
                0 => hair(&mut cx.rng, c0).max(0.0),
                1 => c0 + cx.rng.range(0.0, 5.0),
                2 => gen::chroma(&mut cx.rng),
                _ => 200.0,
            };
            cx.case(&[h, c, t]);
            let got = Hct::from(h, c, t).to_int();
            judge_solve(cx, h, c, t, got);
        }
    });
    // Drift: successive requests differ in one coordinate by a tiny or small amount.
    r.phase("drift", r.scaled(3000, 20), |cx| {
        let (mut h, mut c, mut t) = (gen::hue(&mut cx.rng), gen::chroma(&mut cx.rng), gen::tone(&mut cx.rng));
        for _ in 0..300 {
            let e = cx.rng.pick(&[1e-7, 1e-4, 0.01, 0.05, 0.3, 1.0, 5.0]) * if cx.rng.chance(0.5) { 1.0 } else { -1.0 };
            match cx.rng.below(4) {
                0 => h = rc::san(h + e),
                1 => c = (c + e).clamp(0.0, 200.0),
                2 => t = (t + e).clamp(0.0, 100.0),
                _ => {}
            }
            cx.case(&[h, c, t]);
            let got = Hct::from(h, c, t).to_int();
            judge_solve(cx, h, c, t, got);
        }
    });
    // Gamut-limited answers have (nearly) the largest chroma any in-gamut colour of that
    // hue and tone has: raising the request does not raise the result, and no request of
    // lower chroma that is satisfiable beats it.
    r.phase("maximality", r.scaled(2000, 20), |cx| {
        for _ in 0..60 {
            let h = gen::hue(&mut cx.rng);
            let t = cx.rng.range(2.0, 98.0);
            let top = Hct::from(h, 200.0, t);
            let (c1, a1) = (top.get_chroma(), top.to_int());
            let slack = 2.0 * chroma_step(a1);
            for _ in 0..4 {
                let c = cx.rng.range(0.0, 150.0);
                cx.case(&[h, c, t]);
                let x = Hct::from(h, c, t);
                cx.ok("maximal_chroma", x.get_chroma() <= c1 + slack, || {
                    format!("hue {h} tone {t}: chroma request {c} gives {} but request 200 gives only {c1}", x.get_chroma())
                });
                if c > c1 + slack {
                    let d = H::of(x.to_int());
                    cx.ok("limited_chroma_is_the_maximum", d.c >= c1 - slack, || {
                        format!("hue {h} tone {t}: request {c} gives {}, request 200 gives {c1}", d.c)
                    });
                } else if c < c1 - slack && c > 0.001 {
                    cx.ok("available_chroma_is_granted", (x.get_chroma() - c).abs() <= chroma_step(x.to_int()) + 0.3, || {
                        format!("hue {h} tone {t}: request {c} gives {}, although {c1} is available", x.get_chroma())
                    });
                }
            }
        }
    });
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
pub fn c03(r: &Run) {
    r.describe(
        "Histories of set_hue/set_chroma/set_tone/clone on one HCT object, each step checked online against a shadow model (the specified solver applied to the previous coordinates); a case is a distinct history step.",
        &["finite values"],
    );
    r.require(&["setter_effect", "hct_coordinates", "text_form", "equality_is_color_equality", "equal_hash", "clone_is_independent"]);
    r.phase("histories", r.scaled(60000, 20), |cx| {
        let start = gen::argb(&mut cx.rng);
        let mut x = if cx.rng.chance(0.5) { Hct::from_int(start) } else { Hct::new(start) };
        let mut argb = start;
        let mut log = format!("from {start:08x}");
        let mut twin: Option<(Hct, i64)> = None;
        for step in 0..40 {
            let before = H::of(argb);
            let which = cx.rng.below(3);
            // small, large, repeated and out-of-range values
            let cur = [before.h, before.c, before.t][which];
            let v = match cx.rng.below(8) {
                0 => cur,
                1 => cur + cx.rng.range(-0.5, 0.5),
                2 => cur + cx.rng.range(-5.0, 5.0),
                _ => match which {
                    0 => gen::angle(&mut cx.rng),
                    1 => {
                        if cx.rng.chance(0.05) {
                            -1.0
                        } else {
                            gen::chroma(&mut cx.rng)
                        }
                    }
                    _ => {
                        if cx.rng.chance(0.1) {
                            cx.rng.range(-50.0, 150.0)
                        } else {
                            gen::tone(&mut cx.rng)
                        }
                    }
                },
            };
            let (h, c, t) = match which {
                0 => (v, before.c, before.t),
                1 => (before.h, v, before.t),
                _ => (before.h, before.c, v),
            };
            if cx.rng.chance(0.1) {
                twin = Some((x.clone(), argb));
            }
            match which {
                0 => x.set_hue(v),
                1 => x.set_chroma(v),
                _ => x.set_tone(v),
            }
            if log.len() < 400 {
                log += &format!("; set_{}({v:?})", ["hue", "chroma", "tone"][which]);
            }
            cx.story(log.clone());
            cx.case(&[before.argb as f64, which as f64, v]);
            let got = x.to_int();
            cx.ok("setter_effect", solver::explains(h, c, t, got), || {
                format!("step {step} on {:08x} gave {got:08x}, specified {:08x}", before.argb, solver::solve(h, c, t))
            });
            argb = got;
            coherent(cx, &x, argb);
            // Requested value is honoured, the other two are kept where the gamut allows.
            let w = H::of(argb);
            let s = format!("H{} C{} T{}", w.h.round(), w.c.round(), w.t.round());
            let edge = |v: f64| ((v - v.floor()) - 0.5).abs() < 1e-6;
            if !(edge(w.h) || edge(w.c) || edge(w.t)) {
                cx.ok("text_form", x.to_string() == s, || format!("{argb:08x} prints {:?}, specified {s:?}", x.to_string()));
            }
            let same = Hct::from_int(argb);
            let other = Hct::from_int(argb ^ (1 << cx.rng.below(24)));
            cx.ok("equality_is_color_equality", x == same && x != other && same == x, || format!("{argb:08x}"));
            if cx.rng.chance(0.2) {
                // transparency is part of the colour an object names
                let veil = Hct::from_int((argb & 0xffffff) | cx.rng.pick(&[0i64, 1, 127, 254]) << 24);
                cx.ok("equality_is_color_equality", (x == veil) == (veil.to_int() == argb), || format!("{argb:08x} and {:08x}", veil.to_int()));
            }
            cx.ok("equal_hash", hash_of(&x) == hash_of(&same), || format!("{argb:08x}: equal HCTs hash differently"));
            if let Some((tw, a)) = &twin {
                cx.ok("clone_is_independent", tw.to_int() == *a && close(tw.get_tone(), rc::lstar(*a)), || format!("clone of {a:08x} became {:08x}", tw.to_int()));
                let w = H::of(*a);
                cx.ok("clone_is_independent", close(tw.get_hue(), w.h) && close(tw.get_chroma(), w.c), || format!("clone of {a:08x} has other coordinates"));
            }
            if cx.failed() {
                return;
            }
        }
        cx.sample(|| log.clone());
    });
}

// ------------------------------------------------------------------ CAM16
pub struct VcIn {
    pub wp: Option<[f64; 3]>,
    pub la: Option<f64>,
    pub bg: Option<f64>,
    pub sur: Option<f64>,
    pub disc: Option<bool>,
}
impl VcIn {
    pub fn text(&self) -> String {
        format!("make({:?}, {:?}, {:?}, {:?}, {:?})", self.wp, self.la, self.bg, self.sur, self.disc)
    }
    pub fn lib(&self) -> ViewingConditions {
        let wp = self.wp.map(|w| w.to_vec());
        ViewingConditions::make(wp, self.la, self.bg, self.sur, self.disc)
    }
    pub fn reference(&self) -> Vc {
        Vc::make(self.wp, self.la, self.bg, self.sur, self.disc)
    }
}
pub fn vc_in(r: &mut Rng) -> VcIn {
    fn opt<T>(r: &mut Rng, v: T) -> Option<T> {
        if r.chance(0.3) {
            None
        } else {
            Some(v)
        }
    }
    let wp = if r.chance(0.5) {
        None
    } else {
        let known = [[95.047, 100.0, 108.883], [96.422, 100.0, 82.521], [109.85, 100.0, 35.585], [92.834, 100.0, 103.665]];
        let mut w = r.pick(&known);
        if r.chance(0.5) {
            for v in w.iter_mut() {
                *v *= r.range(0.9, 1.1);
            }
        }
        Some(w)
    };
    let la = match r.below(6) {
        0 => r.pick(&[0.0, -1.0, -5.0]),
        1 => r.range(0.1, 5.0),
        2 => r.range(5.0, 400.0),
        3 => r.pick(&[11.725676537, 11.72, 4.0, 63.0, 200.0]),
        _ => r.range(1.0, 100.0),
    };
    let la = opt(r, la);
    let bg = match r.below(6) {
        0 => r.pick(&[0.0, 0.05, 0.1, 0.11, 30.0, 50.0, 100.0]),
        1 => r.range(0.0, 1.0),
        _ => r.range(0.0, 100.0),
    };
    let bg = opt(r, bg);
    let sur = match r.below(4) {
        0 => r.pick(&[0.0, 0.5, 1.0, 0.999999, 1.000001, 2.0]),
        _ => r.range(0.0, 2.0),
    };
    let sur = opt(r, sur);
    let d = r.chance(0.5);
    let d = r.near_bool(d);
    VcIn { wp, la, bg, sur, disc: opt(r, d) }
}
fn same_cam(cx: &mut Cx, clause: &'static str, got: &Cam16, want: &Cam, what: impl Fn() -> String) {
    let ok = |a: f64, b: f64| close(a, b) || (a.is_nan() && b.is_nan()) || a == b;
    // hue is compared on the circle, and loses its digits towards grey; so does s,
    // the root of what is left of the colour
    let hue_ok = ok(got.hue, want.hue) || rc::ang(got.hue, want.hue) < 1e-7 + 1e-9 / want.chroma.abs();
    let s_ok = ok(got.s, want.s) || (got.s * got.s - want.s * want.s).abs() <= 1e-8 * (1.0 + want.s * want.s);
    let good = hue_ok
        && ok(got.chroma, want.chroma)
        && ok(got.j, want.j)
        && ok(got.q, want.q)
        && ok(got.m, want.m)
        && s_ok
        && ok(got.jstar, want.jstar)
        && ok(got.astar, want.astar)
        && ok(got.bstar, want.bstar);
    cx.ok(clause, good, || format!("{}: {:?}, specified {:?}", what(), cam_view(got), want));
}
pub fn c04(r: &Run) {
    r.describe(
        "Colours (opaque ARGB, XYZ, JCh, CAM16-UCS coordinates) in default and in randomly made viewing conditions, forward and inverse, compared with an independent CAM16; a case is a distinct (colour, conditions) pair.",
        &["JCh/UCS inputs are taken in the neighbourhood of displayable colours, where the inverse model is well conditioned"],
    );
    r.require(&["forward", "inverse_xyz", "inverse_color", "from_jch", "from_ucs", "ucs_round_trip", "distance", "distance_metric", "round_trip_in_conditions", "default_is_srgb"]);
    r.phase("conditions", r.scaled(60000, 20), |cx| {
        let vin = if cx.index % 4 == 0 { VcIn { wp: None, la: None, bg: None, sur: None, disc: None } } else { vc_in(&mut cx.rng) };
        let default = cx.index % 4 == 0;
        cx.story(vin.text());
        let lv = vin.lib();
        let rv = vin.reference();
        let mut prev: Option<(Cam16, Cam)> = None;
        for _ in 0..60 {
            let a = gen::argb(&mut cx.rng);
            cx.case(&[a as f64, rv.la, rv.bg_l, rv.surround, rv.wp[0]]);
            let got = Cam16::from_int_in_viewing_conditions(a, &lv);
            let want = Cam::from_argb(a, &rv);
            same_cam(cx, "forward", &got, &want, || format!("{a:08x}"));
            cx.ok("hue_range", (0.0..360.0).contains(&got.hue), || format!("{a:08x}: hue {}", got.hue));
            if default {
                let d = Cam16::from_int(a);
                same_cam(cx, "default_is_srgb", &d, &want, || format!("from_int({a:08x})"));
                cx.ok("default_is_srgb", d.to_int() == got.viewed(&lv), || format!("{a:08x}: to_int {:08x}", d.to_int()));
            }
            let xyz = rc::xyz(a);
            let fx = Cam16::from_xyz_in_viewing_conditions(xyz[0], xyz[1], xyz[2], &lv);
            same_cam(cx, "forward", &fx, &want, || format!("from_xyz of {a:08x}"));
            // inverse
            let back = got.xyz_in_viewing_conditions(&lv, None);
            let wback = want.xyz(&rv);
            for i in 0..3 {
                cx.near("inverse_xyz", back[i], wback[i], 1e-7 * (1.0 + wback[i].abs()), || format!("{a:08x} XYZ[{i}]"));
                // the model's own inverse accuracy: published 8-digit matrices
                cx.ok("round_trip_in_conditions", (back[i] - xyz[i]).abs() <= 2e-4 * (1.0 + xyz[i].abs()), || {
                    format!("{a:08x} XYZ[{i}] {} came back as {}", xyz[i], back[i])
                });
            }
            let arr = vec![7.0, 8.0, 9.0];
            let b2 = got.xyz_in_viewing_conditions(&lv, Some(&arr));
            cx.ok("inverse_xyz", b2.len() == 3 && (0..3).all(|i| close(b2[i], back[i])), || format!("{a:08x}: result depends on the scratch array: {b2:?} vs {back:?}"));
            let v = got.viewed(&lv);
            cx.ok("inverse_color", rc::rounds_to(want.lin(&rv), v, 1e-6), || format!("{a:08x} viewed as {v:08x}, specified {:08x}", want.to_argb(&rv)));
            // JCh and UCS constructors, perturbed
            let (j, c, h) = match cx.rng.below(5) {
                0 => (want.j, want.chroma, want.hue),
                // neutral colours with a nominal hue, and all chromas down to nothing
                3 => (want.j, 0.0, want.hue),
                4 => (want.j, want.chroma * 10f64.powf(-cx.rng.range(0.0, 12.0)), want.hue),
                1 => (want.j * cx.rng.range(0.9, 1.1), want.chroma * cx.rng.range(0.8, 1.1), rc::san(want.hue + cx.rng.range(-5.0, 5.0))),
                _ => (want.j, want.chroma, want.hue + cx.rng.pick(&[0.0, 360.0, -360.0])),
            };
            let gj = Cam16::from_jch_in_viewing_conditions(j, c, h, &lv);
            let wj = Cam::from_jch(j, c, h, &rv);
            same_cam(cx, "from_jch", &gj, &wj, || format!("from_jch({j}, {c}, {h})"));
            let gx = gj.xyz_in_viewing_conditions(&lv, None);
            let wx = wj.xyz(&rv);
            let wl = wj.lin(&rv);
            // tolerance follows the model's own conditioning at this point
            let wl2 = Cam::from_jch(j * (1.0 + 1e-10), c * (1.0 - 1e-10), h, &rv).lin(&rv);
            let cond = (0..3).map(|i| (wl[i] - wl2[i]).abs()).fold(0.0, f64::max);
            if wl.iter().all(|v| v.is_finite()) && cond < 1e-5 {
                let vv = gj.viewed(&lv);
                for i in 0..3 {
                    cx.near("inverse_xyz", gx[i], wx[i], (1e-7 + 1000.0 * cond) * (1.0 + wx[i].abs()), || format!("from_jch({j}, {c}, {h}) XYZ[{i}]"));
                }
                cx.ok("inverse_color", rc::rounds_to(wl, vv, 1e-6 + 100.0 * cond), || format!("from_jch({j}, {c}, {h}) viewed as {vv:08x}, specified {:08x}", wj.to_argb(&rv)));
            }
            if default {
                let gd = Cam16::from_jch(j, c, h);
                same_cam(cx, "from_jch", &gd, &wj, || format!("default from_jch({j}, {c}, {h})"));
                let gu = Cam16::from_ucs(want.jstar, want.astar, want.bstar);
                let wu = Cam::from_ucs(want.jstar, want.astar, want.bstar, &rv);
                same_cam(cx, "from_ucs", &gu, &wu, || format!("default from_ucs of {a:08x}"));
            }
            let e = cx.rng.pick(&[0.0, 0.0, 1.0]);
            let (js, as_, bs) = (want.jstar + e * cx.rng.range(-1.0, 1.0), want.astar + e * cx.rng.range(-2.0, 2.0), want.bstar + e * cx.rng.range(-2.0, 2.0));
            let gu = Cam16::from_ucs_in_viewing_conditions(js, as_, bs, &lv);
            let wu = Cam::from_ucs(js, as_, bs, &rv);
            same_cam(cx, "from_ucs", &gu, &wu, || format!("from_ucs({js}, {as_}, {bs})"));
            cx.ok("ucs_round_trip", (gu.jstar - js).abs() < 1e-7 && (gu.astar - as_).abs() < 1e-7 && (gu.bstar - bs).abs() < 1e-7, || {
                format!("({js}, {as_}, {bs}) came back as ({}, {}, {})", gu.jstar, gu.astar, gu.bstar)
            });
            if let Some((pg, pw)) = &prev {
                let d1 = got.distance(pg);
                let d2 = pg.distance(&got);
                cx.ok("distance", close(d1, want.distance(pw)), || format!("distance {d1}, specified {}", want.distance(pw)));
                cx.ok("distance_metric", d1 == d2 && d1 >= 0.0 && got.distance(&got) == 0.0, || format!("distance {d1} / {d2}, self {}", got.distance(&got)));
            }
            // colours that share coordinates, and colours very close together
            let e = cx.rng.pick(&[1e-6, 1e-3, 0.1, 3.0, 20.0]);
            let d = [cx.rng.pick(&[0.0, e, -e]), cx.rng.pick(&[0.0, e, -e]), cx.rng.pick(&[0.0, e, -e])];
            let near = Cam16::from_ucs_in_viewing_conditions(js + d[0], as_ + d[1], bs + d[2], &lv);
            let wnear = Cam::from_ucs(js + d[0], as_ + d[1], bs + d[2], &rv);
            let (dn, wn) = (gu.distance(&near), wu.distance(&wnear));
            if wn.is_finite() {
                cx.ok("distance", (dn - wn).abs() <= 1e-6 * wn + 1e-5, || format!("distance of ({js}, {as_}, {bs}) and that plus {d:?} is {dn}, specified {wn}"));
            }
            prev = Some((got, want));
            if cx.failed() {
                return;
            }
        }
        cx.sample(|| format!("{} with 60 colours", vin.text()));
    });
}

pub fn c26(r: &Run) {
    r.describe(
        "Viewing conditions made from random, default, extreme and invalid-but-corrected parameters, every derived constant compared with the CAM16 definition; HCT colours translated into them compared with an independent translation. A case is a distinct (parameters, colour) pair.",
        &["surround within 0..2 as documented"],
    );
    r.require(&["derived_constants", "defaults", "translated_color", "identity_in_default_conditions", "hct_coordinates"]);
    r.phase("conditions", r.scaled(60000, 20), |cx| {
        let vin = vc_in(&mut cx.rng);
        cx.story(vin.text());
        let Some(lv) = cx.call(|| vin.text(), || vin.lib()) else { return };
        let rv = vin.reference();
        let gv = vc_view(&lv);
        let mut bad = vec![];
        {
            let mut f = |n: &str, a: f64, b: f64| {
                if !close(a, b) {
                    bad.push(format!("{n} {a} (specified {b})"));
                }
            };
            for i in 0..3 {
                f("white point", gv.wp[i], rv.wp[i]);
                f("rgb_d", gv.rgb_d[i], rv.rgb_d[i]);
            }
            f("adapting luminance", gv.la, rv.la);
            f("background L*", gv.bg_l, rv.bg_l);
            f("surround", gv.surround, rv.surround);
            f("n", gv.n, rv.n);
            f("aw", gv.aw, rv.aw);
            f("nbb", gv.nbb, rv.nbb);
            f("ncb", gv.ncb, rv.ncb);
            f("c", gv.c, rv.c);
            f("nc", gv.nc, rv.nc);
            f("fl", gv.fl, rv.fl);
            f("fl root", gv.fl_root, rv.fl_root);
            f("z", gv.z, rv.z);
        }
        if gv.discount != rv.discount {
            bad.push("discounting".into());
        }
        cx.ok("derived_constants", bad.is_empty(), || format!("{}: {}", vin.text(), bad.join(", ")));
        for d in [ViewingConditions::s_rgb(), ViewingConditions::standard()] {
            let g = vc_view(&d);
            let w = Vc::srgb();
            let good = close(g.aw, w.aw)
                && close(g.n, w.n)
                && close(g.nbb, w.nbb)
                && close(g.ncb, w.ncb)
                && close(g.c, w.c)
                && close(g.nc, w.nc)
                && close(g.fl, w.fl)
                && close(g.fl_root, w.fl_root)
                && close(g.z, w.z)
                && close(g.la, w.la)
                && close(g.bg_l, w.bg_l)
                && (0..3).all(|i| close(g.rgb_d[i], w.rgb_d[i]) && close(g.wp[i], w.wp[i]));
            cx.ok("defaults", good, || format!("standard conditions {g:?}, specified {w:?}"));
        }
        for _ in 0..20 {
            let a = gen::argb(&mut cx.rng);
            cx.case(&[a as f64, rv.la, rv.bg_l, rv.surround, rv.wp[0]]);
            let x = Hct::from_int(a);
            let got = x.in_viewing_conditions(&lv);
            let want_xyz = Cam::from_argb(a, Vc::srgb()).xyz(&rv);
            let rec = Cam::from_xyz(want_xyz[0], want_xyz[1], want_xyz[2], Vc::srgb());
            let t = rc::l_from_y(want_xyz[1]);
            if want_xyz.iter().all(|v| v.is_finite()) && rec.hue.is_finite() && rec.chroma.is_finite() {
                cx.ok("translated_color", solver::explains(rec.hue, rec.chroma, t, got.to_int()), || {
                    format!("{a:08x} seen as {:08x}, specified {:08x}", got.to_int(), solver::solve(rec.hue, rec.chroma, t))
                });
            }
            coherent(cx, &got, got.to_int());
            let id = x.in_viewing_conditions(&ViewingConditions::make(None, None, None, None, None));
            cx.ok("identity_in_default_conditions", id.to_int() == a, || format!("{a:08x} became {:08x} in default conditions", id.to_int()));
            if cx.failed() {
                return;
            }
        }
        cx.sample(|| vin.text());
    });
}
