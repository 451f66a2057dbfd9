//! C21 colour temperature, C22 disliked colours, C23 blending.
use super::hct::{close, coherent};
use crate::gen;
use crate::refm::cam::{Cam, Vc, H};
use crate::refm::color as rc;
use crate::refm::palette as rp;
use crate::refm::solver;
use crate::refm::temp::{self, T};
use crate::rt::*;
use crate::sut::*;

const JIT: f64 = 1e-8;
fn same(a: &[H], b: &[H]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.argb == y.argb)
}
/// Whether rounding decides the analogous colours (a running sum that equals a step,
/// a hue halfway between two). Asked only when they differ from the specified ones.
pub fn analogous_tie(t: &T, divisions: i64) -> bool {
    let w = t.wheel(divisions);
    let off = 4e-8 / t.range() + 1e-9;
    [-off, off].iter().any(|o| !same(&w, &t.wheel_off(divisions, *o))) || (0..40).any(|k| !same(&w, &t.jittered(k, JIT).wheel(divisions)))
}
/// Whether equal temperatures decide the complement. Asked only when it differs.
pub fn complement_tie(t: &T) -> bool {
    let w = t.complement().0.argb;
    (0..60).any(|k| t.jittered(k, JIT).complement().0.argb != w)
}
fn sources(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => Hct::from(gen::hue(r), gen::chroma(r), gen::tone(r)).to_int(),
        // hues that round up to 360, or to 0
        1 => Hct::from(r.pick(&[359.4, 359.5, 359.6, 359.9, 0.0, 0.4, 0.5, 0.6]), r.range(3.0, 100.0), r.range(2.0, 98.0)).to_int(),
        _ => gen::source(r),
    }
}
pub fn c21(r: &Run) {
    r.describe(
        "Temperature caches of source colours over the gamut (greys, black, white, hues around 0/360 included), questions asked in random order and repeatedly. A case is a distinct (source, question).",
        &["analogous() with count 1..700 and divisions 1..1000", "exactly tied temperatures are not compared with the reference"],
    );
    r.require(&["raw_temperature", "colors_by_hue", "by_temp_sorted", "by_temp_complete", "coldest_warmest", "input_relative", "relative", "relative_elsewhere", "complement_opposite", "complement_color", "analogous_shape", "analogous_colors", "repeat_same", "temps_map", "between"]);
    r.phase("raw", r.scaled(6000, 12), |cx| {
        for _ in 0..400 {
            let a = gen::argb(&mut cx.rng);
            cx.case(&[a as f64]);
            let got = TemperatureCache::raw_temperature(&Hct::from_int(a));
            // Greys have no chroma, so their hue does not matter.
            cx.near("raw_temperature", got, temp::raw(a), 1e-8, || format!("raw temperature of {a:08x}"));
            let (x, p, q) = (gen::hue(&mut cx.rng), gen::hue(&mut cx.rng), gen::hue(&mut cx.rng));
            let x = if cx.rng.chance(0.2) { cx.rng.pick(&[p, q]) } else { x };
            let w = if p < q { p <= x && x <= q } else { p <= x || x <= q };
            cx.ok("between", TemperatureCache::is_between(x, p, q) == w, || format!("is_between({x}, {p}, {q})"));
        }
    });
    r.phase("caches", r.scaled(4000, 12), |cx| {
        let src = sources(&mut cx.rng);
        cx.story(format!("TemperatureCache::new({src:08x})"));
        let mut c = TemperatureCache::new(Hct::from_int(src));
        // A warm-up history: answers must not depend on what was asked before.
        let early: Vec<u64> = (0..cx.rng.below(3)).map(|_| cx.rng.u() % 6).collect();
        let mut first: [Option<u64>; 6] = [None; 6];
        let ask = |c: &mut TemperatureCache, q: u64| -> u64 {
            match q {
                0 => c.get_warmest().to_int() as u64,
                1 => c.get_coldest().to_int() as u64,
                2 => c.get_input_relative_temperature().to_bits(),
                3 => c.get_complement().to_int() as u64,
                4 => c.get_hcts_by_temp().iter().fold(7, |a, x| mix(a, x.to_int() as u64)),
                _ => {
                    let x = c.get_hcts_by_hue()[200].clone();
                    c.relative_temperature(&x).to_bits()
                }
            }
        };
        for q in &early {
            first[*q as usize] = Some(ask(&mut c, *q));
        }
        let hues = c.get_hcts_by_hue();
        cx.ok("colors_by_hue", hues.len() == 360 || hues.len() == 361, || format!("{} colours by hue", hues.len()));
        let me = h(&Hct::from_int(src));
        let mut by: Vec<H> = hues.iter().map(h).collect();
        for (i, x) in by.iter().enumerate() {
            cx.case(&[src as f64, i as f64]);
            if i % 3 == (src % 3) as usize || cx.thorough() {
                let good = solver::explains(i as f64 % 360.0, me.c, me.t, x.argb);
                cx.ok("colors_by_hue", good, || format!("colour at hue {i}: {:08x}, specified {:08x}", x.argb, solver::solve(i as f64 % 360.0, me.c, me.t)));
            }
        }
        if by.len() == 360 {
            by.push(by[0]);
        }
        cx.ok("colors_by_hue", by[360].argb == by[0].argb, || "hue 360 differs from hue 0".into());
        if cx.failed() {
            return;
        }
        let t = T::with_hues(me, by.clone());
        // order
        let sorted: Vec<H> = c.get_hcts_by_temp().iter().map(h).collect();
        let ordered = sorted.windows(2).all(|w| temp::raw(w[0].argb) <= temp::raw(w[1].argb) + 1e-9);
        cx.ok("by_temp_sorted", ordered, || "colours are not sorted from coldest to warmest".into());
        let (mut a, mut b): (Vec<i64>, Vec<i64>) = (sorted.iter().map(|x| x.argb).collect(), hues.iter().map(|x| x.to_int()).collect());
        b.push(src);
        a.sort();
        b.sort();
        cx.ok("by_temp_complete", a == b, || "sorted colours are not the colours by hue and the input".into());
        let (cold, warm) = (c.get_coldest(), c.get_warmest());
        let (ct, wt) = (temp::raw(cold.to_int()), temp::raw(warm.to_int()));
        cx.ok("coldest_warmest", (ct - t.cold.0).abs() < 1e-8 && (wt - t.warm.0).abs() < 1e-8 && b.contains(&cold.to_int()) && b.contains(&warm.to_int()), || {
            format!("coldest {:08x} ({ct}), warmest {:08x} ({wt}); specified {} and {}", cold.to_int(), warm.to_int(), t.cold.0, t.warm.0)
        });
        coherent(cx, &warm, warm.to_int());
        // relative temperatures
        let rng = t.range();
        let flat = rng < 1e-6;
        let rel = c.get_input_relative_temperature();
        if !flat {
            cx.near("input_relative", rel, t.rel(t.input_temp), 1e-7 / rng.min(1.0), || "relative temperature of the input".into());
            cx.ok("input_relative", (-1e-9..=1.0 + 1e-9).contains(&rel), || format!("relative temperature {rel}"));
        } else if rng == 0.0 {
            cx.ok("input_relative", rel == 0.5, || format!("relative temperature {rel} of a colour without variation"));
        }
        for _ in 0..6 {
            let i = cx.rng.below(hues.len());
            let got = c.relative_temperature(&hues[i]);
            if !flat {
                cx.near("relative", got, t.rel(t.temps[i]), 1e-7 / rng.min(1.0), || format!("relative temperature of the colour at hue {i}"));
            } else if rng == 0.0 {
                cx.ok("relative", got == 0.5, || format!("relative temperature {got} without variation"));
            }
        }
        // a colour that is not on the wheel is on the same scale
        let (other, twin) = (gen::argb(&mut cx.rng), (src ^ cx.rng.pick(&[1, 0x100, 0x10000, 2, 0x202])) as i64);
        for a in [other, twin] {
            if let Some(got) = cx.call(|| format!("relative_temperature of {a:08x}"), || c.relative_temperature(&Hct::from_int(a))) {
                if !flat {
                    cx.near("relative_elsewhere", got, t.rel(temp::raw(a)), 1e-7 / rng.min(1.0), || format!("relative temperature of {a:08x}"));
                } else if rng == 0.0 {
                    cx.ok("relative_elsewhere", got == 0.5, || format!("relative temperature {got} without variation"));
                }
            }
        }
        let m = c.get_temps_by_hct();
        let known = hues.iter().all(|x| m.get(x).is_some_and(|v| (v - temp::raw(x.to_int())).abs() < 1e-8)) && m.get(&Hct::from_int(src)).is_some();
        cx.ok("temps_map", known, || "temperatures by colour are incomplete or wrong".into());
        // complement
        let comp = c.get_complement().to_int();
        cx.ok("complement_color", by.iter().any(|x| x.argb == comp), || format!("complement {comp:08x} is not one of the colours by hue"));
        if flat {
            cx.tally("complement: no temperature range");
        } else {
            let (w, _) = t.complement();
            cx.ok("complement_opposite", comp == w.argb || complement_tie(&t), || format!("complement {comp:08x}, specified {:08x}", w.argb));
        }
        // analogous
        for k in 0..2 {
            let (n, d) = if k == 0 && cx.rng.chance(0.4) { (5, 12) } else { match cx.rng.below(12) {
                0 => (cx.rng.int(1, 80), cx.rng.int(1, 120)),
                1 => (cx.rng.int(1, 30), cx.rng.pick(&[180, 359, 360, 361, 400, 720, 1000])),
                2 => (cx.rng.int(100, 700), cx.rng.int(1, 24)),
                _ => (cx.rng.int(1, 14), cx.rng.int(1, 24)),
            } };
            let got: Vec<i64> = if n == 5 && d == 12 && cx.rng.chance(0.5) { c.analogous(None, None) } else { c.analogous(Some(n), Some(d)) }.iter().map(|x| x.to_int()).collect();
            cx.case(&[src as f64, n as f64, d as f64]);
            let mid = ((n - 1) / 2) as usize;
            let shape = got.len() == n as usize && got[mid] == src && got.iter().enumerate().all(|(i, a)| i == mid || by.iter().any(|x| x.argb == *a));
            cx.ok("analogous_shape", shape, || format!("analogous({n}, {d}) = {got:x?}: wants {n} colours of the wheel with the input at {mid}"));
            if flat {
                cx.tally("analogous: no temperature range");
            } else {
                let want: Vec<i64> = t.analogous(n, d).iter().map(|x| x.argb).collect();
                cx.ok("analogous_colors", got == want || analogous_tie(&t, d), || format!("analogous({n}, {d}) = {got:x?}, specified {want:x?}"));
            }
        }
        // ask again
        for (q, f) in first.iter().enumerate() {
            let again = ask(&mut c, q as u64);
            if let Some(f) = f {
                cx.ok("repeat_same", *f == again, || format!("question {q} answered differently later"));
            }
        }
        let mut fresh = TemperatureCache::new(Hct::from_int(src));
        let q = cx.rng.below(6) as u64;
        let f = ask(&mut fresh, q);
        let o = ask(&mut c, q);
        cx.ok("repeat_same", f == o, || format!("question {q}: fresh cache disagrees with a used one"));
        cx.sample(|| format!("{src:08x}: complement {comp:08x}, coldest {:08x}, warmest {:08x}, relative {rel}", cold.to_int(), warm.to_int()));
    });
}

pub fn c22(r: &Run) {
    r.describe(
        "Every one of the 16 777 216 opaque colours is classified and fixed. A case is a colour.",
        &["colours within 1e-9 of the region's edge are accepted either way"],
    );
    r.require(&["disliked_iff_region", "unchanged_if_liked", "fixed_to_tone_70", "fixed_is_liked", "fix_idempotent"]);
    r.phase("all colours", 4096, |cx| {
        let base = cx.index as u32 * 4096;
        let mut liked = 0u64;
        cx.cases_exact(4096);
        for k in 0..4096u32 {
            let a = rc::opaque(base + k);
            let x = Hct::from_int(a);
            let v = h(&x);
            let d = DislikeAnalyzer::is_disliked(&x);
            let w = rp::disliked(&v);
            if d != w && rp::dislike_margin(&v) > 1e-9 {
                cx.fail("disliked_iff_region", format!("{a:08x} (hue {}, chroma {}, tone {}): disliked {d}, specified {w}", v.h, v.c, v.t));
            }
            if d {
                cx.tally("disliked colours");
                let f = DislikeAnalyzer::fix_if_disliked(&x);
                let fa = f.to_int();
                cx.ok("fixed_to_tone_70", solver::explains(v.h, v.c, 70.0, fa) && (rc::lstar(fa) - 70.0).abs() < 1.0, || {
                    format!("{a:08x} fixed to {fa:08x}, specified {:08x}", solver::solve(v.h, v.c, 70.0))
                });
                cx.ok("fixed_is_liked", !DislikeAnalyzer::is_disliked(&f), || format!("{a:08x} fixed to {fa:08x}, still disliked"));
                let g = DislikeAnalyzer::fix_if_disliked(&f).to_int();
                cx.ok("fix_idempotent", g == fa, || format!("{a:08x} fixed to {fa:08x}, then to {g:08x}"));
            } else {
                let f = DislikeAnalyzer::fix_if_disliked(&x);
                if f.to_int() != a || !close(f.get_hue(), v.h) || !close(f.get_chroma(), v.c) || !close(f.get_tone(), v.t) {
                    cx.fail("unchanged_if_liked", format!("{a:08x} is not disliked but became {:08x}", f.to_int()));
                }
                liked += 1;
            }
            if cx.failed() {
                return;
            }
        }
        cx.ok_n("disliked_iff_region", 4096);
        cx.ok_n("unchanged_if_liked", liked);
        cx.sample(|| format!("colours {:08x}..{:08x}", rc::opaque(base), rc::opaque(base + 4095)));
    });
    r.exhausted("all 16777216 opaque colours");
}

pub fn c23(r: &Run) {
    r.describe(
        "Colour pairs over the gamut (near hues, opposite hues, hues across 0, greys, equal colours) and amounts in 0..1 for the three blends. A case is a distinct (pair, amount).",
        &["amount within 0..1"],
    );
    r.require(&["harmonize_color", "harmonize_toward", "harmonize_keeps_tone", "harmonize_self", "hct_hue_color", "hct_hue_keeps_tone", "ucs_color", "ucs_ends", "hct_hue_ends", "opaque"]);
    fn pair(r: &mut Rng) -> (i64, i64) {
        let a = gen::argb(r);
        let b = match r.below(6) {
            0 => {
                let x = H::of(a);
                let d = r.pick(&[0.1, 1.0, 14.9, 15.0, 29.0, 30.0, 31.0, 90.0, 179.0, 180.0, 181.0, 270.0, 345.0, 359.0]) + r.range(-0.6, 0.6);
                Hct::from(rc::san(x.h + d), r.range(5.0, 90.0), r.range(5.0, 95.0)).to_int()
            }
            1 => Hct::from(gen::hue(r), r.range(5.0, 90.0), r.range(5.0, 95.0)).to_int(),
            2 => a,
            _ => gen::argb(r),
        };
        if r.chance(0.5) {
            (a, b)
        } else {
            (b, a)
        }
    }
    r.phase("harmonize", r.scaled(14000, 12), |cx| {
        for _ in 0..60 {
            let (a, b) = pair(&mut cx.rng);
            cx.case(&[a as f64, b as f64]);
            let (x, y) = (H::of(a), H::of(b));
            let got = Blend::harmonize(a, b);
            let gap = rc::diff_deg(x.h, y.h);
            let rot = (gap * 0.5).min(15.0);
            let dir = rc::rot_dir(x.h, y.h);
            let mut good = solver::explains(rc::san(x.h + rot * dir), x.c, x.t, got);
            if !good && (gap > 180.0 - 1e-7 || gap < 1e-7) {
                good = solver::explains(rc::san(x.h - rot * dir), x.c, x.t, got);
            }
            cx.ok("harmonize_color", good, || format!("harmonize({a:08x}, {b:08x}) = {got:08x}, specified {:08x}", solver::solve(rc::san(x.h + rot * dir), x.c, x.t)));
            cx.ok("opaque", got >> 24 == 0xff, || format!("harmonize({a:08x}, {b:08x}) = {got:x}"));
            let g = H::of(got);
            cx.ok("harmonize_keeps_tone", (g.t - x.t).abs() < 1.0 && (g.c <= x.c + 3.5 || x.t > 97.5 || x.t < 5.0), || format!("harmonize({a:08x}, {b:08x}) = {got:08x}: tone {} -> {}, chroma {} -> {}", x.t, g.t, x.c, g.c));
            if x.c > 12.0 && g.c > 12.0 && x.t > 8.0 && x.t < 95.0 && gap < 179.0 {
                let moved = rc::ang(g.h, x.h);
                // what an 8-bit step can do to the hue of so dark a colour
                let room = 1.0 + (1.5 * super::hct::chroma_step(got) / g.c).atan().to_degrees();
                cx.ok("harmonize_toward", moved <= 15.0 + room && rc::diff_deg(g.h, y.h) <= gap + room, || format!("harmonize({a:08x}, {b:08x}) = {got:08x}: hue {} -> {}, source hue {}", x.h, g.h, y.h));
            }
            cx.ok("harmonize_self", Blend::harmonize(a, a) == a, || format!("harmonize({a:08x}, itself) = {:08x}", Blend::harmonize(a, a)));
        }
    });
    r.phase("blends", r.scaled(14000, 12), |cx| {
        let vc = Vc::srgb();
        for _ in 0..60 {
            let (a, b) = pair(&mut cx.rng);
            let q = gen::amount(&mut cx.rng);
            cx.case(&[a as f64, b as f64, q]);
            let (x, y) = (Cam::from_argb(a, vc), Cam::from_argb(b, vc));
            let mix = |p: f64, q1: f64| p + (q1 - p) * q;
            let (j, aa, bb) = (mix(x.jstar, y.jstar), mix(x.astar, y.astar), mix(x.bstar, y.bstar));
            let got = Blend::cam16_ucs(a, b, q);
            let good = rc::rounds_to(Cam::from_ucs(j, aa, bb, vc).lin(vc), got, 1e-6);
            cx.ok("ucs_color", good, || format!("cam16_ucs({a:08x}, {b:08x}, {q}) = {got:08x}, specified {:08x}", Cam::from_ucs(j, aa, bb, vc).to_argb(vc)));
            let (e0, e1) = (Blend::cam16_ucs(a, b, 0.0), Blend::cam16_ucs(a, b, 1.0));
            cx.ok("ucs_ends", e0 == a && e1 == b && Blend::cam16_ucs(a, a, q) == a, || format!("cam16_ucs({a:08x}, {b:08x}) at 0, 1: {e0:08x}, {e1:08x}; with itself {:08x}", Blend::cam16_ucs(a, a, q)));
            let hue = H::of(got).h;
            let xa = H::of(a);
            let hh = Blend::hct_hue(a, b, q);
            cx.ok("hct_hue_color", solver::explains(hue, xa.c, xa.t, hh), || format!("hct_hue({a:08x}, {b:08x}, {q}) = {hh:08x}, specified {:08x}", solver::solve(hue, xa.c, xa.t)));
            let g = H::of(hh);
            cx.ok("hct_hue_keeps_tone", (g.t - xa.t).abs() < 1.0 && (g.c <= xa.c + 3.5 || xa.t > 97.5 || xa.t < 5.0), || format!("hct_hue({a:08x}, {b:08x}, {q}) = {hh:08x}: tone {} -> {}, chroma {} -> {}", xa.t, g.t, xa.c, g.c));
            let (h0, h1) = (Blend::hct_hue(a, b, 0.0), Blend::hct_hue(a, b, 1.0));
            cx.ok("hct_hue_ends", h0 == a && solver::explains(H::of(b).h, xa.c, xa.t, h1), || format!("hct_hue({a:08x}, {b:08x}) at 0, 1: {h0:08x}, {h1:08x}"));
            cx.ok("opaque", got >> 24 == 0xff && hh >> 24 == 0xff, || format!("blends of {a:08x} and {b:08x}: {got:x} {hh:x}"));
            if cx.failed() {
                return;
            }
        }
        cx.sample(|| "60 random blends".into());
    });
}
