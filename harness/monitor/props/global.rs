//! C24 totality, C25 purity: the whole API under hostile, concurrent and repeated use.
use super::dynamic::{make, pick_variant};
use super::hct::vc_in;
use super::quant::{image, max_colors};
use crate::gen;
use crate::mem;
use crate::refm::dynamic::V;
use crate::rt::*;
use crate::sut::*;
use std::collections::HashMap;

/// Everything an operation returned.
pub struct Out {
    d: u64,
    pub argbs: Vec<i64>,
    pub floats: Vec<f64>,
    pub hcts: Vec<[f64; 3]>,
}
impl Out {
    fn new() -> Out {
        Out { d: 1, argbs: vec![], floats: vec![], hcts: vec![] }
    }
    fn a(&mut self, v: i64) {
        self.d = mix(self.d, v as u64);
        self.argbs.push(v);
    }
    fn n(&mut self, v: i64) {
        self.d = mix(self.d, v as u64);
    }
    fn f(&mut self, v: f64) {
        self.d = mix(self.d, v.to_bits());
        self.floats.push(v);
    }
    fn h(&mut self, x: &Hct) {
        self.a(x.to_int());
        for v in [x.get_hue(), x.get_chroma(), x.get_tone()] {
            self.f(v);
        }
        self.hcts.push([x.get_hue(), x.get_chroma(), x.get_tone()]);
    }
    fn s(&mut self, v: &str) {
        self.d = mix(self.d, hash_str(v));
    }
    fn pal(&mut self, p: &mut TonalPalette, r: &mut Rng) {
        self.f(p.hue);
        self.f(p.chroma);
        self.h(&p.key_color.clone());
        let (t, u) = (r.int(0, 100), gen::tone(r));
        self.a(p.get(t));
        self.h(&p.get_hct(u));
        for v in p.get_as_list() {
            self.a(v);
        }
        self.s(&p.to_string());
    }
    fn map(&mut self, m: &HashMap<i64, i64>) {
        let mut v: Vec<_> = m.iter().collect();
        v.sort();
        for (a, n) in v {
            self.a(*a);
            self.n(*n);
        }
    }
}
pub const KINDS: usize = 17;
const NAMES: [&str; KINDS] = [
    "Hct", "Hct setters", "Cam16", "ViewingConditions", "ColorUtils", "MathUtils and hex", "Contrast", "roles of a scheme", "scheme palettes", "TonalPalette", "CorePalette", "legacy scheme", "QuantizerMap and Wu",
    "k-means", "Score", "temperature, dislike, blend", "image to theme",
];
/// Any hue/chroma/tone a caller may pass; hue and tone are documented to be corrected.
fn wild(r: &mut Rng) -> (f64, f64, f64) {
    let h = if r.chance(0.3) { gen::angle(r) } else { gen::hue(r) };
    let c = match r.below(8) {
        0 => r.pick(&[0.0, 1e-300, 1e-9, 1e3, 1e4, 1e5]),
        1 => -r.range(0.0, 5.0),
        _ => gen::chroma(r),
    };
    let t = match r.below(8) {
        0 => r.pick(&[-1e-9, -1.0, -100.0, 100.0 + 1e-9, 101.0, 150.0, 1e4, -1e4, 1e-300]),
        _ => gen::tone(r),
    };
    (h, c, t)
}
pub fn op(kind: usize, seed: u64) -> (Out, String) {
    op_twin(kind, seed, 0)
}
/// The operation on arguments that are slightly different for each `twist`.
fn op_twin(kind: usize, seed: u64, twist: u64) -> (Out, String) {
    let r = &mut Rng::twin(mix(seed, kind as u64), twist);
    let mut o = Out::new();
    let mut say = String::new();
    match kind {
        0 => {
            let (h, c, t) = wild(r);
            say = format!("Hct::from({h:?}, {c:?}, {t:?})");
            let x = Hct::from(h, c, t);
            o.h(&x);
            o.s(&x.to_string());
            o.a(HctSolver::solve_to_int(h, c, t));
            let a = gen::argb(r);
            o.h(&Hct::from_int(a));
            o.h(&x.in_viewing_conditions(&vc_in(r).lib()));
        }
        1 => {
            let mut x = Hct::from_int(gen::argb(r));
            for _ in 0..6 {
                let (h, c, t) = wild(r);
                match r.below(3) {
                    0 => {
                        say += &format!("set_hue({h:?}) ");
                        x.set_hue(h)
                    }
                    1 => {
                        say += &format!("set_chroma({c:?}) ");
                        x.set_chroma(c)
                    }
                    _ => {
                        say += &format!("set_tone({t:?}) ");
                        x.set_tone(t)
                    }
                };
                o.h(&x);
            }
        }
        2 => {
            let a = gen::argb(r);
            let vi = vc_in(r);
            say = format!("Cam16 of {a:08x}");
            let vc = vi.lib();
            let c = Cam16::from_int(a);
            let d = Cam16::from_int_in_viewing_conditions(a, &vc);
            for v in [c.hue, c.chroma, c.j, c.q, c.m, c.s, c.jstar, c.astar, c.bstar, d.hue, d.chroma, d.j, c.distance(&d)] {
                o.f(v);
            }
            o.a(c.to_int());
            o.a(d.viewed(&vc));
            o.a(Cam16::from_ucs(r.range(0.0, 100.0), r.range(-60.0, 60.0), r.range(-60.0, 60.0)).to_int());
        }
        3 => {
            let v = vc_in(r);
            say = v.text();
            let vc = v.lib();
            for x in [vc.aw, vc.nbb, vc.ncb, vc.c, vc.n_c, vc.fl, vc.f_lroot, vc.z, vc.background_y_to_white_point_y] {
                o.f(x);
            }
        }
        4 => {
            let a = gen::argb(r);
            let t = match r.below(6) {
                0 => r.range(-20.0, 120.0),
                _ => gen::tone(r),
            };
            say = format!("ColorUtils of {a:08x}, {t:?}");
            for v in ColorUtils::lab_from_argb(a).iter().chain(ColorUtils::xyz_from_argb(a).iter()) {
                o.f(*v);
            }
            o.f(ColorUtils::lstar_from_argb(a));
            o.f(ColorUtils::y_from_lstar(t));
            o.a(ColorUtils::argb_from_lstar(t));
            o.a(ColorUtils::argb_from_lab(t, r.range(-150.0, 150.0), r.range(-150.0, 150.0)));
            o.a(ColorUtils::argb_from_xyz(r.range(-10.0, 120.0), r.range(-10.0, 120.0), r.range(-10.0, 130.0)));
            o.n(ColorUtils::delinearized(r.range(-20.0, 130.0)));
            o.f(ColorUtils::linearized(r.int(0, 255)));
        }
        5 => {
            let (x, y) = (gen::angle(r), gen::angle(r));
            say = format!("MathUtils on {x:?}, {y:?}");
            o.f(MathUtils::sanitize_degrees_double(x));
            o.n(MathUtils::sanitize_degrees_int(r.int(-100_000, 100_000)));
            o.f(MathUtils::rotation_direction(x, y));
            let a = gen::argb(r);
            o.s(&StringUtils::hex_from_argb(a, None));
            let n = r.below(12);
            let junk: String = (0..n).map(|_| r.pick(&['#', '0', 'f', 'F', 'g', 'é', ' ', '9', '-', '+', 'x', '\u{1F600}'])).collect();
            say += &format!(", argb_from_hex({junk:?})");
            o.n(StringUtils::argb_from_hex(junk).unwrap_or(-1));
        }
        6 => {
            let (a, b) = (if r.chance(0.2) { r.range(-50.0, 150.0) } else { gen::tone(r) }, if r.chance(0.2) { r.range(-50.0, 150.0) } else { gen::tone(r) });
            let q = if r.chance(0.1) { r.range(0.0, 40.0) } else { gen::ratio(r) };
            say = format!("Contrast on {a:?}, {b:?}, {q:?}");
            for v in [Contrast::ratio_of_tones(a, b), Contrast::lighter(a, q), Contrast::darker(a, q), Contrast::lighter_unsafe(a, q), Contrast::darker_unsafe(a, q)] {
                o.f(v);
            }
            let t = a.clamp(0.0, 100.0);
            o.f(DynamicColor::foreground_tone(t, q));
        }
        7 => {
            let mut m = make(r, 0.02, 0.3);
            if r.chance(0.15) {
                m.lib.contrast_level = r.range(-3.0, 3.0);
            }
            say = m.text.clone();
            for x in ROLES {
                o.a((x.1)(&m.lib));
            }
            let k = r.below(ROLES.len());
            o.h(&(ROLES[k].2)().get_hct(&m.lib));
            o.f((ROLES[k].2)().get_tone(&m.lib));
        }
        8 => {
            let v = pick_variant(r, 0.04);
            let a = gen::source(r);
            say = format!("{v:?}({a:08x})");
            let dark = r.chance(0.5);
            let dark = r.near_bool(dark);
            let s = scheme(v, Hct::from_int(a), dark, gen::contrast_level(r));
            for p in pals(&s) {
                o.pal(&mut p.clone(), r);
            }
        }
        9 => {
            let (h, c, _) = wild(r);
            say = format!("TonalPalette::of({h:?}, {c:?})");
            o.pal(&mut TonalPalette::of(h, c), r);
            let l: Vec<i64> = (0..13).map(|_| gen::argb(r)).collect();
            say += &format!(", from_list({l:x?})");
            o.pal(&mut TonalPalette::from_list(&l), r);
            o.pal(&mut TonalPalette::from_hct(&Hct::from_int(gen::argb(r))), r);
        }
        10 => {
            let a = gen::source(r);
            say = format!("CorePalette of {a:08x}");
            let mut c = if r.chance(0.5) { CorePalette::of(a) } else { CorePalette::content_of(a) };
            let l = c.as_list();
            for v in &l {
                o.a(*v);
            }
            let mut b = CorePalette::from_list(&l);
            o.n((b == c) as i64);
            o.pal(&mut b.tertiary, r);
            o.s(&b.to_string());
        }
        11 => {
            let a = gen::source(r);
            say = format!("Scheme of {a:08x}");
            #[allow(deprecated)]
            let s = match r.below(4) {
                0 => Scheme::light(a),
                1 => Scheme::dark(a),
                2 => Scheme::light_content(a),
                _ => Scheme::dark_content(a),
            };
            for v in [s.primary, s.on_primary, s.tertiary, s.error, s.outline, s.inverse_surface, s.scrim] {
                o.a(v);
            }
        }
        12 => {
            let (px, k) = image(r, 1500);
            let m = max_colors(r, 64);
            say = format!("quantize {k} of {} pixels, limit {m}", px.len());
            o.map(&QuantizerMap {}.quantize(&px, m, None).color_to_count);
            if px.iter().any(|p| p >> 24 == 0xff) {
                o.map(&QuantizerWu::new().quantize(&px, m, None).color_to_count);
            }
        }
        13 => {
            let (px, k) = image(r, 400);
            let m = max_colors(r, 64);
            say = format!("k-means on {k} of {} pixels, limit {m}", px.len());
            let x = QuantizerWsmeans::quantize(&px, m, None, None, None, Some(true));
            o.map(&x.color_to_count);
            o.d = x.input_pixel_to_cluster_pixel.iter().fold(o.d, |a, (p, c)| a ^ mix(*p as u64, *c as u64));
            if px.iter().any(|p| p >> 24 == 0xff) {
                let x = QuantizerCelebi {}.quantize(&px, m, Some(true));
                o.map(&x.color_to_count);
                o.d = x.input_pixel_to_cluster_pixel.iter().fold(o.d, |a, (p, c)| a ^ mix(*p as u64, *c as u64));
            }
        }
        14 => {
            let n = r.below(60);
            let most = r.pick(&[100, 100_000, 100_000, 1 << 40]);
            let m: HashMap<i64, i64> = (0..n)
                .map(|_| {
                    let (a, k) = (gen::argb(r), r.int(1, most));
                    (a, r.near_count(k))
                })
                .collect();
            say = format!("score of {n} colours, populations up to {most}");
            let d = r.int(1, 12);
            for a in Score::score(&m, if r.chance(0.5) { None } else { Some(d) }, None, None) {
                o.a(a);
            }
        }
        15 => {
            let (a, b) = (gen::argb(r), gen::argb(r));
            say = format!("temperature, dislike, blend of {a:08x}, {b:08x}");
            let q = gen::amount(r);
            o.a(Blend::harmonize(a, b));
            o.a(Blend::hct_hue(a, b, q));
            o.a(Blend::cam16_ucs(a, b, q));
            o.h(&DislikeAnalyzer::fix_if_disliked(&Hct::from_int(a)));
            o.n(DislikeAnalyzer::is_disliked(&Hct::from_int(b)) as i64);
            let mut t = TemperatureCache::new(Hct::from_int(a));
            o.f(TemperatureCache::raw_temperature(&Hct::from_int(b)));
            o.f(t.get_input_relative_temperature());
            o.h(&t.get_warmest());
            o.h(&t.get_coldest());
            o.h(&t.get_complement());
            if r.chance(0.15) {
                let (n, d) = (r.int(1, 10), r.int(1, 16));
                say += &format!(", analogous({n}, {d})");
                for x in t.analogous(Some(n), Some(d)) {
                    o.h(&x);
                }
            }
        }
        _ => {
            let (mut px, k) = image(r, 1200);
            if !px.iter().any(|p| p >> 24 == 0xff) {
                px.push(gen::argb(r));
            }
            let m = r.pick(&[4, 8, 16]);
            say = format!("theme from {k} of {} pixels, {m} colours", px.len());
            let q = QuantizerCelebi {}.quantize(&px, m, None);
            let opaque: HashMap<i64, i64> = q.color_to_count;
            let ranked = Score::score(&opaque, Some(4), None, None);
            for a in &ranked {
                o.a(*a);
            }
            let v = r.pick(&[V::TonalSpot, V::Vibrant, V::Expressive, V::FruitSalad, V::Neutral]);
            let s = scheme(v, Hct::from_int(ranked[0]), r.chance(0.5), gen::contrast_level(r));
            for x in ROLES {
                o.a((x.1)(&s));
            }
        }
    }
    (o, say)
}
const TWINS: usize = 5;
fn twin_list(seed: u64) -> Vec<(usize, u64, u64)> {
    let mut l = vec![];
    for kind in 0..KINDS {
        let groups = match kind {
            0 | 1 | 4 | 6 => 60,
            2 | 3 | 9 | 14 => 24,
            5 => 2,
            15 | 16 => 2,
            _ => 4,
        };
        for g in 0..groups {
            let s = mix(seed, (kind * 1000 + g) as u64);
            l.push((kind, s, 0));
            for t in 1..TWINS as u64 {
                let z = mix(s, t);
                l.push((kind, s, z & !7 | 1 + z % 7));
            }
        }
    }
    l
}
/// Digests of slightly different operations, done in one of several orders.
pub fn twin_digests(seed: u64, order: u64) -> Vec<u64> {
    let l = twin_list(seed);
    let mut o: Vec<usize> = (0..l.len()).collect();
    match order {
        0 => {}
        1 => o.reverse(),
        _ => Rng::new(mix(seed, order)).shuffle(&mut o),
    }
    let mut d = vec![0; l.len()];
    for i in o {
        d[i] = op_twin(l[i].0, l[i].1, l[i].2).0.d;
    }
    d
}
/// Digests of a list of operations, for another process to compare with.
pub fn digests(seed: u64, n: usize) -> Vec<u64> {
    (0..n).map(|i| op(i % KINDS, mix(seed, i as u64)).0.d).collect()
}

pub fn c24(r: &Run) {
    r.describe(
        "Every public operation with hostile but meaningful arguments (angles of any size, negative and huge chroma, tones and contrast levels outside their range, malformed hex, degenerate, empty, transparent and multi-million-pixel images), in a build with overflow and debug checks, a CPU-time watchdog and memory monitors (a watchdog on the process, a counting allocator on single calls and on long-lived objects). A case is a distinct operation with its arguments.",
        &["finite arguments; limits of at least 1 colour"],
    );
    r.require(&["completes", "opaque_results", "finite_results", "hct_in_range", "images", "large_images", "memory_bounded"]);
    r.phase("operations", r.scaled(17 * 700, 12), |cx| {
        let kind = cx.index as usize % KINDS;
        let reps = match kind {
            0..=6 => 60,
            7..=11 => 8,
            15 => 2,
            _ => 3,
        };
        for _ in 0..reps {
            let seed = cx.rng.u();
            cx.case_hash(mix(seed, kind as u64));
            let res = guarded(|| op(kind, seed));
            let (o, say) = match res {
                Ok(x) => x,
                Err(e) => {
                    cx.fail("completes", format!("{} (operation {kind}, seed {seed}) {e}", NAMES[kind]));
                    return;
                }
            };
            cx.story(say.clone());
            cx.ok("completes", true, String::new);
            let quant = kind == 12;
            cx.ok("opaque_results", quant || o.argbs.iter().all(|a| (0xff00_0000..=0xffff_ffff).contains(a)), || format!("{}: {:x?}", NAMES[kind], o.argbs.iter().find(|a| !(0xff00_0000..=0xffff_ffff).contains(*a))));
            cx.ok("finite_results", o.floats.iter().all(|v| v.is_finite()), || format!("{}: {:?}", NAMES[kind], o.floats));
            cx.ok(
                "hct_in_range",
                o.hcts.iter().all(|x| (0.0..360.0).contains(&x[0]) && (0.0..250.0).contains(&x[1]) && (-1e-9..=100.0 + 1e-9).contains(&x[2])),
                || format!("{}: {:?}", NAMES[kind], o.hcts),
            );
            if cx.failed() {
                return;
            }
            cx.tally(NAMES[kind]);
            cx.sample(|| say.clone());
        }
    });
    r.phase("degenerate images", r.scaled(3000, 10), |cx| {
        let n = cx.rng.below(5);
        let px: Vec<i64> = match cx.rng.below(4) {
            0 => vec![],
            1 => (0..n + 1).map(|_| gen::rgb(&mut cx.rng) as i64).collect(),
            2 => vec![gen::argb(&mut cx.rng); n + 1],
            _ => (0..n + 1).map(|_| gen::rgb(&mut cx.rng) as i64 | cx.rng.pick(&[0i64, 0x7f, 0xfe, 0xff]) << 24).collect(),
        };
        let m = max_colors(&mut cx.rng, 256);
        cx.story(format!("image {px:x?}, limit {m}"));
        cx.case_hash(px.iter().fold(m as u64, |a, b| mix(a, *b as u64)));
        let ok = cx.call(|| "QuantizerMap".into(), || QuantizerMap {}.quantize(&px, m, None).color_to_count.len());
        let ok2 = cx.call(|| "QuantizerWu".into(), || QuantizerWu::new().quantize(&px, m, None).color_to_count.len());
        let ok3 = cx.call(|| "QuantizerWsmeans".into(), || QuantizerWsmeans::quantize(&px, m, None, None, None, Some(true)).color_to_count.len());
        let ok4 = cx.call(|| "QuantizerCelebi".into(), || QuantizerCelebi {}.quantize(&px, m, Some(true)).color_to_count);
        if let Some(c) = ok4 {
            let s = cx.call(|| format!("Score of {c:x?}"), || Score::score(&c, None, None, None));
            if let Some(s) = s {
                cx.ok("images", !s.is_empty() && s.iter().all(|a| a >> 24 == 0xff), || format!("score {s:x?}"));
            }
        }
        for k in [ok, ok2, ok3].into_iter().flatten() {
            cx.ok("images", k <= px.len().max(m as usize), || format!("{k} colours"));
        }
    });
    r.phase("large images", r.scaled(24, 3), |cx| {
        let kind = cx.index % 3;
        let n: usize = match kind {
            0 => 9_000_000,
            1 => 150_000,
            _ => 1_000_000,
        };
        let white = cx.rng.chance(0.5);
        let mut px = Vec::with_capacity(n);
        let pal: Vec<i64> = (0..40).map(|_| gen::argb(&mut cx.rng)).collect();
        for i in 0..n {
            px.push(match kind {
                0 => {
                    if white || i % 3 == 0 {
                        0xffff_ffff
                    } else {
                        0xffff_fff0
                    }
                }
                1 => 0xff00_0000 | (cx.rng.u() & 0xffffff) as i64,
                _ => pal[(cx.rng.u() % 40) as usize],
            });
        }
        let m = cx.rng.pick(&[1, 4, 16]);
        cx.story(format!("{n} pixels, kind {kind}, limit {m}"));
        cx.case_hash(mix(n as u64, cx.index));
        let (c, peak) = mem::peak_of(|| cx.call(|| "QuantizerCelebi".into(), || QuantizerCelebi {}.quantize(&px, m, None).color_to_count));
        cx.sample(|| format!("{n} pixels, limit {m}: {peak} bytes at the worst moment"));
        cx.ok("memory_bounded", peak < (64 << 20) + 1000 * n as i64, || format!("quantizing {n} pixels held {peak} bytes at once"));
        if let Some(c) = c {
            cx.ok("large_images", !c.is_empty() && c.len() as i64 <= m && c.values().all(|v| *v > 0) && c.values().sum::<i64>() <= n as i64, || format!("{c:x?}"));
        }
    });
    // What long-lived objects keep must not grow with the number of questions.
    r.phase("memory", r.scaled(16, 8), |cx| {
        let kind = cx.index % 4;
        let (n, what): (usize, &str) = match kind {
            0 => (40_000, "one role object over many schemes"),
            1 => (250_000, "HCT requests"),
            2 => (120_000, "one palette, many tones"),
            _ => (1_500, "one temperature cache, many questions"),
        };
        cx.story(what.to_string());
        cx.case_hash(mix(kind + 77, cx.index));
        let h0 = gen::hue(&mut cx.rng);
        let p = |c: f64| TonalPalette::of(h0, c);
        let mut s = DynamicScheme::new(gen::argb(&mut cx.rng), Variant::TonalSpot, None, false, p(40.0), p(16.0), p(24.0), p(6.0), p(8.0));
        let mut role = cx.rng.pick(&[MDC::primary, MDC::surface, MDC::on_tertiary_fixed])();
        let mut pal = p(30.0);
        let mut tc = TemperatureCache::new(Hct::from_int(gen::source(&mut cx.rng)));
        let mut early = 0;
        for i in 0..n {
            if i == n / 20 {
                early = mem::live();
            }
            match kind {
                0 => {
                    s.contrast_level = cx.rng.range(-1.0, 1.0);
                    s.is_dark = cx.rng.chance(0.5);
                    s.source_color_argb = gen::argb(&mut cx.rng);
                    role.get_hct(&s);
                }
                1 => {
                    let q = (gen::hue(&mut cx.rng), gen::chroma(&mut cx.rng), gen::tone(&mut cx.rng));
                    Hct::from(q.0, q.1, q.2);
                }
                2 => {
                    let (t, i) = (cx.rng.range(0.0, 100.0), cx.rng.int(0, 100));
                    pal.get_hct(t);
                    pal.get(i);
                }
                _ => {
                    tc.get_complement();
                    let (n, d) = (cx.rng.int(1, 9), cx.rng.int(1, 20));
                    tc.analogous(Some(n), Some(d));
                }
            }
        }
        let grown = mem::live() - early;
        cx.ok("memory_bounded", grown < 6 << 20, || format!("{what}: {n} questions left {grown} bytes behind"));
        cx.sample(|| format!("{what}: {n} questions, {grown} bytes more than after {}", n / 20));
    });
}

pub fn c25(r: &Run) {
    r.describe(
        "Batteries of operations over the whole API, evaluated once as a baseline and again: in other orders, after other work, on four threads at once with shuffled order and injected yields, in other processes (different hash seeds, different address layout), and mixed with slightly different operations in several orders. A case is a distinct operation with its arguments.",
        &["same build of the library"],
    );
    r.require(&["order_independent", "thread_independent", "process_independent", "pipeline_same", "twin_independent"]);
    r.phase("histories", r.scaled(300, 12), |cx| {
        let base = cx.rng.u();
        let n = 34;
        let list: Vec<(usize, u64)> = (0..n).map(|i| (i % KINDS, mix(base, i as u64))).collect();
        let run = |k: &(usize, u64)| op(k.0, k.1).0.d;
        let want: Vec<u64> = list.iter().map(run).collect();
        for k in &list {
            cx.case_hash(mix(k.1, k.0 as u64));
        }
        let mut order: Vec<usize> = (0..n).collect();
        cx.rng.shuffle(&mut order);
        for i in &order {
            let d = run(&list[*i]);
            cx.ok(if list[*i].0 == 16 { "pipeline_same" } else { "order_independent" }, d == want[*i], || format!("{}: another result after other calls ({})", NAMES[list[*i].0], op(list[*i].0, list[*i].1).1));
        }
        let seeds: Vec<u64> = (0..4).map(|_| cx.rng.u()).collect();
        let results: Vec<Vec<(usize, u64)>> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|sd| {
                    let list = &list;
                    let sd = *sd;
                    s.spawn(move || {
                        let mut r = Rng::new(sd);
                        let mut o: Vec<usize> = (0..n).collect();
                        r.shuffle(&mut o);
                        o.into_iter()
                            .map(|i| {
                                if r.chance(0.3) {
                                    std::thread::yield_now();
                                }
                                (i, op(list[i].0, list[i].1).0.d)
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for res in results {
            cx.ok("thread_independent", res.len() == n, || "a thread panicked".into());
            for (i, d) in res {
                cx.ok("thread_independent", d == want[i], || format!("{}: another result on a thread ({})", NAMES[list[i].0], op(list[i].0, list[i].1).1));
            }
        }
        cx.sample(|| format!("{n} operations, 4 threads, base {base:x}"));
    });
    r.phase("processes", r.scaled(24, 6), |cx| {
        let seed = cx.rng.u();
        let n = 17 * 4;
        let want = digests(seed, n);
        let exe = std::env::current_exe().expect("own path");
        let out = std::process::Command::new(exe).args(["--digest", &seed.to_string(), &n.to_string()]).output().expect("run child");
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let got: Vec<u64> = text.lines().filter_map(|l| l.parse().ok()).collect();
        cx.ok("process_independent", got.len() == n, || format!("child process failed: {}", String::from_utf8_lossy(&out.stderr)));
        for (i, (a, b)) in want.iter().zip(&got).enumerate() {
            cx.case_hash(mix(seed, i as u64));
            cx.ok("process_independent", a == b, || format!("{}: another result in another process ({})", NAMES[i % KINDS], op(i % KINDS, mix(seed, i as u64)).1));
        }
        cx.sample(|| format!("{n} operations compared with another process"));
    });
    // Whatever is remembered between calls must not be taken for the answer to a similar call.
    r.phase("twins", r.scaled(16, 8), |cx| {
        let seed = cx.rng.u();
        let l = twin_list(seed);
        let exe = std::env::current_exe().expect("own path");
        let runs: Vec<Vec<u64>> = (0..3u64)
            .map(|order| {
                let out = std::process::Command::new(&exe).args(["--twins", &seed.to_string(), &order.to_string()]).output().expect("run child");
                String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| l.parse().ok()).collect()
            })
            .collect();
        for r in &runs {
            cx.ok("twin_independent", r.len() == l.len(), || "a child process failed".into());
        }
        if cx.failed() {
            return;
        }
        for (i, (kind, s, t)) in l.iter().enumerate() {
            cx.case_hash(mix(*s, *t));
            for r in &runs[1..] {
                cx.ok("twin_independent", r[i] == runs[0][i], || format!("{}: the answer depends on similar calls made before ({})", NAMES[*kind], op_twin(*kind, *s, *t).1));
            }
            if *t != 0 && runs[0][i] != runs[0][i - i % TWINS] {
                cx.tally("twins with another answer");
            }
        }
        cx.sample(|| format!("{} similar operations in three orders, each in its own process", l.len()));
    });
}
