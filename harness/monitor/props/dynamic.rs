//! C09 contrast of roles, C10 tone pairs, C11 role specification, C12 cache transparency,
//! C16 scheme palettes, C27 resolution rules on custom colours.
use super::hct::{close, coherent};
use crate::gen;
use crate::refm::cam::H;
use crate::refm::color as rc;
use crate::refm::dynamic as rd;
use crate::refm::dynamic::{Bg, Curve, Role, S, V, VARIANTS};
use crate::refm::palette::{self as rp, P};
use crate::refm::{schemes, solver, temp};
use crate::rt::*;
use crate::sut::*;

/// A scheme: usually one of the nine variants from a source colour, sometimes assembled
/// by hand from palettes.
pub struct Made {
    pub lib: DynamicScheme,
    pub v: V,
    pub text: String,
    pub custom: bool,
}
/// Cheap variants mostly; the two temperature-based ones are expensive.
pub fn pick_variant(r: &mut Rng, costly: f64) -> V {
    if r.chance(costly) {
        r.pick(&[V::Content, V::Fidelity])
    } else {
        r.pick(&[V::Monochrome, V::Neutral, V::TonalSpot, V::Vibrant, V::Expressive, V::Rainbow, V::FruitSalad])
    }
}
pub fn make(r: &mut Rng, costly: f64, custom: f64) -> Made {
    let src = gen::source(r);
    let dark = r.chance(0.5);
    let dark = r.near_bool(dark);
    let level = gen::contrast_level(r);
    if r.chance(custom) {
        let v = r.pick(&VARIANTS);
        let mut hc = vec![];
        for i in 0..5 {
            let h = gen::hue(r);
            let c = if i >= 3 { r.range(0.0, 20.0) } else { gen::chroma(r).min(200.0) };
            hc.push((h, c));
        }
        let none = r.chance(0.2);
        let p = |i: usize| TonalPalette::of(hc[i].0, hc[i].1);
        let lib = DynamicScheme::new(src, variant(v), if none { None } else { Some(level) }, dark, p(0), p(1), p(2), p(3), p(4));
        let text = format!("DynamicScheme::new({src:08x}, {v:?}, contrast {:?}, dark {dark}, palettes {hc:?})", if none { None } else { Some(level) });
        return Made { lib, v, text, custom: true };
    }
    let v = pick_variant(r, costly);
    let lib = scheme(v, Hct::from_int(src), dark, level);
    Made { lib, v, text: format!("{v:?}({src:08x}, dark {dark}, contrast {level:?})"), custom: false }
}
fn bg_names(b: Bg, dark: bool) -> &'static str {
    match b {
        Bg::Role(n) => n,
        Bg::Highest => {
            if dark {
                "surface_bright"
            } else {
                "surface_dim"
            }
        }
    }
}
fn idx(name: &str) -> usize {
    ROLES.iter().position(|x| x.0 == name).unwrap()
}
/// Tone of a role with slightly moved inputs: what a legitimate reformulation could see.
fn tone_explained(role: &Role, s: &S, got: f64) -> bool {
    let near = |w: f64| (got - w).abs() <= 1e-6;
    if near(rd::tone(role, s)) {
        return true;
    }
    for e in [1e-9, 1e-7] {
        for k in 1..9 {
            let mut t = s.clone();
            let sg = if k % 2 == 0 { e } else { -e };
            match k / 2 {
                0 | 1 => t.contrast += sg,
                2 => t.src.t += sg,
                3 => t.pal.iter_mut().for_each(|p| p.c *= 1.0 + sg),
                _ => t.pal.iter_mut().for_each(|p| p.h += sg),
            }
            if near(rd::tone(role, &t)) {
                return true;
            }
        }
    }
    false
}

pub fn c09(r: &Run) {
    r.describe(
        "Every foreground role against the background role(s) it is specified for, over schemes of all nine variants (and hand-assembled ones) x source colours x light/dark x contrast levels. A case is a distinct (scheme, role); ratios are computed from the tones and from the emitted ARGB colours.",
        &["contrast level within -1..1"],
    );
    r.require(&["text_contrast_tones", "text_contrast_argb", "surface_text", "higher_level_not_lower"]);
    r.phase("roles", r.scaled(9000, 12), |cx| {
        for _ in 0..6 {
            let m = make(&mut cx.rng, 0.04, 0.15);
            cx.story(m.text.clone());
            let s = &m.lib;
            let tones: Vec<f64> = ROLES.iter().map(|x| (x.2)().get_tone(s)).collect();
            let argbs: Vec<i64> = ROLES.iter().map(|x| (x.1)(s)).collect();
            let ys: Vec<f64> = argbs.iter().map(|a| rc::xyz(*a)[1]).collect();
            for (i, role) in ROLES.iter().enumerate() {
                let spec = rd::role(role.0);
                if spec.pair.is_some() {
                    continue;
                }
                let (Some(b1), Some(curve)) = (spec.bg, spec.curve) else { continue };
                let want = curve.get(s.contrast_level);
                let mut bgs = vec![bg_names(b1, s.is_dark)];
                if let Some(b2) = spec.bg2 {
                    bgs.push(bg_names(b2, s.is_dark));
                }
                let dual = bgs.len() > 1;
                cx.case(&[hash_str(&m.text) as f64, i as f64]);
                // What can be achieved at all against these backgrounds.
                let bt: Vec<f64> = bgs.iter().map(|b| tones[idx(b)]).collect();
                let reach = |t: f64| bt.iter().map(|b| rc::ratio(*b, t)).fold(f64::MAX, f64::min);
                let best = if dual {
                    // Foregrounds stay on the side people prefer for such backgrounds.
                    if bt.iter().any(|t| rd::prefers_light(*t)) {
                        reach(100.0)
                    } else {
                        reach(100.0).max(reach(0.0))
                    }
                } else {
                    reach(100.0).max(reach(0.0))
                };
                let goal = want.min(best);
                let got = reach(tones[i]);
                // 0.1: two nearly equal insufficient choices are decided by preference.
                // 0.3: a tone that exists only without the 0.4 safety margin.
                let slack = if want >= best * 0.95 { 0.1 + 0.03 * best } else { 1e-6 };
                cx.ok("text_contrast_tones", got >= goal - slack, || format!("{} on {bgs:?}: ratio {got} (tones {} on {bt:?}), promised {want}, achievable {best}", role.0, tones[i]));
                let got = bgs
                    .iter()
                    .map(|b| rc::ratio_y(ys[i], ys[idx(b)]))
                    .fold(f64::MAX, f64::min);
                let aslack = slack + 0.02 * goal + 0.02;
                cx.ok("text_contrast_argb", got >= goal - aslack, || format!("{} ({:08x}) on {bgs:?}: ratio {got} of the emitted colours, promised {want}, achievable {best}", role.0, argbs[i]));
            }
            // Text on every surface level, at the standard level and above.
            if s.contrast_level >= 0.0 {
                for sf in ["surface", "surface_dim", "surface_bright", "surface_container_lowest", "surface_container_low", "surface_container", "surface_container_high", "surface_container_highest", "background"] {
                    for (fg, min) in [("on_surface", 4.5), ("on_surface_variant", 3.0)] {
                        let q = rc::ratio_y(ys[idx(fg)], ys[idx(sf)]);
                        cx.ok("surface_text", q >= min, || format!("{fg} on {sf}: {q}"));
                    }
                }
            }
            // Raising the contrast level never lowers the contrast of text on its background
            // below what the lower level promised.
            if m.custom && s.contrast_level < 1.0 {
                let mut up = s.clone();
                up.contrast_level = 1.0;
                for n in ["on_primary", "on_secondary", "on_tertiary", "on_error", "on_surface", "inverse_on_surface"] {
                    let spec = rd::role(n);
                    let b = bg_names(spec.bg.unwrap(), s.is_dark);
                    let hi = rc::ratio(maker(n)().get_tone(&up), maker(b)().get_tone(&up));
                    let promised = spec.curve.unwrap().get(s.contrast_level).min(4.5);
                    cx.ok("higher_level_not_lower", hi >= promised - 1e-6, || format!("{n} on {b}: ratio {hi} at level 1, {promised} promised at {}", s.contrast_level));
                }
            }
            if cx.failed() {
                return;
            }
            cx.sample(|| m.text.clone());
        }
    });
}

pub fn c10(r: &Run) {
    r.describe(
        "Every pair of roles with a required tone distance (accent/container, fixed/fixed dim) over schemes of all variants, hand-assembled ones, light/dark and contrast levels. A case is a distinct (scheme, pair).",
        &["contrast level within -1..1"],
    );
    r.require(&["container_nearer_surface_by_delta", "fixed_lighter_than_dim_by_delta", "outside_awkward_zone", "specified_pair_tones", "emitted_order"]);
    const PAIRS: [(&str, &str); 7] = [
        ("primary_container", "primary"),
        ("secondary_container", "secondary"),
        ("tertiary_container", "tertiary"),
        ("error_container", "error"),
        ("primary_fixed", "primary_fixed_dim"),
        ("secondary_fixed", "secondary_fixed_dim"),
        ("tertiary_fixed", "tertiary_fixed_dim"),
    ];
    r.phase("pairs", r.scaled(8000, 12), |cx| {
        for _ in 0..12 {
            let m = make(&mut cx.rng, 0.02, 0.4);
            cx.story(m.text.clone());
            let s = &m.lib;
            let view = view(s, m.v);
            for (k, (a, b)) in PAIRS.iter().enumerate() {
                cx.case(&[hash_str(&m.text) as f64, k as f64]);
                let (ta, tb) = (maker(a)().get_tone(s), maker(b)().get_tone(s));
                if k < 4 {
                    let d = if s.is_dark { tb - ta } else { ta - tb };
                    cx.ok("container_nearer_surface_by_delta", d >= 10.0 - 1e-9, || format!("{a} {ta}, {b} {tb}, dark {}", s.is_dark));
                } else {
                    cx.ok("fixed_lighter_than_dim_by_delta", ta - tb >= 10.0 - 1e-9, || format!("{a} {ta}, {b} {tb}"));
                }
                for (n, t) in [(a, ta), (b, tb)] {
                    cx.ok("outside_awkward_zone", !(50.0..60.0).contains(&t) && (0.0..=100.0).contains(&t), || format!("{n} has tone {t}"));
                    cx.ok("specified_pair_tones", tone_explained(rd::role(n), &view, t), || format!("{n} has tone {t}, specified {}", rd::tone(rd::role(n), &view)));
                }
                let (xa, xb) = (rc::lstar((ROLES[idx(a)].1)(s)), rc::lstar((ROLES[idx(b)].1)(s)));
                let good = if k < 4 && s.is_dark { xa < xb } else { xa > xb };
                cx.ok("emitted_order", good && (xa - ta).abs() < 3.0 && (xb - tb).abs() < 3.0, || format!("{a}/{b}: emitted tones {xa} / {xb}, resolved {ta} / {tb}"));
            }
            if cx.failed() {
                return;
            }
            cx.sample(|| m.text.clone());
        }
    });
}

pub fn c11(r: &Run) {
    r.describe(
        "All roles of schemes over the nine variants and hand-assembled palettes x light/dark x contrast levels: resolved tone, HCT and ARGB compared with the role table of the specification, and the scheme's named getters compared with the role objects. A case is a distinct (scheme, role).",
        &["contrast level within -1..1"],
    );
    r.require(&["role_tone", "role_color", "getter_agrees", "hct_agrees", "every_role_known", "hct_coordinates"]);
    r.phase("roles", r.scaled(4500, 12), |cx| {
        cx.ok("every_role_known", ROLES.len() == rd::roles().len() && ROLES.iter().all(|x| rd::roles().iter().any(|y| y.name == x.0)), || "role tables differ".into());
        for _ in 0..6 {
            let m = make(&mut cx.rng, 0.05, 0.25);
            cx.story(m.text.clone());
            let s = &m.lib;
            let v = view(s, m.v);
            for (i, (name, get, mk)) in ROLES.iter().enumerate() {
                cx.case(&[hash_str(&m.text) as f64, i as f64]);
                let spec = rd::role(name);
                let mut dc = mk();
                let t = dc.get_tone(s);
                cx.ok("role_tone", tone_explained(spec, &v, t), || format!("{name}: tone {t}, specified {}", rd::tone(spec, &v)));
                let a = get(s);
                cx.ok("role_color", v.pal[spec.pal].explains(t, a), || {
                    let p = &v.pal[spec.pal];
                    format!("{name}: {a:08x}, specified {:08x} (palette hue {} chroma {}, tone {t})", p.argb(t), p.h, p.c)
                });
                let b = dc.get_argb(s);
                let h = dc.get_hct(s);
                cx.ok("getter_agrees", a == b && s.get_argb(&mut mk()) == a, || format!("{name}: getter {a:08x}, role {b:08x}"));
                cx.ok("hct_agrees", h.to_int() == a && s.get_hct(&mut mk()) == h, || format!("{name}: HCT {:08x}, ARGB {a:08x}", h.to_int()));
                if i % 7 == 0 {
                    coherent(cx, &h, a);
                }
            }
            let hs = MDC::highest_surface(s).get_tone(s);
            let want = rd::tone_of(if s.is_dark { "surface_bright" } else { "surface_dim" }, &v);
            cx.ok("highest_surface", (hs - want).abs() < 1e-6, || format!("highest surface tone {hs}, specified {want}"));
            if cx.failed() {
                return;
            }
            cx.sample(|| format!("{}: primary {:08x}, on_surface {:08x}", m.text, s.get_primary(), s.get_on_surface()));
        }
    });
}

pub fn c12(r: &Run) {
    r.describe(
        "Histories of get_hct/get_argb/get_tone on long-lived role objects over a pool of schemes that differ in one field only (contrast, darkness, source, one palette), with revisits, interleaved palette reads, more schemes than any small cache holds, and schemes changed in place. Each answer is compared with a fresh role object and with the specification. A case is a distinct (role, scheme) step of a history.",
        &["schemes in one history are built from hue/chroma palettes"],
    );
    r.require(&["same_as_fresh_object", "specified_answer", "argb_hct_agree", "revisit_same"]);
    r.phase("histories", r.scaled(22000, 12), |cx| {
        // pool
        let base = make(&mut cx.rng, 0.03, 0.3);
        let mut pool: Vec<(DynamicScheme, V)> = vec![(base.lib.clone(), base.v)];
        let big = cx.rng.chance(0.02);
        let others = if big { cx.rng.int(20, 150) } else { cx.rng.int(3, 9) };
        for _ in 0..others {
            let k = cx.rng.below(pool.len());
            let (mut s, mut v) = pool[k].clone();
            match cx.rng.below(9) {
                0 => s.contrast_level = gen::contrast_level(&mut cx.rng),
                1 => s.is_dark = !s.is_dark,
                2 => {
                    s.source_color_argb = gen::argb(&mut cx.rng);
                    s.source_color_hct = Hct::from_int(s.source_color_argb);
                }
                3 => s.primary_palette = TonalPalette::of(gen::hue(&mut cx.rng), cx.rng.range(0.0, 100.0)),
                4 => s.secondary_palette = TonalPalette::of(gen::hue(&mut cx.rng), cx.rng.range(0.0, 60.0)),
                5 => s.tertiary_palette = TonalPalette::of(gen::hue(&mut cx.rng), cx.rng.range(0.0, 60.0)),
                6 => {
                    let h = s.neutral_palette.hue;
                    s.neutral_palette = TonalPalette::of(h, cx.rng.range(0.0, 30.0));
                }
                7 => {
                    let c = s.neutral_variant_palette.chroma;
                    s.neutral_variant_palette = TonalPalette::of(gen::hue(&mut cx.rng), c + 4.0);
                }
                _ => {
                    v = cx.rng.pick(&VARIANTS);
                    s.variant = variant(v);
                }
            }
            if cx.rng.chance(0.2) {
                s.error_palette = TonalPalette::of(gen::hue(&mut cx.rng), cx.rng.range(20.0, 90.0));
            }
            pool.push((s, v));
        }
        let ri: Vec<usize> = (0..if big { 2 } else { 6 }).map(|_| cx.rng.below(ROLES.len())).collect();
        let mut objs: Vec<DynamicColor> = ri.iter().map(|i| (ROLES[*i].2)()).collect();
        let mut first: std::collections::HashMap<(usize, usize), i64> = Default::default();
        let mut log = base.text.clone();
        // Some histories keep one scheme variable and change it in place.
        let in_place = cx.rng.chance(0.4);
        let mut slot = Box::new(base.lib.clone());
        cx.tally(if in_place { "histories: one scheme changed in place" } else { "histories: separate schemes" });
        for _ in 0..if big { 1200 } else { 60 } {
            let k = cx.rng.below(pool.len());
            let o = cx.rng.below(objs.len());
            let (name, _, mk) = ROLES[ri[o]];
            if cx.rng.chance(0.15) {
                // reading palettes must not change anything either
                let t = cx.rng.int(0, 100);
                let _ = pool[k].0.primary_palette.get(t);
                let _ = pool[k].0.neutral_palette.get_as_list();
            }
            let (s, v) = &pool[k];
            let s = if in_place {
                *slot = s.clone();
                &*slot
            } else {
                s
            };
            if log.len() < 500 {
                log += &format!("; {name}@{k}");
            }
            cx.story(log.clone());
            cx.case_hash(mix(mix(hash_str(name), s.contrast_level.to_bits()), mix(s.source_color_argb as u64, s.primary_palette.hue.to_bits())));
            let (a, h) = if cx.rng.chance(0.5) {
                let a = objs[o].get_argb(s);
                (a, objs[o].get_hct(s))
            } else {
                let h = objs[o].get_hct(s);
                (objs[o].get_argb(s), h)
            };
            cx.ok("argb_hct_agree", h.to_int() == a, || format!("{name}: HCT {:08x}, ARGB {a:08x}", h.to_int()));
            let f = mk().get_argb(s);
            cx.ok("same_as_fresh_object", f == a, || format!("{name} on scheme {k}: {a:08x}, fresh object {f:08x}"));
            let spec = rd::role(name);
            let vw = view(s, *v);
            let t = objs[o].get_tone(s);
            cx.ok("specified_answer", tone_explained(spec, &vw, t) && vw.pal[spec.pal].explains(t, a), || {
                let w = rd::tone(spec, &vw);
                format!("{name} on scheme {k}: {a:08x} at tone {t}, specified {:08x} at tone {w}", vw.pal[spec.pal].argb(w))
            });
            let e = *first.entry((o, k)).or_insert(a);
            cx.ok("revisit_same", e == a, || format!("{name} on scheme {k}: {a:08x}, earlier {e:08x}"));
            if cx.failed() {
                return;
            }
        }
        cx.sample(|| log.clone());
    });
}

fn pal_is(cx: &mut Cx, what: &str, i: usize, p: &TonalPalette, h: f64, c: f64) {
    let hue_ok = rc::ang(p.hue, h) < 1e-7 || c < 1e-9;
    cx.ok("specified_palette", hue_ok && close(p.chroma, c), || {
        format!("{what}: {} palette hue {} chroma {}, specified {h} {c}", PAL_NAMES[i], p.hue, p.chroma)
    });
}
pub fn c16(r: &Run) {
    r.describe(
        "Schemes of every variant from source colours over the whole gamut (including greys, disliked hues, and hues on and around the variant's rotation breakpoints), light/dark, contrast levels; the fields and palettes of each compared with the variant's specification. A case is a distinct (variant, source).",
        &["hues exactly on a rotation breakpoint keep the source hue, as in the original library"],
    );
    r.require(&["specified_palette", "fields_copied", "error_palette", "key_color", "rotation", "tertiary_of_content", "tertiary_of_fidelity"]);
    fn fields(cx: &mut Cx, v: V, src: i64, dark: bool, level: f64, s: &DynamicScheme) {
        cx.ok(
            "fields_copied",
            s.source_color_argb == src && s.source_color_hct.to_int() == src && s.variant == variant(v) && s.is_dark == dark && s.contrast_level == level,
            || format!("{v:?}({src:08x}, {dark}, {level}) has source {:08x}, dark {}, contrast {}", s.source_color_argb, s.is_dark, s.contrast_level),
        );
        let e = &s.error_palette;
        cx.ok("error_palette", e.hue == 25.0 && e.chroma == 84.0, || format!("error palette {} {}", e.hue, e.chroma));
    }
    fn keys(cx: &mut Cx, s: &DynamicScheme, skip_third: bool) {
        let i = cx.rng.below(6);
        if skip_third && i == 2 {
            return;
        }
        let p = pals(s)[i];
        let k = rp::key_color(p.hue, p.chroma);
        let unstable = || {
            [1e-9, -1e-9].iter().any(|e| {
                rp::key_color(p.hue, p.chroma * (1.0 + e)).argb == p.key_color.to_int() || rp::key_color(p.hue + e, p.chroma).argb == p.key_color.to_int()
            })
        };
        cx.ok("key_color", p.key_color.to_int() == k.argb || unstable(), || {
            format!("{} palette (hue {}, chroma {}) key colour {:08x}, specified {:08x}", PAL_NAMES[i], p.hue, p.chroma, p.key_color.to_int(), k.argb)
        });
    }
    r.phase("plain", r.scaled(9000, 12), |cx| {
        for _ in 0..14 {
            let src = gen::source(&mut cx.rng);
            let v = pick_variant(&mut cx.rng, 0.0);
            let (dark, level) = (cx.rng.chance(0.5), gen::contrast_level(&mut cx.rng));
            cx.case(&[src as f64, v as u8 as f64]);
            let s = scheme(v, Hct::from_int(src), dark, level);
            fields(cx, v, src, dark, level, &s);
            let x = H::of(src);
            for (i, w) in schemes::palettes(v, &x).iter().enumerate() {
                if let schemes::Pal::Hc(h, c) = w {
                    pal_is(cx, &format!("{v:?}({src:08x})"), i, pals(&s)[i], *h, *c);
                }
            }
            keys(cx, &s, false);
        }
        cx.sample(|| "seven plain variants, 14 random sources".into());
    });
    // Every slice of the rotation tables, by sources that land inside it.
    r.phase("slices", 720, |cx| {
        let h = cx.index as f64 / 2.0 + cx.rng.range(0.0, 0.5);
        for _ in 0..3 {
            let x = Hct::from(h, cx.rng.range(20.0, 60.0), cx.rng.range(30.0, 80.0));
            let src = x.to_int();
            let hx = H::of(src);
            for v in [V::Vibrant, V::Expressive] {
                cx.case(&[src as f64, v as u8 as f64]);
                let s = scheme(v, x.clone(), cx.index % 2 == 0, 0.0);
                for (i, w) in schemes::palettes(v, &hx).iter().enumerate() {
                    if let schemes::Pal::Hc(h, c) = w {
                        pal_is(cx, &format!("{v:?}({src:08x}, hue {})", hx.h), i, pals(&s)[i], *h, *c);
                    }
                }
            }
        }
        // the rotation helper itself on arbitrary tables
        for _ in 0..40 {
            let n = cx.rng.int(2, 9) as usize;
            let mut hs: Vec<f64> = (0..n - 2).map(|_| cx.rng.int(1, 359) as f64 + cx.rng.pick(&[0.0, 0.5])).collect();
            hs.push(0.0);
            hs.push(360.0);
            hs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let (hs, rot) = if cx.rng.chance(0.1) {
                (vec![0.0], vec![cx.rng.range(-360.0, 360.0)])
            } else {
                let rot: Vec<f64> = (0..n).map(|_| cx.rng.range(-360.0, 360.0)).collect();
                (hs, rot)
            };
            let x = Hct::from_int(gen::argb(&mut cx.rng));
            let want = schemes::rotated(x.get_hue(), &hs, &rot);
            let got = DynamicScheme::get_rotated_hue(&x, &hs, &rot);
            if hs.iter().all(|b| (b - x.get_hue()).abs() > 1e-9) {
                cx.ok("rotation", rc::ang(got, want) < 1e-9 && (0.0..360.0).contains(&got), || format!("hue {} over {hs:?} / {rot:?} gave {got}, specified {want}", x.get_hue()));
            }
        }
    });
    r.phase("content", r.scaled(700, 12), |cx| {
        let src = match cx.rng.below(4) {
            // around the disliked region
            0 => Hct::from(cx.rng.range(80.0, 125.0), cx.rng.range(10.0, 60.0), cx.rng.range(20.0, 75.0)).to_int(),
            // complements and analogues that fall into it
            1 => Hct::from(cx.rng.range(230.0, 320.0), cx.rng.range(10.0, 90.0), cx.rng.range(20.0, 75.0)).to_int(),
            _ => gen::source(&mut cx.rng),
        };
        let v = cx.rng.pick(&[V::Content, V::Fidelity]);
        let (dark, level) = (cx.rng.chance(0.5), gen::contrast_level(&mut cx.rng));
        cx.case(&[src as f64, v as u8 as f64]);
        cx.story(format!("{v:?}({src:08x}, dark {dark}, contrast {level})"));
        let s = scheme(v, Hct::from_int(src), dark, level);
        fields(cx, v, src, dark, level, &s);
        let x = H::of(src);
        for (i, w) in [(x.h, x.c), (x.h, (x.c - 32.0).max(x.c * 0.5)), (0.0, 0.0), (x.h, x.c / 8.0), (x.h, x.c / 8.0 + 4.0)].iter().enumerate() {
            if i != 2 {
                pal_is(cx, &format!("{v:?}({src:08x})"), i, pals(&s)[i], w.0, w.1);
            }
        }
        keys(cx, &s, true);
        let t = temp::T::new(x);
        let got = h(&s.tertiary_palette.key_color);
        cx.ok("tertiary_of_palette_is_its_key", close(s.tertiary_palette.hue, got.h) && close(s.tertiary_palette.chroma, got.c), || "tertiary palette does not match its key colour".into());
        // Colours of a fixed hue may differ where rounding decides a channel.
        let judge = |want: &H| -> bool {
            let f = rp::fix_disliked(want);
            f.argb == got.argb || (rp::disliked(want) && solver::explains(want.h, want.c, 70.0, got.argb)) || (rp::dislike_margin(want) < 1e-6 && (want.argb == got.argb || solver::explains(want.h, want.c, 70.0, got.argb)))
        };
        let pick = |t: &temp::T| if v == V::Content { *t.analogous(3, 6).last().unwrap() } else { t.complement().0 };
        let tied = |t: &temp::T| if v == V::Content { super::temp::analogous_tie(t, 6) } else { super::temp::complement_tie(t) };
        let w = pick(&t);
        let mut good = judge(&w);
        if !good && t.range() < 1e-6 {
            cx.tally("no temperature range, tertiary not compared");
            good = true;
        }
        if !good && tied(&t) {
            cx.tally("tied temperatures, tertiary not compared");
            good = true;
        }
        if !good {
            let own: Vec<H> = (0..=360).map(|k| h(&Hct::from(k as f64, x.c, x.t))).collect();
            if own.iter().enumerate().all(|(k, y)| solver::explains(k as f64 % 360.0, x.c, x.t, y.argb)) {
                let t = temp::T::with_hues(x, own);
                good = judge(&pick(&t)) || tied(&t);
            }
        }
        let name = if v == V::Content { "tertiary_of_content" } else { "tertiary_of_fidelity" };
        cx.ok(name, good, || format!("tertiary key {:08x}, specified {:08x}", got.argb, rp::fix_disliked(&w).argb));
        cx.ok("tertiary_not_disliked", !rp::disliked(&got) || rp::dislike_margin(&got) < 1.0, || format!("tertiary {got:?} is a disliked colour"));
        cx.sample(|| format!("{v:?}({src:08x}) tertiary {:08x}", got.argb));
    });
}

pub fn c27(r: &Run) {
    r.describe(
        "Contrast curves with arbitrary values; foreground tone selection over (background, ratio); and custom dynamic colours (one or two backgrounds, tone pairs with arbitrary delta, polarity, stay-together, curves and tones) resolved in arbitrary schemes and compared with the documented rules. A case is a distinct parameter tuple.",
        &["pairs have both roles on one background"],
    );
    r.require(&["curve", "curve_monotone", "foreground", "foreground_best_effort", "light_foreground", "custom_single", "custom_dual", "custom_pair", "custom_plain", "custom_color", "custom_chain"]);
    r.phase("curves", r.scaled(8000, 12), |cx| {
        for _ in 0..100 {
            let v: Vec<f64> = (0..4).map(|_| if cx.rng.chance(0.7) { gen::ratio(&mut cx.rng) } else { gen::tone(&mut cx.rng) }).collect();
            let c = ContrastCurve::new(v[0], v[1], v[2], v[3]);
            let w = Curve(v[0], v[1], v[2], v[3]);
            let l = if cx.rng.chance(0.1) { cx.rng.range(-3.0, 3.0) } else { gen::contrast_level(&mut cx.rng) };
            cx.case(&[v[0], v[1], v[2], v[3], l]);
            cx.same("curve", c.get(l), w.get(l), || format!("curve {v:?} at {l}"));
            for (x, y) in [(-1.0, v[0]), (0.0, v[1]), (0.5, v[2]), (1.0, v[3]), (-7.0, v[0]), (9.0, v[3])] {
                cx.same("curve_nodes", c.get(x), y, || format!("curve {v:?} at {x}"));
            }
            let mut u = v.clone();
            u.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let c = ContrastCurve::new(u[0], u[1], u[2], u[3]);
            let l2 = l + cx.rng.range(0.0, 0.7);
            cx.ok("curve_monotone", c.get(l2) >= c.get(l) - 1e-9, || format!("curve {u:?} decreases between {l} and {l2}"));
        }
    });
    r.phase("foreground", r.scaled(15000, 12), |cx| {
        for _ in 0..200 {
            let bg = gen::tone(&mut cx.rng);
            let q = match cx.rng.below(3) {
                0 => (rc::ratio(100.0, bg).max(rc::ratio(0.0, bg)) + cx.rng.range(-0.5, 0.5)).clamp(1.0, 21.0),
                _ => gen::ratio(&mut cx.rng),
            };
            cx.case(&[bg, q]);
            let f = DynamicColor::foreground_tone(bg, q);
            let near = [0.0, 1e-9, -1e-9, 1e-7, -1e-7].iter().any(|e| (f - rd::foreground(bg, q + e)).abs() < 1e-5 || (f - rd::foreground((bg + e).clamp(0.0, 100.0), q)).abs() < 1e-5);
            cx.ok("foreground", near, || format!("foreground_tone({bg}, {q}) = {f}, specified {}", rd::foreground(bg, q)));
            let got = rc::ratio(f, bg);
            let best = rc::ratio(100.0, bg).max(rc::ratio(0.0, bg));
            let slack = if q >= best * 0.95 { 0.1 + 0.03 * best } else { 1e-6 };
            cx.ok("foreground_best_effort", (0.0..=100.0).contains(&f) && got >= q.min(best) - slack, || format!("foreground_tone({bg}, {q}) = {f}: ratio {got}, achievable {best}"));
            let (p, a, e) = (DynamicColor::tone_prefers_light_foreground(bg), DynamicColor::tone_allows_light_foreground(bg), DynamicColor::enable_light_foreground(bg));
            cx.ok("light_foreground", p == rd::prefers_light(bg) && a == rd::allows_light(bg) && e == rd::enable_light(bg), || format!("tone {bg}: prefers {p}, allows {a}, enabled {e}"));
            cx.ok("light_foreground", !p || rc::ratio(100.0, e) >= 4.5 - 0.1, || format!("tone {bg} enabled as {e}: white has {}", rc::ratio(100.0, e)));
        }
    });
    fn any_curve(r: &mut Rng) -> Curve {
        if r.chance(0.5) {
            r.pick(&[Curve(1.0, 1.0, 3.0, 4.5), Curve(3.0, 4.5, 7.0, 7.0), Curve(4.5, 7.0, 11.0, 21.0), Curve(3.0, 4.5, 7.0, 11.0), Curve(1.5, 3.0, 4.5, 7.0)])
        } else {
            let mut v = [0; 4].map(|_| gen::ratio(r));
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            Curve(v[0], v[1], v[2], v[3])
        }
    }
    fn lib_curve(c: Curve) -> ContrastCurve {
        ContrastCurve::new(c.0, c.1, c.2, c.3)
    }
    fn plain(name: &'static str, t: f64, is_bg: bool) -> DynamicColor {
        DynamicColor::from_palette(Some(name), Box::new(|s: &DynamicScheme| &s.neutral_palette), Box::new(move |_: &DynamicScheme| t), Some(is_bg), None, None, None, None)
    }
    #[derive(Clone, Copy)]
    struct Pair {
        bg: f64,
        a: f64,
        b: f64,
        ca: Curve,
        cb: Curve,
        delta: f64,
        pol: u8,
        together: bool,
    }
    fn member(p: Pair, first: bool, with_pair: bool) -> DynamicColor {
        let t = if first { p.a } else { p.b };
        let c = if first { p.ca } else { p.cb };
        DynamicColor::new(
            if first { "member_a" } else { "member_b" },
            Box::new(|s: &DynamicScheme| &s.primary_palette),
            Box::new(move |_: &DynamicScheme| t),
            true,
            Some(Box::new(move |_: &DynamicScheme| plain("bg", p.bg, true))),
            None,
            Some(lib_curve(c)),
            if with_pair {
                Some(Box::new(move |_: &DynamicScheme| {
                    let pol = match p.pol {
                        0 => TonePolarity::Darker,
                        1 => TonePolarity::Lighter,
                        2 => TonePolarity::Nearer,
                        _ => TonePolarity::Farther,
                    };
                    ToneDeltaPair::new(member(p, true, false), member(p, false, false), p.delta, pol, p.together)
                }))
            } else {
                None
            },
        )
    }
    r.phase("custom", r.scaled(40000, 12), |cx| {
        let h0 = gen::hue(&mut cx.rng);
        let p = |c: f64| TonalPalette::of(h0, c);
        let mut s = DynamicScheme::new(gen::argb(&mut cx.rng), Variant::TonalSpot, None, false, p(40.0), p(16.0), p(24.0), p(6.0), p(8.0));
        for _ in 0..40 {
            s.is_dark = cx.rng.chance(0.5);
            s.contrast_level = gen::contrast_level(&mut cx.rng);
            let level = s.contrast_level;
            let dec = level < 0.0;
            let (t, b1, b2) = (gen::tone(&mut cx.rng), gen::tone(&mut cx.rng), gen::tone(&mut cx.rng));
            let c = any_curve(&mut cx.rng);
            let is_bg = cx.rng.chance(0.5);
            cx.case(&[t, b1, b2, level, c.0, c.3, s.is_dark as u8 as f64]);
            cx.story(format!("tone {t:?}, backgrounds {b1:?} {b2:?}, curve {c:?}, level {level:?}, dark {}, is_background {is_bg}", s.is_dark));
            // no background: the tone as given
            let mut d = plain("x", t, is_bg);
            cx.ok("custom_plain", d.get_tone(&s) == t, || format!("tone {}", d.get_tone(&s)));
            let a = d.get_argb(&s);
            cx.ok("custom_color", solver::explains(s.neutral_palette.hue, s.neutral_palette.chroma, t, a), || format!("colour {a:08x}, specified {:08x}", solver::solve(s.neutral_palette.hue, s.neutral_palette.chroma, t)));
            // one background
            let single = |t: f64, b1: f64, want: f64| {
                let mut ans = t;
                if rc::ratio(b1, t) < want || dec {
                    ans = rd::foreground(b1, want);
                }
                if is_bg && (50.0..60.0).contains(&ans) {
                    ans = if rc::ratio(49.0, b1) >= want { 49.0 } else { 60.0 };
                }
                ans
            };
            let want_r = c.get(level);
            let jit = [0.0, 1e-9, -1e-9, 1e-7, -1e-7];
            let d = DynamicColor::from_palette(
                None,
                Box::new(|s: &DynamicScheme| &s.primary_palette),
                Box::new(move |_: &DynamicScheme| t),
                Some(is_bg),
                Some(Box::new(move |_: &DynamicScheme| plain("bg", b1, true))),
                None,
                Some(lib_curve(c)),
                None,
            );
            let got = d.get_tone(&s);
            let ok = jit.iter().any(|e| (got - single(t, b1, want_r + e)).abs() < 1e-5);
            cx.ok("custom_single", ok, || format!("one background: tone {got}, specified {}", single(t, b1, want_r)));
            // two backgrounds
            let d = DynamicColor::from_palette(
                None,
                Box::new(|s: &DynamicScheme| &s.primary_palette),
                Box::new(move |_: &DynamicScheme| t),
                Some(is_bg),
                Some(Box::new(move |_: &DynamicScheme| plain("bg1", b1, true))),
                Some(Box::new(move |_: &DynamicScheme| plain("bg2", b2, true))),
                Some(lib_curve(c)),
                None,
            );
            let got = d.get_tone(&s);
            let ok = jit.iter().any(|e| (got - rd::dual(single(t, b1, want_r + e), b1, b2, want_r + e)).abs() < 1e-5);
            cx.ok("custom_dual", ok, || format!("two backgrounds: tone {got}, specified {}", rd::dual(single(t, b1, want_r), b1, b2, want_r)));
            // a pair
            let pr = Pair {
                bg: b1,
                a: t,
                b: b2,
                ca: c,
                cb: any_curve(&mut cx.rng),
                delta: match cx.rng.below(4) {
                    0 => cx.rng.range(0.0, 60.0),
                    1 => gen::tone(&mut cx.rng) * 0.5,
                    _ => cx.rng.pick(&[0.0, 5.0, 10.0, 15.0, 20.0, 10.5, 30.0, 49.0, 50.0]),
                },
                pol: cx.rng.below(4) as u8,
                together: cx.rng.chance(0.5),
            };
            let a_near = pr.pol == 2 || (pr.pol == 1 && !s.is_dark) || (pr.pol == 0 && s.is_dark);
            let spec = |e: f64, de: f64| {
                let (x, y) = if a_near { ((pr.a, pr.ca), (pr.b, pr.cb)) } else { ((pr.b, pr.cb), (pr.a, pr.ca)) };
                let (n, f) = rd::pair_tones(pr.bg, x.0, y.0, x.1.get(level) + e, y.1.get(level) + e, pr.delta + de, pr.together, s.is_dark, dec);
                if a_near {
                    (n, f)
                } else {
                    (f, n)
                }
            };
            let (ga, gb) = (member(pr, true, true).get_tone(&s), member(pr, false, true).get_tone(&s));
            let ok = [0.0, 1e-9, -1e-9].iter().any(|de| {
                jit.iter().any(|e| {
                    let (wa, wb) = spec(*e, *de);
                    (ga - wa).abs() < 1e-5 && (gb - wb).abs() < 1e-5
                })
            });
            cx.ok("custom_pair", ok, || format!("pair delta {} polarity {} together {}: tones {ga} {gb}, specified {:?}", pr.delta, pr.pol, pr.together, spec(0.0, 0.0)));
            // the colours of these: that tone of the palette
            let first = cx.rng.chance(0.5);
            let mut d = member(pr, first, true);
            let (a, g) = (d.get_argb(&s), if first { ga } else { gb });
            cx.ok("custom_color", solver::explains(s.primary_palette.hue, s.primary_palette.chroma, g, a), || format!("member of a pair has tone {g} and colour {a:08x}, specified {:08x}", solver::solve(s.primary_palette.hue, s.primary_palette.chroma, g)));
            // a background that has a background, and is a member of a pair or not
            let (c2, t2, paired) = (any_curve(&mut cx.rng), gen::tone(&mut cx.rng), cx.rng.chance(0.5));
            let d = DynamicColor::from_palette(
                None,
                Box::new(|s: &DynamicScheme| &s.primary_palette),
                Box::new(move |_: &DynamicScheme| t2),
                Some(is_bg),
                Some(Box::new(move |_: &DynamicScheme| member(pr, first, paired))),
                None,
                Some(lib_curve(c2)),
                None,
            );
            let base = member(pr, first, paired).get_tone(&s);
            let (got, w2) = (d.get_tone(&s), c2.get(level));
            let ok = jit.iter().any(|e| (got - single(t2, base, w2 + e)).abs() < 1e-5);
            cx.ok("custom_chain", ok, || format!("on a background of tone {base}: tone {got}, specified {}", single(t2, base, w2)));
            if cx.failed() {
                return;
            }
        }
        cx.sample(|| "40 custom colours".into());
    });
}
