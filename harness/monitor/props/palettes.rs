//! C13 tonal palettes, C14 core palettes, C15 equality and hashing, C17 legacy schemes.
use super::dynamic::{make, pick_variant};
use super::hct::{close, coherent};
use crate::gen;
use crate::refm::cam::H;
use crate::refm::color as rc;
use crate::refm::palette::{self as rp, P, TONES};
use crate::refm::{schemes, solver};
use crate::rt::*;
use crate::sut::*;
use std::hash::{Hash, Hasher};

fn key_ok(hue: f64, chroma: f64, got: i64) -> bool {
    rp::key_color(hue, chroma).argb == got
        || [1e-9, -1e-9, 1e-8, -1e-8]
            .iter()
            .any(|e| rp::key_color(hue, (chroma * (1.0 + e)).max(0.0)).argb == got || rp::key_color(hue + e, chroma).argb == got)
}
/// Palette lists as users have them: real ones, edited ones, arbitrary ones.
fn some_list(r: &mut Rng) -> Vec<i64> {
    let mut l: Vec<i64> = P::of_lazy(gen::hue(r), r.range(0.0, 90.0)).as_list().to_vec();
    match r.below(5) {
        0 => {
            for _ in 0..r.int(1, 4) {
                let k = r.below(13);
                l[k] = gen::argb(r);
            }
        }
        1 => l = (0..13).map(|_| gen::argb(r)).collect(),
        // only near-white or grey entries
        2 => l = (0..13).map(|_| rc::argb_from_l(r.range(0.0, 100.0))).collect(),
        3 => {
            // the most colourful entry is too light to count
            l[12] = rc::argb(255, 255, r.int(180, 250));
            l[11] = rc::argb(255, 254, r.int(180, 250));
        }
        _ => (),
    }
    l
}
enum Kind {
    Of(f64, f64),
    Color(i64),
    List(Vec<i64>),
}
fn build(k: &Kind) -> TonalPalette {
    match k {
        Kind::Of(h, c) => TonalPalette::of(*h, *c),
        Kind::Color(a) => TonalPalette::from_hct(&Hct::from_int(*a)),
        Kind::List(l) => TonalPalette::from_list(l),
    }
}
fn kind(r: &mut Rng) -> (Kind, String) {
    match r.below(5) {
        0..=2 => {
            let h = if r.chance(0.15) { gen::angle(r).clamp(-720.0, 720.0) } else { gen::hue(r) };
            let c = gen::chroma(r);
            (Kind::Of(h, c), format!("TonalPalette::of({h:?}, {c:?})"))
        }
        3 => {
            let a = gen::argb(r);
            (Kind::Color(a), format!("TonalPalette::from_hct({a:08x})"))
        }
        _ => {
            let l = some_list(r);
            let t = format!("TonalPalette::from_list({l:x?})");
            (Kind::List(l), t)
        }
    }
}
/// The list palette's deduced hue and chroma; near ties may go either way.
fn deduced(l: &[i64], p: &TonalPalette) -> bool {
    let hs: Vec<H> = l.iter().map(|a| H::of(*a)).collect();
    let ok = |x: &H| (x.t - 98.0).abs() < 1e-9 || x.t <= 98.0;
    let best = hs.iter().filter(|x| x.t <= 98.0 - 1e-9).map(|x| x.c).fold(0.0, f64::max);
    if best == 0.0 && hs.iter().all(|x| !ok(x)) {
        return p.hue == 0.0 && p.chroma == 0.0;
    }
    close(p.chroma, p.chroma.max(best)) && hs.iter().any(|x| ok(x) && close(x.c, p.chroma) && (close(x.h, p.hue) || rc::ang(x.h, p.hue) < 1e-7))
}
pub fn c13(r: &Run) {
    r.describe(
        "Tonal palettes made from hue and chroma, from a colour and from lists (real, edited, arbitrary, grey), asked for integer and fractional tones and lists in random order, repeatedly, through clones and after formatting. A case is a distinct (palette, tone) answer.",
        &["tones within 0..100; a palette made by from_hct keeps the given colour as its key colour"],
    );
    r.require(&["palette_color", "get_is_get_hct", "repeat_same", "lightness", "lightness_order", "key_color", "key_chroma_best", "list_entries", "as_list", "from_hct", "deduced", "text"]);
    r.phase("histories", r.scaled(16000, 12), |cx| {
        let (k, text) = kind(&mut cx.rng);
        cx.story(text.clone());
        let mut p = build(&k);
        let rf = match &k {
            Kind::Of(h, c) => {
                cx.ok("identity", p.hue == *h && p.chroma == *c, || format!("hue {} chroma {}", p.hue, p.chroma));
                P::of_lazy(*h, *c)
            }
            Kind::Color(a) => {
                let x = H::of(*a);
                cx.ok("from_hct", close(p.hue, x.h) && close(p.chroma, x.c) && p.key_color.to_int() == *a, || format!("hue {} chroma {} key {:08x}", p.hue, p.chroma, p.key_color.to_int()));
                P::of_lazy(p.hue, p.chroma)
            }
            Kind::List(l) => {
                cx.ok("deduced", deduced(l, &p), || {
                    let w = P::from_list(&l.clone().try_into().unwrap());
                    format!("hue {} chroma {}, specified {} {}", p.hue, p.chroma, w.h, w.c)
                });
                P { h: p.hue, c: p.chroma, key: h(&p.key_color), list: Some(l.clone().try_into().unwrap()) }
            }
        };
        if !matches!(k, Kind::Color(_)) {
            let got = p.key_color.to_int();
            cx.ok("key_color", key_ok(p.hue, p.chroma, got), || format!("key colour {got:08x}, specified {:08x}", rp::key_color(p.hue, p.chroma).argb));
            // No tone offers a chroma that is a whole unit closer.
            let x = H::of(got);
            let off = (x.c - p.chroma).abs();
            let t = cx.rng.int(1, 99) as f64;
            let o = (H::solve(p.hue, p.chroma, t).c - p.chroma).abs();
            cx.ok("key_chroma_best", off <= o + 1.0, || format!("key colour {got:08x} has chroma {}, tone {t} gets {o} close", x.c));
            coherent(cx, &p.key_color, got);
        }
        let mut seen: std::collections::BTreeMap<i64, i64> = Default::default();
        let mut clones: Vec<TonalPalette> = vec![];
        // Now and then a history that visits nearly every tone.
        let steps = if cx.rng.chance(0.03) { 500 } else { 40 };
        for _ in 0..steps {
            let what = cx.rng.below(12);
            match what {
                0..=5 => {
                    let t = if cx.rng.chance(0.3) { cx.rng.pick(&TONES) } else { cx.rng.int(0, 100) };
                    cx.case(&[p.hue, p.chroma, t as f64]);
                    let a = p.get(t);
                    cx.ok("palette_color", rf.explains(t as f64, a), || format!("get({t}) = {a:08x}, specified {:08x}", rf.argb(t as f64)));
                    let e = *seen.entry(t).or_insert(a);
                    cx.ok("repeat_same", e == a, || format!("get({t}) = {a:08x}, earlier {e:08x}"));
                    let x = p.get_hct(t as f64);
                    cx.ok("get_is_get_hct", x.to_int() == a, || format!("get({t}) = {a:08x}, get_hct {:08x}", x.to_int()));
                    if rf.listed(t as f64).is_none() {
                        cx.ok("lightness", (rc::lstar(a) - t as f64).abs() < 1.0, || format!("get({t}) = {a:08x} has tone {}", rc::lstar(a)));
                    } else {
                        cx.ok("list_entries", rf.listed(t as f64) == Some(a), || format!("get({t}) = {a:08x} is not the listed colour"));
                    }
                }
                6..=8 => {
                    let t = gen::tone(&mut cx.rng);
                    cx.case(&[p.hue, p.chroma, t]);
                    let x = p.get_hct(t);
                    let a = x.to_int();
                    cx.ok("palette_color", rf.explains(t, a), || format!("get_hct({t:?}) = {a:08x}, specified {:08x}", rf.argb(t)));
                    if t == t.floor() {
                        let e = *seen.entry(t as i64).or_insert(a);
                        cx.ok("repeat_same", e == a, || format!("get_hct({t}) = {a:08x}, earlier {e:08x}"));
                    }
                    if rf.list.is_none() {
                        cx.ok("lightness", (rc::lstar(a) - t).abs() < 1.0, || format!("get_hct({t}) = {a:08x} has tone {}", rc::lstar(a)));
                    }
                }
                9 => {
                    let l = p.get_as_list();
                    let good = l.len() == 13 && TONES.iter().zip(&l).all(|(t, a)| rf.explains(*t as f64, *a) && seen.get(t).map_or(true, |e| e == a));
                    cx.ok("as_list", good, || format!("get_as_list() = {l:x?}, specified {:x?}", rf.as_list()));
                    if rf.list.is_none() {
                        cx.ok("lightness_order", l.windows(2).all(|w| rc::lstar(w[0]) < rc::lstar(w[1])), || format!("{l:x?} is not ordered from dark to light"));
                    }
                    for (t, a) in TONES.iter().zip(&l) {
                        seen.entry(*t).or_insert(*a);
                    }
                }
                10 => {
                    // a clone is a palette of its own
                    let mut c = p.clone();
                    let t = cx.rng.int(0, 100);
                    let (x, y) = (c.get(t), p.get(t));
                    cx.ok("repeat_same", x == y && c == p, || format!("clone get({t}) = {x:08x}, original {y:08x}"));
                    clones.push(c);
                    if clones.len() > 2 {
                        p = clones.swap_remove(0);
                    }
                }
                _ => {
                    let s = p.to_string();
                    let want = match &k {
                        Kind::List(l) => format!("TonalPalette.fromList([{}])", l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")),
                        _ => format!("TonalPalette.of({}, {})", p.hue, p.chroma),
                    };
                    cx.ok("text", s == want, || format!("text {s:?}, specified {want:?}"));
                }
            }
            if cx.failed() {
                return;
            }
        }
        cx.sample(|| text.clone());
    });
    r.phase("key colours", r.scaled(5000, 12), |cx| {
        for _ in 0..20 {
            let (a, c) = (gen::hue(&mut cx.rng), gen::chroma(&mut cx.rng));
            cx.case(&[a, c]);
            let got = TonalPalette::create_key_color(a, c).to_int();
            cx.ok("key_color", key_ok(a, c, got), || format!("create_key_color({a:?}, {c:?}) = {got:08x}, specified {:08x}", rp::key_color(a, c).argb));
        }
    });
}

fn core_pals(c: &CorePalette) -> [&TonalPalette; 6] {
    [&c.primary, &c.secondary, &c.tertiary, &c.neutral, &c.neutral_variant, &c.error]
}
pub fn c14(r: &Run) {
    r.describe(
        "Core palettes of source colours (of and content_of) and from lists of 65 colours; their palettes against the specification and the list round trip in both directions. A case is a distinct source or list.",
        &[],
    );
    r.require(&["specified_palettes", "list_is_palettes", "list_round_trip", "equal_after_round_trip", "from_list_entries", "error_palette"]);
    r.phase("sources", r.scaled(14000, 12), |cx| {
        for _ in 0..4 {
            let src = gen::source(&mut cx.rng);
            let content = cx.rng.chance(0.5);
            cx.case(&[src as f64, content as u8 as f64]);
            cx.story(format!("CorePalette::{}({src:08x})", if content { "content_of" } else { "of" }));
            let mut c = if content { CorePalette::content_of(src) } else { CorePalette::of(src) };
            let want = if content { rp::core_content_of(src) } else { rp::core_of(src) };
            for (i, (w, p)) in want.iter().zip(core_pals(&c)).enumerate() {
                cx.ok("specified_palettes", rc::ang(p.hue, w.0) < 1e-7 && close(p.chroma, w.1), || format!("{}: hue {} chroma {}, specified {w:?}", PAL_NAMES[i], p.hue, p.chroma));
            }
            let i = cx.rng.below(6);
            let p = core_pals(&c)[i];
            cx.ok("key_color", key_ok(p.hue, p.chroma, p.key_color.to_int()), || format!("{} key colour {:08x}", PAL_NAMES[i], p.key_color.to_int()));
            let l = c.as_list();
            let good = l.len() == 65 && l.iter().enumerate().all(|(k, a)| solver::explains(want[k / 13].0, want[k / 13].1, TONES[k % 13] as f64, *a));
            cx.ok("list_is_palettes", good, || format!("as_list() = {l:x?}"));
            let mut back = CorePalette::from_list(&l);
            let l2 = back.as_list();
            cx.ok("list_round_trip", l2 == l, || format!("from_list(as_list()).as_list() = {l2:x?}, list {l:x?}"));
            cx.ok("equal_after_round_trip", back == c && c == back, || "from_list(as_list()) is not equal to the palette".into());
            cx.ok("error_palette", back.error == c.error && back.error.hue == 25.0 && back.error.chroma == 84.0, || format!("error palette {} {}", back.error.hue, back.error.chroma));
            if cx.failed() {
                return;
            }
            cx.sample(|| format!("{src:08x} content {content}: primary tone 40 {:08x}", l[4]));
        }
    });
    r.phase("lists", r.scaled(14000, 12), |cx| {
        let l: Vec<i64> = (0..5).flat_map(|_| some_list(&mut cx.rng)).collect();
        cx.case_hash(l.iter().fold(1, |a, b| mix(a, *b as u64)));
        cx.story(format!("CorePalette::from_list({l:x?})"));
        let mut c = CorePalette::from_list(&l);
        cx.ok("from_list_entries", c.as_list() == l, || "as_list() is not the list given".into());
        for i in 0..5 {
            let part = &l[i * 13..i * 13 + 13];
            let p = core_pals(&c)[i];
            cx.ok("from_list_entries", deduced(part, p), || format!("{}: deduced hue {} chroma {}", PAL_NAMES[i], p.hue, p.chroma));
            let k = cx.rng.below(13);
            let got = p.get_hct(TONES[k] as f64).to_int();
            cx.ok("from_list_entries", got == part[k], || format!("{} tone {}: {got:08x}, listed {:08x}", PAL_NAMES[i], TONES[k], part[k]));
            let t = cx.rng.int(1, 98);
            if !TONES.contains(&t) {
                let got = p.get_hct(t as f64).to_int();
                cx.ok("from_list_others", solver::explains(p.hue, p.chroma, t as f64, got), || format!("{} tone {t}: {got:08x}", PAL_NAMES[i]));
            }
        }
    });
}

fn digest<T: Hash>(x: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
pub fn c15(r: &Run) {
    r.describe(
        "Pairs of values (colours, tonal palettes, core palettes, schemes, variants) that were built the same way, are clones, differ in what was asked of them before, or differ in exactly one field; equality is checked against the fields, for symmetry, and against the hashes. A case is a distinct pair.",
        &["palettes are compared with palettes built the same way (hue and chroma, or list)"],
    );
    r.require(&["reflexive", "symmetric", "equal_hash", "equal_iff_fields", "usable_as_key"]);
    fn rel<T: Eq + Hash>(cx: &mut Cx, what: &'static str, a: &T, b: &T, same: bool) {
        let e = a == b;
        cx.tally(format!("{what} {}", if same { "equal" } else { "different" }));
        cx.ok("equal_iff_fields", e == same, || format!("{what}: equal is {e}, specified {same}"));
        cx.ok("symmetric", (b == a) == e, || format!("{what}: not symmetric"));
        #[allow(clippy::eq_op)]
        let refl = a == a && b == b && digest(a) == digest(a);
        cx.ok("reflexive", refl, || format!("{what}: not equal to itself, or unstable hash"));
        if e {
            cx.ok("equal_hash", digest(a) == digest(b), || format!("{what}: equal values hash differently"));
        }
    }
    /// A palette of slightly or clearly different hue or chroma.
    fn apart(r: &mut Rng, p: &TonalPalette) -> TonalPalette {
        let d = r.pick(&[1.0, 0.5, 0.01, 1e-3, 1e-6, 1e-9]);
        if r.chance(0.5) {
            TonalPalette::of(p.hue, p.chroma + d)
        } else {
            TonalPalette::of(if p.hue > 300.0 { p.hue - d } else { p.hue + d }, p.chroma)
        }
    }
    fn touch(r: &mut Rng, p: &mut TonalPalette) {
        for _ in 0..r.below(4) {
            if r.chance(0.2) {
                p.get_as_list();
            } else {
                p.get(r.int(0, 100));
            }
        }
    }
    r.phase("palettes", r.scaled(12000, 12), |cx| {
        // lists
        let l = some_list(&mut cx.rng);
        let mut m = l.clone();
        let differ = cx.rng.chance(0.6);
        if differ {
            let k = cx.rng.below(13);
            m[k] ^= 1 << cx.rng.below(24);
        }
        let (mut a, mut b) = (TonalPalette::from_list(&l), TonalPalette::from_list(&m));
        touch(&mut cx.rng, &mut a);
        touch(&mut cx.rng, &mut b);
        cx.case_hash(l.iter().chain(&m).fold(3, |a, b| mix(a, *b as u64)));
        cx.story(format!("from_list({l:x?}) and from_list({m:x?})"));
        rel(cx, "list palettes", &a, &b, !differ);
        // hue and chroma
        for _ in 0..4 {
            let (h1, c1) = (gen::hue(&mut cx.rng), gen::chroma(&mut cx.rng).min(150.0));
            let (mut h2, mut c2) = (h1, c1);
            match cx.rng.below(4) {
                0 => h2 = gen::nudge(&mut cx.rng, h1),
                1 => c2 = gen::nudge(&mut cx.rng, c1),
                2 => (h2, c2) = (gen::hue(&mut cx.rng), gen::chroma(&mut cx.rng).min(150.0)),
                _ => (),
            }
            let (mut h1, mut c1) = (h1, c1);
            if cx.rng.chance(0.03) {
                // zero equals minus zero
                let z = [0.0, -0.0];
                if cx.rng.chance(0.5) {
                    (h1, h2) = (cx.rng.pick(&z), cx.rng.pick(&z));
                } else {
                    (c1, c2) = (cx.rng.pick(&z), cx.rng.pick(&z));
                }
            }
            let (mut a, mut b) = (TonalPalette::of(h1, c1), TonalPalette::of(h2, c2));
            touch(&mut cx.rng, &mut a);
            touch(&mut cx.rng, &mut b);
            cx.case(&[h1, c1, h2, c2]);
            cx.story(format!("of({h1:?}, {c1:?}) and of({h2:?}, {c2:?})"));
            rel(cx, "tonal palettes", &a, &b, h1 == h2 && c1 == c2);
        }
        // core palettes
        let s1 = gen::source(&mut cx.rng);
        let s2 = if cx.rng.chance(0.5) { s1 } else { s1 ^ (1 << cx.rng.below(24)) };
        let (mut a, mut b) = (CorePalette::of(s1), CorePalette::of(s2));
        touch(&mut cx.rng, &mut a.primary);
        touch(&mut cx.rng, &mut b.neutral);
        cx.case(&[s1 as f64, s2 as f64]);
        cx.story(format!("CorePalette::of({s1:08x}) and of({s2:08x})"));
        let same = core_pals(&a).iter().zip(core_pals(&b)).all(|(x, y)| x.hue == y.hue && x.chroma == y.chroma);
        rel(cx, "core palettes", &a, &b, same);
        let i = cx.rng.below(6);
        let mut b = CorePalette::of(s1);
        let q = [&mut b.primary, &mut b.secondary, &mut b.tertiary, &mut b.neutral, &mut b.neutral_variant, &mut b.error];
        let t = q.into_iter().nth(i).unwrap();
        *t = apart(&mut cx.rng, t);
        cx.story(format!("CorePalette::of({s1:08x}) with another {} palette", PAL_NAMES[i]));
        rel(cx, "core palettes", &a, &b, false);
    });
    r.phase("schemes", r.scaled(9000, 12), |cx| {
        let m = make(&mut cx.rng, 0.0, 0.3);
        let mut o = m.lib.clone();
        cx.story(m.text.clone());
        cx.case_hash(hash_str(&m.text));
        rel(cx, "scheme clones", &m.lib, &o, true);
        let level = o.contrast_level;
        let t = cx.rng.int(0, 100);
        o.primary_palette.get(t);
        rel(cx, "scheme after palette reads", &m.lib, &o, true);
        let k = cx.rng.below(10);
        if level == 0.0 {
            let mut z = o.clone();
            z.contrast_level = -level;
            rel(cx, "contrast zero and minus zero", &m.lib, &z, true);
        }
        let f = cx.rng.below(1 << 30) as u64;
        let bump = |p: &mut TonalPalette| *p = apart(&mut Rng::new(f), p);
        match k {
            0 => {
                let step = cx.rng.pick(&[0.25, 0.01, 0.004, 1e-3, 1e-5, 1e-9, 1e-12]);
                o.contrast_level = if level > 0.5 { level - step } else { level + step }
            }
            1 => o.is_dark = !o.is_dark,
            2 => o.source_color_argb ^= 1,
            3 => {
                o.variant = variant(loop {
                    let v = pick_variant(&mut cx.rng, 0.2);
                    if v != m.v {
                        break v;
                    }
                })
            }
            4 => bump(&mut o.primary_palette),
            5 => bump(&mut o.secondary_palette),
            6 => bump(&mut o.tertiary_palette),
            7 => bump(&mut o.neutral_palette),
            8 => bump(&mut o.neutral_variant_palette),
            _ => bump(&mut o.error_palette),
        }
        cx.story(format!("{} and the same with field {k} changed", m.text));
        rel(cx, "schemes", &m.lib, &o, false);
        let mut map = std::collections::HashMap::new();
        map.insert(m.lib.clone(), 1);
        map.insert(o.clone(), 2);
        cx.ok("usable_as_key", map.len() == 2 && map[&m.lib] == 1 && map[&o.clone()] == 2, || "schemes do not work as map keys".into());
        for (i, v) in crate::refm::dynamic::VARIANTS.iter().enumerate() {
            for (j, w) in crate::refm::dynamic::VARIANTS.iter().enumerate() {
                rel(cx, "variants", &variant(*v), &variant(*w), i == j);
            }
        }
        // colours
        let a = gen::argb(&mut cx.rng);
        let b = if cx.rng.chance(0.5) { a } else { a ^ (1 << cx.rng.below(24)) };
        let (x, mut y) = (Hct::from_int(a), Hct::from_int(b));
        rel(cx, "colours", &x, &y, a == b);
        y.set_tone(gen::tone(&mut cx.rng));
        let z = Hct::from_int(y.to_int());
        rel(cx, "colours after a setter", &y, &z, true);
        cx.sample(|| m.text.clone());
    });
}

macro_rules! legacy_fields {
    ($s:expr; $($f:ident),*) => { [$((stringify!($f), $s.$f)),*] };
}
fn fields(s: &Scheme) -> [(&'static str, i64); 29] {
    legacy_fields!(s; primary, on_primary, primary_container, on_primary_container, secondary, on_secondary, secondary_container,
        on_secondary_container, tertiary, on_tertiary, tertiary_container, on_tertiary_container, error, on_error, error_container,
        on_error_container, background, on_background, surface, on_surface, surface_variant, on_surface_variant, outline,
        outline_variant, shadow, scrim, inverse_surface, inverse_on_surface, inverse_primary)
}
pub fn c17(r: &Run) {
    r.describe(
        "The static light/dark schemes and their content versions over source colours, and from core palettes (computed or from lists), all 29 fields against the published tone table. A case is a distinct (source, kind).",
        &[],
    );
    r.require(&["field", "from_core_palette", "list_field", "text_readable"]);
    #[allow(deprecated)]
    r.phase("sources", r.scaled(24000, 12), |cx| {
        for _ in 0..4 {
            let src = gen::source(&mut cx.rng);
            let kind = cx.rng.below(4);
            let (dark, content) = (kind % 2 == 1, kind >= 2);
            cx.case(&[src as f64, kind as f64]);
            let s = match kind {
                0 => Scheme::light(src),
                1 => Scheme::dark(src),
                2 => Scheme::light_content(src),
                _ => Scheme::dark_content(src),
            };
            cx.story(format!("{} scheme of {src:08x}, content {content}", if dark { "dark" } else { "light" }));
            let pal = if content { rp::core_content_of(src) } else { rp::core_of(src) };
            let got = fields(&s);
            for (n, p, light, dk) in schemes::LEGACY {
                let t = if dark { dk } else { light } as f64;
                let a = got.iter().find(|x| x.0 == n).unwrap().1;
                cx.ok("field", solver::explains(pal[p].0, pal[p].1, t, a), || format!("{n}: {a:08x}, specified {:08x} ({} palette, tone {t})", solver::solve(pal[p].0, pal[p].1, t), PAL_NAMES[p]));
            }
            for (fg, bg) in [("on_primary", "primary"), ("on_secondary", "secondary"), ("on_tertiary", "tertiary"), ("on_error", "error"), ("on_surface", "surface"), ("on_background", "background"), ("inverse_on_surface", "inverse_surface"), ("on_primary_container", "primary_container"), ("on_secondary_container", "secondary_container"), ("on_tertiary_container", "tertiary_container")] {
                let y = |n: &str| rc::xyz(got.iter().find(|x| x.0 == n).unwrap().1)[1];
                let q = rc::ratio_y(y(fg), y(bg));
                cx.ok("text_readable", q >= 4.4, || format!("{fg} on {bg}: contrast {q}"));
            }
            let core = if content { CorePalette::content_of(src) } else { CorePalette::of(src) };
            let o = fields(&if dark { Scheme::dark_from_core_palette(core) } else { Scheme::light_from_core_palette(core) });
            cx.ok("from_core_palette", o == got, || "the scheme of the core palette differs".into());
            if cx.failed() {
                return;
            }
            cx.sample(|| format!("{src:08x} kind {kind}: primary {:08x}", s.primary));
        }
    });
    #[allow(deprecated)]
    r.phase("lists", r.scaled(3000, 15), |cx| {
        let l: Vec<i64> = (0..5).flat_map(|_| some_list(&mut cx.rng)).collect();
        cx.case_hash(l.iter().fold(1, |a, b| mix(a, *b as u64)));
        cx.story(format!("scheme of CorePalette::from_list({l:x?})"));
        let c = CorePalette::from_list(&l);
        let dark = cx.rng.chance(0.5);
        let s = if dark { Scheme::dark_from_core_palette(c) } else { Scheme::light_from_core_palette(c) };
        let got = fields(&s);
        for (n, p, light, dk) in schemes::LEGACY {
            let t = if dark { dk } else { light };
            let a = got.iter().find(|x| x.0 == n).unwrap().1;
            if p < 5 {
                if let Some(k) = TONES.iter().position(|x| *x == t) {
                    cx.ok("list_field", a == l[p * 13 + k], || format!("{n}: {a:08x}, listed {:08x}", l[p * 13 + k]));
                }
            } else {
                cx.ok("list_field", solver::explains(25.0, 84.0, t as f64, a), || format!("{n}: {a:08x}"));
            }
        }
    });
}
