//! Dynamic colour roles: the Material specification as a table, plus the tone
//! resolution rules.
use super::cam::H;
use super::color::*;
use super::palette::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum V {
    Monochrome,
    Neutral,
    TonalSpot,
    Vibrant,
    Expressive,
    Content,
    Fidelity,
    Rainbow,
    FruitSalad,
}
pub const VARIANTS: [V; 9] = [
    V::Monochrome,
    V::Neutral,
    V::TonalSpot,
    V::Vibrant,
    V::Expressive,
    V::Content,
    V::Fidelity,
    V::Rainbow,
    V::FruitSalad,
];
#[derive(Clone, Debug)]
pub struct S {
    pub src: H,
    pub v: V,
    pub dark: bool,
    pub contrast: f64,
    /// primary, secondary, tertiary, neutral, neutral variant, error
    pub pal: [P; 6],
}
impl S {
    pub fn fid(&self) -> bool {
        matches!(self.v, V::Fidelity | V::Content)
    }
    pub fn mono(&self) -> bool {
        self.v == V::Monochrome
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Curve(pub f64, pub f64, pub f64, pub f64);
fn lerp(a: f64, b: f64, t: f64) -> f64 {
    (1.0 - t) * a + t * b
}
impl Curve {
    pub fn get(&self, l: f64) -> f64 {
        if l <= -1.0 {
            self.0
        } else if l < 0.0 {
            lerp(self.0, self.1, l + 1.0)
        } else if l < 0.5 {
            lerp(self.1, self.2, l / 0.5)
        } else if l < 1.0 {
            lerp(self.2, self.3, (l - 0.5) / 0.5)
        } else {
            self.3
        }
    }
}
pub fn prefers_light(t: f64) -> bool {
    t.round() < 60.0
}
pub fn allows_light(t: f64) -> bool {
    t.round() <= 49.0
}
pub fn enable_light(t: f64) -> f64 {
    if prefers_light(t) && !allows_light(t) {
        49.0
    } else {
        t
    }
}
pub fn foreground(bg: f64, r: f64) -> f64 {
    let lt = lighter_unsafe(bg, r);
    let dt = darker_unsafe(bg, r);
    let lr = ratio(lt, bg);
    let dr = ratio(dt, bg);
    if prefers_light(bg) {
        let neg = (lr - dr).abs() < 0.1 && lr < r && dr < r;
        if lr >= r || lr >= dr || neg {
            lt
        } else {
            dt
        }
    } else if dr >= r || dr >= lr {
        dt
    } else {
        lt
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pol {
    Darker,
    Lighter,
    Nearer,
    Farther,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bg {
    Role(&'static str),
    Highest,
}
pub struct Role {
    pub name: &'static str,
    pub pal: usize,
    pub tone: fn(&S) -> f64,
    pub is_bg: bool,
    pub bg: Option<Bg>,
    pub bg2: Option<Bg>,
    pub curve: Option<Curve>,
    pub pair: Option<(&'static str, &'static str, f64, Pol, bool)>,
}
const PRI: usize = 0;
const SEC: usize = 1;
const TER: usize = 2;
const NEU: usize = 3;
const NV: usize = 4;
const ERR: usize = 5;
const TEXT: Curve = Curve(4.5, 7.0, 11.0, 21.0);
const TEXTV: Curve = Curve(3.0, 4.5, 7.0, 11.0);
const CONT: Curve = Curve(1.0, 1.0, 3.0, 4.5);
const ACC: Curve = Curve(3.0, 4.5, 7.0, 7.0);

fn ld(s: &S, light: f64, dark: f64) -> f64 {
    if s.dark {
        dark
    } else {
        light
    }
}
fn plain(name: &'static str, pal: usize, tone: fn(&S) -> f64, is_bg: bool) -> Role {
    Role { name, pal, tone, is_bg, bg: None, bg2: None, curve: None, pair: None }
}
fn on(name: &'static str, pal: usize, tone: fn(&S) -> f64, bg: Bg, curve: Curve) -> Role {
    Role { name, pal, tone, is_bg: false, bg: Some(bg), bg2: None, curve: Some(curve), pair: None }
}
fn on2(name: &'static str, pal: usize, tone: fn(&S) -> f64, bg: &'static str, bg2: &'static str, curve: Curve) -> Role {
    Role {
        name,
        pal,
        tone,
        is_bg: false,
        bg: Some(Bg::Role(bg)),
        bg2: Some(Bg::Role(bg2)),
        curve: Some(curve),
        pair: None,
    }
}
fn paired(
    name: &'static str,
    pal: usize,
    tone: fn(&S) -> f64,
    curve: Curve,
    pair: (&'static str, &'static str, f64, Pol, bool),
) -> Role {
    Role { name, pal, tone, is_bg: true, bg: Some(Bg::Highest), bg2: None, curve: Some(curve), pair: Some(pair) }
}

pub fn find_chroma_tone(h: f64, c: f64, tone: f64, decreasing: bool) -> f64 {
    let mut answer = tone;
    let mut closest = H::solve(h, c, tone);
    if closest.c < c {
        let mut peak = closest.c;
        while closest.c < c {
            answer += if decreasing { -1.0 } else { 1.0 };
            let p = H::solve(h, c, answer);
            if peak > p.c {
                break;
            }
            if (p.c - c).abs() < 0.4 {
                break;
            }
            let pd = (p.c - c).abs();
            let cd = (closest.c - c).abs();
            peak = peak.max(p.c);
            if pd < cd {
                closest = p;
            }
        }
    }
    answer
}

pub fn roles() -> &'static Vec<Role> {
    use std::sync::OnceLock;
    static R: OnceLock<Vec<Role>> = OnceLock::new();
    R.get_or_init(|| {
        let pc = ("primary_container", "primary", 10.0, Pol::Nearer, false);
        let sc = ("secondary_container", "secondary", 10.0, Pol::Nearer, false);
        let tc = ("tertiary_container", "tertiary", 10.0, Pol::Nearer, false);
        let ec = ("error_container", "error", 10.0, Pol::Nearer, false);
        let pf = ("primary_fixed", "primary_fixed_dim", 10.0, Pol::Lighter, true);
        let sf = ("secondary_fixed", "secondary_fixed_dim", 10.0, Pol::Lighter, true);
        let tf = ("tertiary_fixed", "tertiary_fixed_dim", 10.0, Pol::Lighter, true);
        vec![
            plain("primary_palette_key_color", PRI, |s| s.pal[0].key.t, false),
            plain("secondary_palette_key_color", SEC, |s| s.pal[1].key.t, false),
            plain("tertiary_palette_key_color", TER, |s| s.pal[2].key.t, false),
            plain("neutral_palette_key_color", NEU, |s| s.pal[3].key.t, false),
            plain("neutral_variant_palette_key_color", NV, |s| s.pal[4].key.t, false),
            plain("background", NEU, |s| ld(s, 98.0, 6.0), true),
            on("on_background", NEU, |s| ld(s, 10.0, 90.0), Bg::Role("background"), Curve(3.0, 3.0, 4.5, 7.0)),
            plain("surface", NEU, |s| ld(s, 98.0, 6.0), true),
            plain("surface_dim", NEU, |s| ld(s, Curve(87.0, 87.0, 80.0, 75.0).get(s.contrast), 6.0), true),
            plain("surface_bright", NEU, |s| ld(s, 98.0, Curve(24.0, 24.0, 29.0, 34.0).get(s.contrast)), true),
            plain("surface_container_lowest", NEU, |s| ld(s, 100.0, Curve(4.0, 4.0, 2.0, 0.0).get(s.contrast)), true),
            plain(
                "surface_container_low",
                NEU,
                |s| ld(s, Curve(96.0, 96.0, 96.0, 95.0).get(s.contrast), Curve(10.0, 10.0, 11.0, 12.0).get(s.contrast)),
                true,
            ),
            plain(
                "surface_container",
                NEU,
                |s| ld(s, Curve(94.0, 94.0, 92.0, 90.0).get(s.contrast), Curve(12.0, 12.0, 16.0, 20.0).get(s.contrast)),
                true,
            ),
            plain(
                "surface_container_high",
                NEU,
                |s| ld(s, Curve(92.0, 92.0, 88.0, 85.0).get(s.contrast), Curve(17.0, 17.0, 21.0, 25.0).get(s.contrast)),
                true,
            ),
            plain(
                "surface_container_highest",
                NEU,
                |s| ld(s, Curve(90.0, 90.0, 84.0, 80.0).get(s.contrast), Curve(22.0, 22.0, 26.0, 30.0).get(s.contrast)),
                true,
            ),
            on("on_surface", NEU, |s| ld(s, 10.0, 90.0), Bg::Highest, TEXT),
            plain("surface_variant", NV, |s| ld(s, 90.0, 30.0), true),
            on("on_surface_variant", NV, |s| ld(s, 30.0, 80.0), Bg::Highest, TEXTV),
            plain("inverse_surface", NEU, |s| ld(s, 20.0, 90.0), false),
            on("inverse_on_surface", NEU, |s| ld(s, 95.0, 20.0), Bg::Role("inverse_surface"), TEXT),
            on("outline", NV, |s| ld(s, 50.0, 60.0), Bg::Highest, Curve(1.5, 3.0, 4.5, 7.0)),
            on("outline_variant", NV, |s| ld(s, 80.0, 30.0), Bg::Highest, CONT),
            plain("shadow", NEU, |_| 0.0, false),
            plain("scrim", NEU, |_| 0.0, false),
            plain("surface_tint", PRI, |s| ld(s, 40.0, 80.0), true),
            paired("primary", PRI, |s| if s.mono() { ld(s, 0.0, 100.0) } else { ld(s, 40.0, 80.0) }, ACC, pc),
            on(
                "on_primary",
                PRI,
                |s| if s.mono() { ld(s, 90.0, 10.0) } else { ld(s, 100.0, 20.0) },
                Bg::Role("primary"),
                TEXT,
            ),
            paired(
                "primary_container",
                PRI,
                |s| {
                    if s.fid() {
                        s.src.t
                    } else if s.mono() {
                        ld(s, 25.0, 85.0)
                    } else {
                        ld(s, 90.0, 30.0)
                    }
                },
                CONT,
                pc,
            ),
            on(
                "on_primary_container",
                PRI,
                |s| {
                    if s.fid() {
                        foreground(tone_of("primary_container", s), 4.5)
                    } else if s.mono() {
                        ld(s, 100.0, 0.0)
                    } else {
                        ld(s, 10.0, 90.0)
                    }
                },
                Bg::Role("primary_container"),
                TEXT,
            ),
            on("inverse_primary", PRI, |s| ld(s, 80.0, 40.0), Bg::Role("inverse_surface"), ACC),
            paired("secondary", SEC, |s| ld(s, 40.0, 80.0), ACC, sc),
            on(
                "on_secondary",
                SEC,
                |s| if s.mono() { ld(s, 100.0, 10.0) } else { ld(s, 100.0, 20.0) },
                Bg::Role("secondary"),
                TEXT,
            ),
            paired(
                "secondary_container",
                SEC,
                |s| {
                    let i = ld(s, 90.0, 30.0);
                    if s.mono() {
                        ld(s, 85.0, 30.0)
                    } else if !s.fid() {
                        i
                    } else {
                        find_chroma_tone(s.pal[1].h, s.pal[1].c, i, !s.dark)
                    }
                },
                CONT,
                sc,
            ),
            on(
                "on_secondary_container",
                SEC,
                |s| {
                    if !s.fid() {
                        ld(s, 10.0, 90.0)
                    } else {
                        foreground(tone_of("secondary_container", s), 4.5)
                    }
                },
                Bg::Role("secondary_container"),
                TEXT,
            ),
            paired("tertiary", TER, |s| if s.mono() { ld(s, 25.0, 90.0) } else { ld(s, 40.0, 80.0) }, ACC, tc),
            on(
                "on_tertiary",
                TER,
                |s| if s.mono() { ld(s, 90.0, 10.0) } else { ld(s, 100.0, 20.0) },
                Bg::Role("tertiary"),
                TEXT,
            ),
            paired(
                "tertiary_container",
                TER,
                |s| {
                    if s.mono() {
                        ld(s, 49.0, 60.0)
                    } else if !s.fid() {
                        ld(s, 90.0, 30.0)
                    } else {
                        fix_disliked(&s.pal[2].hct(s.src.t)).t
                    }
                },
                CONT,
                tc,
            ),
            on(
                "on_tertiary_container",
                TER,
                |s| {
                    if s.mono() {
                        ld(s, 100.0, 0.0)
                    } else if !s.fid() {
                        ld(s, 10.0, 90.0)
                    } else {
                        foreground(tone_of("tertiary_container", s), 4.5)
                    }
                },
                Bg::Role("tertiary_container"),
                TEXT,
            ),
            paired("error", ERR, |s| ld(s, 40.0, 80.0), ACC, ec),
            on("on_error", ERR, |s| ld(s, 100.0, 20.0), Bg::Role("error"), TEXT),
            paired("error_container", ERR, |s| ld(s, 90.0, 30.0), CONT, ec),
            on("on_error_container", ERR, |s| ld(s, 10.0, 90.0), Bg::Role("error_container"), TEXT),
            paired("primary_fixed", PRI, |s| if s.mono() { 40.0 } else { 90.0 }, CONT, pf),
            paired("primary_fixed_dim", PRI, |s| if s.mono() { 30.0 } else { 80.0 }, CONT, pf),
            on2("on_primary_fixed", PRI, |s| if s.mono() { 100.0 } else { 10.0 }, "primary_fixed_dim", "primary_fixed", TEXT),
            on2(
                "on_primary_fixed_variant",
                PRI,
                |s| if s.mono() { 90.0 } else { 30.0 },
                "primary_fixed_dim",
                "primary_fixed",
                TEXTV,
            ),
            paired("secondary_fixed", SEC, |s| if s.mono() { 80.0 } else { 90.0 }, CONT, sf),
            paired("secondary_fixed_dim", SEC, |s| if s.mono() { 70.0 } else { 80.0 }, CONT, sf),
            on2("on_secondary_fixed", SEC, |_| 10.0, "secondary_fixed_dim", "secondary_fixed", TEXT),
            on2(
                "on_secondary_fixed_variant",
                SEC,
                |s| if s.mono() { 25.0 } else { 30.0 },
                "secondary_fixed_dim",
                "secondary_fixed",
                TEXTV,
            ),
            paired("tertiary_fixed", TER, |s| if s.mono() { 40.0 } else { 90.0 }, CONT, tf),
            paired("tertiary_fixed_dim", TER, |s| if s.mono() { 30.0 } else { 80.0 }, CONT, tf),
            on2("on_tertiary_fixed", TER, |s| if s.mono() { 100.0 } else { 10.0 }, "tertiary_fixed_dim", "tertiary_fixed", TEXT),
            on2(
                "on_tertiary_fixed_variant",
                TER,
                |s| if s.mono() { 90.0 } else { 30.0 },
                "tertiary_fixed_dim",
                "tertiary_fixed",
                TEXTV,
            ),
        ]
    })
}
pub fn role(name: &str) -> &'static Role {
    roles().iter().find(|r| r.name == name).expect("unknown role in the reference model")
}
fn bg_role(b: Bg, s: &S) -> &'static Role {
    match b {
        Bg::Role(n) => role(n),
        Bg::Highest => role(if s.dark { "surface_bright" } else { "surface_dim" }),
    }
}
pub fn tone_of(name: &str, s: &S) -> f64 {
    tone(role(name), s)
}
/// Tones of the background(s) of a role.
pub fn bg_tones(r: &Role, s: &S) -> Vec<f64> {
    r.bg.iter().chain(r.bg2.iter()).map(|b| tone(bg_role(*b, s), s)).collect()
}
/// Tones of (nearer, farther) in a pair, by the three-round rule.
#[allow(clippy::too_many_arguments)]
pub fn pair_tones(bg: f64, n0: f64, f0: f64, nc: f64, fc: f64, delta: f64, together: bool, dark: bool, decreasing: bool) -> (f64, f64) {
    let dir = if dark { 1.0 } else { -1.0 };
    let fit = |t0: f64, c: f64| if ratio(bg, t0) >= c { t0 } else { foreground(bg, c) };
    let (mut n, mut f) = if decreasing {
        (foreground(bg, nc), foreground(bg, fc))
    } else {
        (fit(n0, nc), fit(f0, fc))
    };
    if (f - n) * dir < delta {
        f = (n + delta * dir).clamp(0.0, 100.0);
        if (f - n) * dir < delta {
            n = (f - delta * dir).clamp(0.0, 100.0);
        }
    }
    let awkward = |t: f64| (50.0..60.0).contains(&t);
    let both = |n: &mut f64, f: &mut f64| {
        if dark {
            *n = 60.0;
            *f = f.max(*n + delta);
        } else {
            *n = 49.0;
            *f = f.min(*n - delta);
        }
    };
    if awkward(n) {
        both(&mut n, &mut f);
    } else if awkward(f) {
        if together {
            both(&mut n, &mut f);
        } else {
            f = if dark { 60.0 } else { 49.0 };
        }
    }
    (n, f)
}
pub fn tone(r: &Role, s: &S) -> f64 {
    let decreasing = s.contrast < 0.0;
    if let Some((a, b, delta, pol, together)) = r.pair {
        let bg = tone(bg_role(r.bg.unwrap(), s), s);
        let a_nearer = pol == Pol::Nearer || (pol == Pol::Lighter && !s.dark) || (pol == Pol::Darker && s.dark);
        let (n, f) = if a_nearer { (a, b) } else { (b, a) };
        let (nr, fr) = (role(n), role(f));
        let (nt, ft) = pair_tones(
            bg,
            (nr.tone)(s),
            (fr.tone)(s),
            nr.curve.unwrap().get(s.contrast),
            fr.curve.unwrap().get(s.contrast),
            delta,
            together,
            s.dark,
            decreasing,
        );
        return if r.name == n { nt } else { ft };
    }
    let mut answer = (r.tone)(s);
    let Some(b1) = r.bg else { return answer };
    let bt = tone(bg_role(b1, s), s);
    let want = r.curve.unwrap().get(s.contrast);
    if ratio(bt, answer) < want || decreasing {
        answer = foreground(bt, want);
    }
    if r.is_bg && (50.0..60.0).contains(&answer) {
        answer = if ratio(49.0, bt) >= want { 49.0 } else { 60.0 };
    }
    if let Some(b2) = r.bg2 {
        return dual(answer, bt, tone(bg_role(b2, s), s), want);
    }
    answer
}
pub fn dual(answer: f64, t1: f64, t2: f64, want: f64) -> f64 {
    let (up, lo) = (t1.max(t2), t1.min(t2));
    if ratio(up, answer) >= want && ratio(lo, answer) >= want {
        return answer;
    }
    let l = lighter(up, want);
    let d = darker(lo, want);
    if prefers_light(t1) || prefers_light(t2) {
        return if l < 0.0 { 100.0 } else { l };
    }
    match (l != -1.0, d != -1.0) {
        (true, false) => l,
        (false, true) => d,
        _ => {
            if d < 0.0 {
                0.0
            } else {
                d
            }
        }
    }
}
