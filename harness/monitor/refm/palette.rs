//! Tonal palettes and core palettes.
use super::cam::*;
use super::color::*;
use super::solver;

pub const TONES: [i64; 13] = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100];

#[derive(Clone, Debug)]
pub struct P {
    pub h: f64,
    pub c: f64,
    pub key: H,
    pub list: Option<[i64; 13]>,
}
pub fn key_color(h: f64, c: f64) -> H {
    let mut best = H::solve(h, c, 50.0);
    let mut delta = (best.c - c).abs();
    for d in 1..50 {
        if c.round() == best.c.round() {
            return best;
        }
        for t in [50.0 + d as f64, 50.0 - d as f64] {
            let x = H::solve(h, c, t);
            let dx = (x.c - c).abs();
            if dx < delta {
                delta = dx;
                best = x;
            }
        }
    }
    best
}
impl P {
    pub fn of(h: f64, c: f64) -> P {
        P { h, c, key: key_color(h, c), list: None }
    }
    /// Without the (expensive) key colour.
    pub fn of_lazy(h: f64, c: f64) -> P {
        P { h, c, key: H { h: 0.0, c: 0.0, t: 0.0, argb: 0 }, list: None }
    }
    pub fn from_h(x: H) -> P {
        P { h: x.h, c: x.c, key: x, list: None }
    }
    pub fn from_list(l: &[i64; 13]) -> P {
        let (mut bh, mut bc) = (0.0, 0.0);
        for &a in l {
            let x = H::of(a);
            if x.t > 98.0 {
                continue;
            }
            if x.c > bc {
                bh = x.h;
                bc = x.c;
            }
        }
        P { h: bh, c: bc, key: key_color(bh, bc), list: Some(*l) }
    }
    pub fn listed(&self, tone: f64) -> Option<i64> {
        let l = self.list.as_ref()?;
        TONES.iter().position(|&t| t as f64 == tone).map(|i| l[i])
    }
    pub fn argb(&self, tone: f64) -> i64 {
        self.listed(tone).unwrap_or_else(|| solver::solve(self.h, self.c, tone))
    }
    pub fn hct(&self, tone: f64) -> H {
        H::of(self.argb(tone))
    }
    pub fn as_list(&self) -> [i64; 13] {
        TONES.map(|t| self.argb(t as f64))
    }
    /// Is `observed` this palette's colour at `tone`?
    pub fn explains(&self, tone: f64, observed: i64) -> bool {
        match self.listed(tone) {
            Some(v) => v == observed,
            None => solver::explains(self.h, self.c, tone, observed),
        }
    }
}
/// (hue, chroma) of primary, secondary, tertiary, neutral, neutral variant, error.
pub fn core_of(argb: i64) -> [(f64, f64); 6] {
    let x = H::of(argb);
    [
        (x.h, x.c.max(48.0)),
        (x.h, 16.0),
        (x.h + 60.0, 24.0),
        (x.h, 4.0),
        (x.h, 8.0),
        (25.0, 84.0),
    ]
}
pub fn core_content_of(argb: i64) -> [(f64, f64); 6] {
    let x = H::of(argb);
    [
        (x.h, x.c),
        (x.h, x.c / 3.0),
        (x.h + 60.0, x.c / 2.0),
        (x.h, (x.c / 12.0).min(4.0)),
        (x.h, (x.c / 6.0).min(8.0)),
        (25.0, 84.0),
    ]
}
pub fn disliked(x: &H) -> bool {
    let h = x.h.round();
    (90.0..=111.0).contains(&h) && x.c.round() > 16.0 && x.t.round() < 65.0
}
/// How far the colour is from the edge of the "disliked" region, in coordinate units.
pub fn dislike_margin(x: &H) -> f64 {
    (x.h - 89.5)
        .abs()
        .min((x.h - 111.5).abs())
        .min((x.c - 16.5).abs())
        .min((x.t - 64.5).abs())
}
pub fn fix_disliked(x: &H) -> H {
    if disliked(x) {
        H::solve(x.h, x.c, 70.0)
    } else {
        *x
    }
}
#[allow(dead_code)]
pub fn hue_gap(a: f64, b: f64) -> f64 {
    ang(a, b)
}
