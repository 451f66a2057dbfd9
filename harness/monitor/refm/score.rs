//! Ranking of colours for theming.
use super::cam::H;
use super::color::*;

#[derive(Clone, Debug)]
pub struct Scored {
    pub x: H,
    pub score: f64,
}
/// Suitable colours, best first (ties by ARGB so that the model is deterministic).
/// `eps` shifts the filtering thresholds, to find out whether a verdict is a tie.
pub fn ranked(pop: &[(i64, i64)], filter: bool, eps: f64) -> Vec<Scored> {
    let total: i64 = pop.iter().map(|p| p.1).sum();
    let hs: Vec<H> = pop.iter().map(|p| H::of(p.0)).collect();
    let mut per_hue = [0i64; 360];
    for (x, p) in hs.iter().zip(pop) {
        per_hue[x.h.floor() as usize] += p.1;
    }
    let mut excited = [0.0f64; 360];
    for (h, n) in per_hue.iter().enumerate() {
        let prop = *n as f64 / total as f64;
        for d in -14..16 {
            excited[san_i(h as i64 + d) as usize] += prop;
        }
    }
    let mut out = vec![];
    for x in hs {
        let prop = excited[san_i(x.h.round() as i64) as usize];
        if filter && (x.c < 5.0 + eps || prop <= 0.01 + eps) {
            continue;
        }
        let w = if x.c < 48.0 { 0.1 } else { 0.3 };
        let score = prop * 100.0 * 0.7 + (x.c - 48.0) * w;
        out.push(Scored { x, score });
    }
    out.sort_by(|a, b| b.score.partial_cmp(&a.score).unwrap().then(a.x.argb.cmp(&b.x.argb)));
    out
}
/// Greedy choice with the widest hue spacing (90 down to 15 degrees) that yields
/// `desired` colours; otherwise what the 15 degree pass yields.
pub fn choose(r: &[Scored], desired: i64, eps: f64) -> (Vec<i64>, i64) {
    let mut d = 90;
    loop {
        let mut chosen: Vec<&H> = vec![];
        for s in r {
            if chosen.iter().all(|c| diff_deg(s.x.h, c.h) >= d as f64 + eps) {
                chosen.push(&s.x);
            }
            if chosen.len() as i64 >= desired {
                break;
            }
        }
        if chosen.len() as i64 >= desired || d == 15 {
            return (chosen.iter().map(|x| x.argb).collect(), d);
        }
        d -= 1;
    }
}
