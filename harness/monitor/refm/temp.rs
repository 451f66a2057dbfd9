//! Colour temperature.
use super::cam::H;
use super::color::*;
use std::f64::consts::PI;

pub fn raw(argb: i64) -> f64 {
    let l = lab(argb);
    let h = san(l[2].atan2(l[1]) * 180.0 / PI);
    let c = (l[1] * l[1] + l[2] * l[2]).sqrt();
    -0.5 + 0.02 * c.powf(1.07) * (san(h - 50.0) * PI / 180.0).cos()
}
pub struct T {
    pub input: H,
    /// Index 0..=360, hue 360 is hue 0 again.
    pub by_hue: Vec<H>,
    pub temps: Vec<f64>,
    pub input_temp: f64,
    pub cold: (f64, H),
    pub warm: (f64, H),
}
pub fn between(x: f64, a: f64, b: f64) -> bool {
    if a < b {
        a <= x && x <= b
    } else {
        a <= x || x <= b
    }
}
impl T {
    pub fn new(input: H) -> T {
        T::with_hues(input, (0..=360).map(|h| H::solve(h as f64, input.c, input.t)).collect())
    }
    /// From colours that were already judged to be the right ones.
    pub fn with_hues(input: H, by_hue: Vec<H>) -> T {
        let temps: Vec<f64> = by_hue.iter().map(|x| raw(x.argb)).collect();
        let input_temp = raw(input.argb);
        T::assemble(input, by_hue, temps, input_temp)
    }
    /// The same with every temperature and hue off by about `eps` (equal colours alike).
    pub fn jittered(&self, seed: u64, eps: f64) -> T {
        let j = |a: i64, k: u64| {
            let mut r = crate::rt::Rng::new(crate::rt::mix(crate::rt::mix(seed, k), a as u64));
            r.range(-eps, eps)
        };
        let temps = self.by_hue.iter().zip(&self.temps).map(|(x, t)| t + j(x.argb, 1)).collect();
        let by_hue = self.by_hue.iter().map(|x| H { h: (x.h + j(x.argb, 2)).clamp(0.0, 359.999999999), ..*x }).collect();
        let input = H { h: (self.input.h + j(self.input.argb, 2)).clamp(0.0, 359.999999999), ..self.input };
        T::assemble(input, by_hue, temps, self.input_temp + j(self.input.argb, 1))
    }
    fn assemble(input: H, by_hue: Vec<H>, temps: Vec<f64>, input_temp: f64) -> T {
        // Stable sort of all hues followed by the input.
        let mut all: Vec<(f64, H)> = temps.iter().cloned().zip(by_hue.iter().cloned()).collect();
        all.push((input_temp, input));
        all.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let cold = all[0];
        let warm = all[all.len() - 1];
        T { input, by_hue, temps, input_temp, cold, warm }
    }
    pub fn range(&self) -> f64 {
        self.warm.0 - self.cold.0
    }
    pub fn rel(&self, t: f64) -> f64 {
        if self.range() == 0.0 {
            0.5
        } else {
            (t - self.cold.0) / self.range()
        }
    }
    /// The complement, and how clearly it wins over the runner-up.
    pub fn complement(&self) -> (H, f64) {
        let (ch, wh) = (self.cold.1.h, self.warm.1.h);
        let c2w = between(self.input.h, ch, wh);
        let (s, e) = if c2w { (wh, ch) } else { (ch, wh) };
        let target = 1.0 - self.rel(self.input_temp);
        let mut best = 1000.0;
        let mut margin = 1000.0f64;
        let mut ans = self.by_hue[self.input.h.round() as usize];
        for add in 0..360 {
            let h = san(s + add as f64);
            if !between(h, s, e) {
                continue;
            }
            let i = h.round() as usize;
            let p = self.by_hue[i];
            let err = (target - (self.temps[i] - self.cold.0) / self.range()).abs();
            if err < best {
                if p.argb != ans.argb {
                    margin = best - err;
                }
                best = err;
                ans = p;
            } else if p.argb != ans.argb {
                margin = margin.min(err - best);
            }
        }
        (ans, margin)
    }
    pub fn wheel(&self, divisions: i64) -> Vec<H> {
        self.wheel_off(divisions, 0.0)
    }
    /// The same when every running sum is `off` too large.
    pub fn wheel_off(&self, divisions: i64, off: f64) -> Vec<H> {
        let start = self.input.h.round() as i64;
        let rel = |i: i64| self.rel(self.temps[i as usize]);
        let mut last = rel(start);
        let mut all = vec![self.by_hue[start as usize]];
        let mut total = 0.0;
        for i in 0..360 {
            let t = rel(san_i(start + i));
            total += (t - last).abs();
            last = t;
        }
        let step = total / divisions as f64;
        let mut add = 1;
        let mut run = 0.0;
        last = rel(start);
        while (all.len() as i64) < divisions {
            let i = san_i(start + add);
            let x = self.by_hue[i as usize];
            let t = rel(i);
            run += (t - last).abs();
            let mut ok = run + off >= all.len() as f64 * step;
            let mut ia = 1;
            while ok && (all.len() as i64) < divisions {
                all.push(x);
                ok = run + off >= (all.len() + ia) as f64 * step;
                ia += 1;
            }
            last = t;
            add += 1;
            if add > 360 {
                while (all.len() as i64) < divisions {
                    all.push(x);
                }
                break;
            }
        }
        all
    }
    pub fn analogous(&self, count: i64, divisions: i64) -> Vec<H> {
        let all = self.wheel(divisions);
        let n = all.len() as i64;
        let mut out = vec![self.input];
        let ccw = (count - 1) / 2;
        for i in 1..=ccw {
            out.insert(0, all[(-i).rem_euclid(n) as usize]);
        }
        for i in 1..=(count - ccw - 1) {
            out.push(all[i.rem_euclid(n) as usize]);
        }
        out
    }
}
