//! Quantizers: exact histogram, Wu's box cutting, weighted k-means in L*a*b*.
use super::color::*;
use rand::{Rng, SeedableRng};
use std::collections::{BTreeMap, HashMap};

pub fn histogram(px: &[i64]) -> BTreeMap<i64, i64> {
    let mut m: HashMap<i64, i64> = HashMap::new();
    for &p in px {
        if chan(p)[0] == 255 {
            *m.entry(p).or_insert(0) += 1;
        }
    }
    m.into_iter().collect()
}
const N: usize = 33;
fn ix(r: usize, g: usize, b: usize) -> usize {
    (r * N + g) * N + b
}
#[derive(Clone, Copy, Default, Debug)]
struct Cube {
    lo: [usize; 3],
    hi: [usize; 3],
}
/// Cumulative moments: weight, r, g, b, squares.
struct Mom {
    t: Vec<[i128; 5]>,
}
impl Mom {
    fn new(h: &BTreeMap<i64, i64>) -> Mom {
        let mut t = vec![[0i128; 5]; N * N * N];
        for (&p, &n) in h {
            let c = chan(p);
            let i = ix((c[1] / 8 + 1) as usize, (c[2] / 8 + 1) as usize, (c[3] / 8 + 1) as usize);
            let n = n as i128;
            let (r, g, b) = (c[1] as i128, c[2] as i128, c[3] as i128);
            for (k, v) in [n, n * r, n * g, n * b, n * (r * r + g * g + b * b)].iter().enumerate() {
                t[i][k] += v;
            }
        }
        for axis in 0..3 {
            for r in 0..N {
                for g in 0..N {
                    for b in 0..N {
                        let p = [r, g, b];
                        if p[axis] == 0 {
                            continue;
                        }
                        let mut q = p;
                        q[axis] -= 1;
                        let prev = t[ix(q[0], q[1], q[2])];
                        let cur = &mut t[ix(r, g, b)];
                        for k in 0..5 {
                            cur[k] += prev[k];
                        }
                    }
                }
            }
        }
        Mom { t }
    }
    fn sum(&self, lo: [usize; 3], hi: [usize; 3]) -> [i128; 5] {
        let mut out = [0i128; 5];
        for m in 0..8 {
            let at = |a: usize| if m >> a & 1 == 1 { hi[a] } else { lo[a] };
            let p = [at(0), at(1), at(2)];
            let sign = if (m as u32).count_ones() % 2 == 1 { 1 } else { -1 };
            let v = self.t[ix(p[0], p[1], p[2])];
            for k in 0..5 {
                out[k] += sign * v[k];
            }
        }
        out
    }
}
fn ss(m: &[i128; 5]) -> f64 {
    (m[1] * m[1] + m[2] * m[2] + m[3] * m[3]) as f64
}
pub struct WuResult {
    pub colors: Vec<i64>,
    /// Smallest relative gap met in any comparison that decided a cut; a tiny gap
    /// means equally good cuts existed.
    pub margin: f64,
    pub hist: BTreeMap<i64, i64>,
}
pub fn wu(px: &[i64], max: i64) -> WuResult {
    let hist = histogram(px);
    let m = Mom::new(&hist);
    let mut margin = f64::INFINITY;
    // `scale`: magnitude of what was subtracted to get a and b (their rounding error)
    let mut note = |a: f64, b: f64, scale: f64| {
        let s = a.abs().max(b.abs()) + 1e-5 * scale;
        if s > 0.0 {
            margin = margin.min((a - b).abs() / s);
        }
    };
    let mut cubes = vec![Cube::default(); max as usize];
    cubes[0] = Cube { lo: [0; 3], hi: [32; 3] };
    let mut var = vec![0.0f64; max as usize];
    let variance = |c: &Cube| -> f64 {
        let v = m.sum(c.lo, c.hi);
        let sq = v[4] as f64;
        sq - ss(&v) / v[0] as f64
    };
    let vol = |c: &Cube| (0..3).map(|a| c.hi[a] - c.lo[a]).product::<usize>();
    let mut next = 0usize;
    let mut count = max as usize;
    let mut i = 1usize;
    while i < max as usize {
        // best cut of cube `next`
        let c = cubes[next];
        let whole = m.sum(c.lo, c.hi);
        let mut best: [(f64, i64); 3] = [(0.0, -1); 3];
        let mut cuts: Vec<(f64, [i128; 5])> = vec![];
        for ax in 0..3 {
            for pos in c.lo[ax] + 1..c.hi[ax] {
                let mut hi = c.hi;
                hi[ax] = pos;
                let a = m.sum(c.lo, hi);
                if a[0] == 0 || a[0] == whole[0] {
                    continue;
                }
                let mut b = whole;
                for k in 0..5 {
                    b[k] -= a[k];
                }
                let t = ss(&a) / a[0] as f64 + ss(&b) / b[0] as f64;
                cuts.push((t, a));
                if t > best[ax].0 {
                    best[ax] = (t, pos as i64);
                }
            }
        }
        let (r, g, b) = (best[0].0, best[1].0, best[2].0);
        // Cuts that are (nearly) as good as the best but divide the pixels differently.
        if let Some(top) = cuts.iter().cloned().reduce(|x, y| if y.0 > x.0 { y } else { x }) {
            for (t, a) in &cuts {
                let same = *a == top.1 || (0..5).all(|k| a[k] + top.1[k] == whole[k]);
                if !same {
                    note(*t, top.0, 0.0);
                }
            }
        }
        let ax = if r >= g && r >= b {
            0
        } else if g >= r && g >= b {
            1
        } else {
            2
        };
        if ax == 0 && best[0].1 < 0 {
            var[next] = 0.0;
            i -= 1;
        } else {
            let mut two = c;
            cubes[next].hi[ax] = best[ax].1 as usize;
            two.lo[ax] = best[ax].1 as usize;
            cubes[i] = two;
            var[next] = if vol(&cubes[next]) > 1 { variance(&cubes[next]) } else { 0.0 };
            var[i] = if vol(&cubes[i]) > 1 { variance(&cubes[i]) } else { 0.0 };
        }
        next = 0;
        let mut t = var[0];
        for j in 1..=i {
            if var[j] > t {
                t = var[j];
                next = j;
            }
        }
        let size = |c: &Cube| m.sum(c.lo, c.hi)[4] as f64;
        for j in 0..=i {
            if j != next && var[j] != 0.0 {
                note(var[j], t, size(&cubes[j]).max(size(&cubes[next])));
            }
        }
        if t <= 0.0 {
            count = i + 1;
            break;
        }
        i += 1;
    }
    let mut colors = vec![];
    for c in &cubes[..count] {
        let v = m.sum(c.lo, c.hi);
        if v[0] > 0 {
            let f = |k: usize| (v[k] as f64 / v[0] as f64).round() as i64;
            colors.push(argb(f(1), f(2), f(3)));
        }
    }
    WuResult { colors, margin, hist }
}
pub struct KResult {
    pub counts: BTreeMap<i64, i64>,
    pub map: BTreeMap<i64, i64>,
    /// Some two clusters ended on the same ARGB.
    pub merged: bool,
}
fn d2(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    let x = a[0] - b[0];
    let y = a[1] - b[1];
    let z = a[2] - b[2];
    x * x + y * y + z * z
}
/// `jitter` displaces every point (even seeds) or every cluster mean (odd seeds) by about
/// that much, to expose ties.
pub fn wsmeans(px: &[i64], max: i64, start: &[i64], iterations: i64, jitter: Option<(u64, f64)>) -> KResult {
    let mut seen: HashMap<i64, usize> = HashMap::new();
    let mut uniq: Vec<i64> = vec![];
    let mut cnt: Vec<i64> = vec![];
    for &p in px {
        match seen.get(&p) {
            Some(&i) => cnt[i] += 1,
            None => {
                seen.insert(p, uniq.len());
                uniq.push(p);
                cnt.push(1);
            }
        }
    }
    let shake = jitter.is_some_and(|(s, _)| s % 2 == 1);
    let mut jr = jitter.map(|(s, e)| (crate::rt::Rng::new(s), e));
    let pts: Vec<[f64; 3]> = uniq
        .iter()
        .map(|&p| {
            let mut l = lab(p);
            if let Some((r, e)) = jr.as_mut().filter(|_| !shake) {
                for v in l.iter_mut() {
                    *v += (r.f() - 0.5) * 2.0 * *e;
                }
            }
            l
        })
        .collect();
    let n = uniq.len();
    let k = max.min(n as i64) as usize;
    let mut cl: Vec<[f64; 3]> = start.iter().map(|&p| lab(p)).collect();
    if k > cl.len() {
        let mut rng = rand::rngs::StdRng::seed_from_u64(0x42688);
        let mut idx: Vec<usize> = vec![];
        for _ in 0..k - cl.len() {
            let mut i = rng.gen_range(0..n);
            while idx.contains(&i) {
                i = rng.gen_range(0..n);
            }
            idx.push(i);
        }
        for i in idx {
            cl.push(pts[i]);
        }
    }
    let mut assign: Vec<usize> = (0..n).map(|i| i % k).collect();
    let mut dm: Vec<Vec<(f64, usize)>> = (0..k).map(|_| (0..k).map(|i| (0.0, i)).collect()).collect();
    let mut sums = vec![0i64; k];
    for it in 0..iterations {
        let mut moved = 0;
        for i in 0..k {
            for j in i + 1..k {
                let d = d2(&cl[i], &cl[j]);
                dm[j][i] = (d, i);
                dm[i][j] = (d, j);
            }
            dm[i].sort_by(|a, b| a.partial_cmp(b).unwrap());
        }
        for i in 0..n {
            let pc = assign[i];
            let pd = d2(&pts[i], &cl[pc]);
            let mut best = pd;
            let mut new = None;
            for j in 0..k {
                if dm[pc][j].0 >= 4.0 * pd {
                    continue;
                }
                let d = d2(&pts[i], &cl[j]);
                if d < best {
                    best = d;
                    new = Some(j);
                }
            }
            if let Some(j) = new {
                moved += 1;
                assign[i] = j;
            }
        }
        if moved == 0 && it > 0 {
            break;
        }
        let mut acc = vec![[0.0f64; 3]; k];
        sums.iter_mut().for_each(|v| *v = 0);
        for i in 0..n {
            let a = assign[i];
            sums[a] += cnt[i];
            for c in 0..3 {
                acc[a][c] += pts[i][c] * cnt[i] as f64;
            }
        }
        for i in 0..k {
            cl[i] = if sums[i] == 0 { [0.0; 3] } else { acc[i].map(|v| v / sums[i] as f64) };
            if let Some((r, e)) = jr.as_mut().filter(|_| shake && sums[i] > 0) {
                for v in cl[i].iter_mut() {
                    *v += (r.f() - 0.5) * 2.0 * *e;
                }
            }
        }
    }
    let mut counts = BTreeMap::new();
    let mut merged = false;
    for i in 0..k {
        if sums[i] == 0 {
            continue;
        }
        let c = argb_from_lab(cl[i][0], cl[i][1], cl[i][2]);
        if counts.contains_key(&c) {
            merged = true;
        } else {
            counts.insert(c, sums[i]);
        }
    }
    let map = (0..n)
        .map(|i| {
            let c = cl[assign[i]];
            (uniq[i], argb_from_lab(c[0], c[1], c[2]))
        })
        .collect();
    KResult { counts, map, merged }
}
