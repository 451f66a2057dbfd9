//! C18 histogram and Wu quantizers, C19 k-means quantizers, C20 scoring.
use crate::gen;
use crate::refm::cam::H;
use crate::refm::color as rc;
use crate::refm::{quant as rq, score as rs};
use crate::rt::*;
use crate::sut::*;
use std::collections::{BTreeMap, HashMap};

/// Images as they occur: flat art, photographs, gradients, greys, noise, transparency.
pub fn image(r: &mut Rng, size: usize) -> (Vec<i64>, &'static str) {
    let n = match r.below(12) {
        0 => 1,
        1 => r.int(2, 8) as usize,
        2 => r.int(8, 64) as usize,
        _ => r.int(64, size as i64) as usize,
    };
    let clampi = |v: f64| v.round().clamp(0.0, 255.0) as i64;
    let (mut px, name): (Vec<i64>, &'static str) = match r.below(9) {
        0 => {
            let k = r.int(1, 12);
            let pal: Vec<i64> = (0..k).map(|_| gen::argb(r)).collect();
            ((0..n).map(|_| r.pick(&pal)).collect(), "flat art")
        }
        1 | 2 => {
            // a photograph: blobs of similar colours
            let k = r.int(1, 9) as usize;
            let blobs: Vec<([f64; 3], f64)> = (0..k)
                .map(|_| {
                    let c = rc::chan(gen::argb(r));
                    ([c[1] as f64, c[2] as f64, c[3] as f64], r.pick(&[1.0, 4.0, 12.0, 40.0]))
                })
                .collect();
            let px = (0..n)
                .map(|_| {
                    let u = r.f();
                    let (c, s) = blobs[((u * u) * k as f64) as usize];
                    let mut g = || (0..4).map(|_| r.range(-1.0, 1.0)).sum::<f64>() * s;
                    rc::argb(clampi(c[0] + g()), clampi(c[1] + g()), clampi(c[2] + g()))
                })
                .collect();
            (px, "photograph")
        }
        3 => {
            let (a, b) = (rc::chan(gen::argb(r)), rc::chan(gen::argb(r)));
            let px = (0..n)
                .map(|i| {
                    let t = i as f64 / n.max(2) as f64;
                    let m = |k: usize| clampi(a[k] as f64 + (b[k] - a[k]) as f64 * t);
                    rc::argb(m(1), m(2), m(3))
                })
                .collect();
            (px, "gradient")
        }
        4 => ((0..n).map(|_| {
            let g = r.int(0, 255);
            rc::argb(g, g, g)
        }).collect(), "greys"),
        5 => ((0..n).map(|_| rc::opaque((r.u() & 0xffffff) as u32)).collect(), "noise"),
        6 => {
            // very few buckets of the 5-bit cube
            let b = gen::rgb(r);
            ((0..n).map(|_| rc::opaque((b & 0xf8f8f8) | (r.u() as u32 & 0x070707))).collect(), "one bucket")
        }
        7 => {
            // one channel only
            let sh = r.pick(&[0, 8, 16]);
            let base = gen::rgb(r) & !(0xffu32 << sh);
            ((0..n).map(|_| rc::opaque(base | (r.below(256) as u32) << sh)).collect(), "one channel")
        }
        _ => {
            // one dominant colour and rare others
            let d = gen::argb(r);
            ((0..n).map(|_| if r.chance(0.97) { d } else { gen::argb(r) }).collect(), "dominant colour")
        }
    };
    if r.chance(0.2) {
        for p in px.iter_mut() {
            if r.chance(0.3) {
                *p = (*p & 0xffffff) | (r.pick(&[0i64, 1, 127, 254]) << 24);
            }
        }
    }
    (px, name)
}
pub fn max_colors(r: &mut Rng, hi: i64) -> i64 {
    match r.below(6) {
        0 => r.pick(&[1, 2, 3]),
        1 => r.pick(&[16, 32, 64]).min(hi),
        2 => r.int(1, hi),
        _ => r.int(1, hi.min(24)),
    }
}
/// Sum of squared distances of the pixels to their nearest colour.
fn sse(h: &BTreeMap<i64, i64>, cols: &[i64]) -> f64 {
    let cs: Vec<[i64; 4]> = cols.iter().map(|c| rc::chan(*c)).collect();
    h.iter()
        .map(|(p, n)| {
            let a = rc::chan(*p);
            let d = cs.iter().map(|c| (1..4).map(|k| (a[k] - c[k]).pow(2)).sum::<i64>()).min().unwrap_or(0);
            (d * n) as f64
        })
        .sum()
}
fn show(px: &[i64]) -> String {
    if px.len() <= 12 {
        format!("{px:x?}")
    } else {
        format!("{:x?}... ({} pixels)", &px[..8], px.len())
    }
}
fn image_hash(px: &[i64], max: i64) -> u64 {
    px.iter().fold(max as u64, |a, b| mix(a, *b as u64))
}
fn by_value(m: &HashMap<i64, i64>) -> BTreeMap<i64, i64> {
    m.iter().map(|(a, b)| (*a, *b)).collect()
}
pub fn c18(r: &Run) {
    r.describe(
        "Generated images (flat art, photographs, gradients, greys, noise, single-bucket, transparency) and colour limits 1..256 for the histogram and Wu quantizers; Wu objects are also reused for several images. A case is a distinct (image, limit).",
        &["limit at least 1, at least one opaque pixel"],
    );
    r.require(&["map_counts", "wu_limit", "wu_opaque", "wu_colors", "wu_within_image", "wu_repeat", "wu_exact_when_single"]);
    r.phase("map", r.scaled(9000, 15), |cx| {
        for _ in 0..4 {
            let (px, kind) = image(&mut cx.rng, 1500);
            cx.case_hash(image_hash(&px, 0));
            cx.story(format!("{kind}: {}", show(&px)));
            let m = max_colors(&mut cx.rng, 256);
            let got = QuantizerMap {}.quantize(&px, m, None);
            cx.ok("map_counts", by_value(&got.color_to_count) == rq::histogram(&px), || "counts differ from the exact histogram of opaque pixels".into());
            let mut q = px.clone();
            cx.rng.shuffle(&mut q);
            let again = QuantizerMap {}.quantize(&q, m, None);
            cx.ok("map_counts", again.color_to_count == got.color_to_count, || "pixel order matters".into());
        }
    });
    r.phase("wu", r.scaled(700, 15), |cx| {
        let mut wu = QuantizerWu::new();
        for round in 0..3 {
            let (mut px, kind) = image(&mut cx.rng, 4000);
            if rq::histogram(&px).is_empty() {
                px.push(gen::argb(&mut cx.rng));
            }
            let max = max_colors(&mut cx.rng, 256);
            cx.case_hash(image_hash(&px, max));
            cx.story(format!("Wu, {kind}, limit {max}, image {round} of this quantizer: {}", show(&px)));
            let res = wu.quantize(&px, max, None);
            let mut got: Vec<i64> = res.color_to_count.keys().cloned().collect();
            got.sort();
            let want = rq::wu(&px, max);
            let mut w = want.colors.clone();
            w.sort();
            w.dedup();
            cx.ok("wu_limit", !got.is_empty() && got.len() as i64 <= max, || format!("{} colours", got.len()));
            cx.ok("wu_opaque", got.iter().all(|c| c >> 24 == 0xff), || format!("{got:x?}"));
            let lo = [1, 2, 3].map(|k| want.hist.keys().map(|p| rc::chan(*p)[k]).min().unwrap());
            let hi = [1, 2, 3].map(|k| want.hist.keys().map(|p| rc::chan(*p)[k]).max().unwrap());
            let within = got.iter().all(|c| (0..3).all(|k| (lo[k]..=hi[k]).contains(&rc::chan(*c)[k + 1])));
            cx.ok("wu_within_image", within, || format!("{got:x?} leaves the image's range {lo:?}..{hi:?}"));
            if want.hist.len() == 1 {
                cx.ok("wu_exact_when_single", got == vec![*want.hist.keys().next().unwrap()], || format!("{got:x?}"));
            }
            cx.tally(if want.margin > 1e-9 { "wu: no tied cuts" } else { "wu: tied cuts" });
            if got == w {
                cx.ok("wu_colors", true, String::new);
            } else if want.margin > 1e-9 {
                cx.ok("wu_colors", false, || format!("{} colours {got:x?}, specified {} {w:x?}", got.len(), w.len()));
            } else {
                cx.tally("wu: tied cuts, other palette");
                let (a, b) = (sse(&want.hist, &got), sse(&want.hist, &w));
                cx.ok("wu_tied_quality", a <= b * 1.5 + want.hist.values().sum::<i64>() as f64 * 4.0, || format!("error {a}, reference {b}"));
            }
            let mut q = px.clone();
            cx.rng.shuffle(&mut q);
            let mut again: Vec<i64> = QuantizerWu::new().quantize(&q, max, None).color_to_count.keys().cloned().collect();
            again.sort();
            cx.ok("wu_repeat", again == got, || format!("fresh quantizer, shuffled pixels: {again:x?}, first {got:x?}"));
            if cx.failed() {
                return;
            }
            cx.sample(|| format!("{kind} of {} pixels, limit {max}: {} colours", px.len(), got.len()));
        }
    });
    r.phase("wide", r.scaled(24, 6), |cx| {
        // More distinct colours than 16 bits count, or a limit beyond 256.
        let many = cx.index % 2 == 0;
        let n = if many { cx.rng.int(70_000, 300_000) } else { cx.rng.int(500, 3000) };
        let mask = if cx.rng.chance(0.5) { 0xffffff } else { cx.rng.pick(&[0xff_ffff & !0x80u32, 0x7fffff, 0xff3fff]) };
        let px: Vec<i64> = (0..n).map(|_| rc::opaque((cx.rng.u() as u32) & mask)).collect();
        let max = if many { cx.rng.int(2, 24) } else { cx.rng.pick(&[255, 256, 257, 300, 512, 1000]) };
        cx.case_hash(image_hash(&px, max));
        cx.story(format!("{n} pixels, limit {max}: {}", show(&px)));
        let want = rq::wu(&px, max);
        let got = QuantizerMap {}.quantize(&px, max, None);
        cx.ok("map_counts", by_value(&got.color_to_count) == want.hist, || format!("counts of {} colours differ from the histogram", want.hist.len()));
        let mut got: Vec<i64> = QuantizerWu::new().quantize(&px, max, None).color_to_count.keys().cloned().collect();
        got.sort();
        let mut w = want.colors.clone();
        w.sort();
        w.dedup();
        cx.ok("wu_limit", !got.is_empty() && got.len() as i64 <= max, || format!("{} colours", got.len()));
        if got != w && want.margin <= 1e-9 {
            cx.tally("wu: tied cuts, other palette");
        } else {
            cx.ok("wu_colors", got == w, || format!("{} colours, specified {}", got.len(), w.len()));
        }
        cx.sample(|| format!("{n} pixels of {} colours, limit {max}: {} colours", want.hist.len(), got.len()));
    });
    r.phase("large", r.scaled(24, 4), |cx| {
        // Millions of pixels of few colours: the sums get large.
        let n = 9_000_000;
        let mut pal: Vec<i64> = (0..cx.rng.int(1, 6)).map(|_| gen::argb(&mut cx.rng) | 0xc0c0c0).collect();
        // some of many similar colours
        let similar = cx.index % 4 == 1;
        if similar {
            let c = gen::argb(&mut cx.rng) & 0x3f3f3f;
            pal = (0..cx.rng.int(40, 300)).map(|_| 0xff808080 + c + (cx.rng.u() & 0x1f3f1f) as i64).collect();
        }
        // every other image is almost all one colour, with a channel at its maximum
        let dominant = cx.index % 2 == 0;
        if dominant {
            pal[0] |= 0xff << cx.rng.pick(&[0, 8, 16]);
        }
        let mut px = Vec::with_capacity(n);
        for _ in 0..n / 1000 {
            let p = if dominant && cx.rng.chance(0.97) { pal[0] } else { cx.rng.pick(&pal) };
            px.extend(std::iter::repeat_n(p, 1000));
        }
        let max = if similar { cx.rng.int(8, 64) } else { max_colors(&mut cx.rng, 16) };
        cx.case_hash(image_hash(&pal, max));
        cx.story(format!("Wu on {n} pixels of {pal:x?}, limit {max}"));
        let mut got: Vec<i64> = QuantizerWu::new().quantize(&px, max, None).color_to_count.keys().cloned().collect();
        got.sort();
        let want = rq::wu(&px, max);
        let mut w = want.colors.clone();
        w.sort();
        w.dedup();
        cx.tally(if want.margin > 1e-9 { "wu: no tied cuts" } else { "wu: tied cuts" });
        cx.ok("wu_colors", got == w || want.margin < 1e-9, || format!("{got:x?}, specified {w:x?}"));
        cx.ok("wu_limit", !got.is_empty() && got.len() as i64 <= max, || format!("{} colours", got.len()));
    });
}

fn kmeans_invariants(cx: &mut Cx, px: &[i64], max: i64, counts: &BTreeMap<i64, i64>, map: Option<&BTreeMap<i64, i64>>) {
    let total = px.len() as i64;
    cx.ok("limit", !counts.is_empty() && counts.len() as i64 <= max, || format!("{} colours", counts.len()));
    cx.ok("counts_positive", counts.values().all(|v| *v > 0) && counts.values().sum::<i64>() <= total, || format!("counts {counts:x?} of {total} pixels"));
    cx.ok("opaque", counts.keys().all(|c| c >> 24 == 0xff), || format!("{counts:x?}"));
    let Some(map) = map else { return };
    let mut groups: BTreeMap<i64, (i64, [f64; 3])> = BTreeMap::new();
    let mut hist: BTreeMap<i64, i64> = BTreeMap::new();
    for p in px {
        *hist.entry(*p).or_insert(0) += 1;
    }
    let complete = hist.keys().all(|p| map.contains_key(p)) && map.len() == hist.len();
    cx.ok("map_complete", complete, || format!("{} of {} colours mapped", map.len(), hist.len()));
    if !complete {
        return;
    }
    for (p, n) in &hist {
        let l = rc::lab(*p);
        let g = groups.entry(map[p]).or_insert((0, [0.0; 3]));
        g.0 += n;
        for k in 0..3 {
            g.1[k] += l[k] * *n as f64;
        }
    }
    cx.ok("map_into_result", groups.keys().all(|c| counts.contains_key(c)) && counts.len() == groups.len(), || "pixels are mapped to colours that are not in the result".into());
    // Only clusters that ended on the same colour lose population.
    let merged = groups.iter().any(|(c, g)| counts.get(c).is_some_and(|v| *v != g.0));
    if merged {
        cx.tally("clusters that share a colour");
    }
    for (c, g) in &groups {
        let n = counts.get(c).cloned().unwrap_or(0);
        cx.ok("count_is_population", n <= g.0, || format!("{c:08x}: count {n}, {} pixels mapped to it", g.0));
        if n == g.0 {
            let m = g.1.map(|v| v / g.0 as f64);
            cx.ok("color_is_mean", rc::rounds_to(rc::lin_from_lab(m[0], m[1], m[2]), *c, 1e-5), || {
                format!("{c:08x} is not the mean {:08x} of its {} pixels", rc::argb_from_lab(m[0], m[1], m[2]), g.0)
            });
        }
    }
}
pub fn c19(r: &Run) {
    r.describe(
        "Generated images x limits x starting clusters (none, from Wu, arbitrary) x iteration limits for the weighted k-means quantizer, and the combined Celebi quantizer. Results are judged by invariants between counts, map and image, by repetition, and by comparison with an independent implementation whenever that one is insensitive to rounding. A case is a distinct (image, limit, starting clusters).",
        &["limit at least 1, at least one opaque pixel", "clusters that end on the same colour keep only one population, as in the original"],
    );
    r.require(&["limit", "counts_positive", "opaque", "map_complete", "map_into_result", "count_is_population", "color_is_mean", "repeat_same", "specified_result", "celebi_result", "map_only_on_request", "single_color"]);
    // Is the reference's answer independent of rounding?
    fn stable(px: &[i64], max: i64, start: &[i64], it: i64, w: &rq::KResult) -> bool {
        // A tied decision falls either way in each trial.
        (0..60).all(|k| {
            let j = rq::wsmeans(px, max, start, it, Some((k, [1e-7, 1e-9][k as usize / 2 % 2])));
            j.counts == w.counts && j.map == w.map
        })
    }
    fn judge(cx: &mut Cx, clause: &'static str, px: &[i64], max: i64, start: &[i64], it: i64, counts: &BTreeMap<i64, i64>, map: &BTreeMap<i64, i64>) {
        let w = rq::wsmeans(px, max, start, it, None);
        if *counts == w.counts && *map == w.map {
            cx.ok(clause, true, String::new);
        } else if stable(px, max, start, it, &w) {
            cx.ok(clause, false, || {
                let d: Vec<_> = counts.iter().filter(|(c, n)| w.counts.get(c) != Some(n)).take(6).collect();
                let e: Vec<_> = w.counts.iter().filter(|(c, n)| counts.get(c) != Some(n)).take(6).collect();
                format!("result has {d:x?}, specified {e:x?} ({} / {} colours)", counts.len(), w.counts.len())
            });
        } else {
            cx.tally("k-means: tie, other result");
        }
    }
    r.phase("wsmeans", r.scaled(12000, 12), |cx| {
        for _ in 0..2 {
            // long runs need images that take long to settle
            let long = cx.rng.chance(0.06);
            let (px, kind) = image(&mut cx.rng, if long { 3000 } else { 700 });
            let max = max_colors(&mut cx.rng, if long { 20 } else { 48 });
            let start: Vec<i64> = match cx.rng.below(4) {
                0 => vec![],
                1 => rq::wu(&px, max).colors,
                2 => (0..cx.rng.int(1, max)).map(|_| gen::argb(&mut cx.rng)).collect(),
                _ => (0..cx.rng.int(1, max + 5)).map(|_| cx.rng.pick(&px)).collect(),
            };
            let it = if long {
                Some(cx.rng.int(20, 120))
            } else if cx.rng.chance(0.6) {
                None
            } else {
                Some(cx.rng.int(1, 20))
            };
            cx.case_hash(image_hash(&px, max) ^ image_hash(&start, it.unwrap_or(5)));
            cx.story(format!("k-means, {kind}, limit {max}, iterations {it:?}, {} starting clusters: {}", start.len(), show(&px)));
            let call = |m: Option<bool>| QuantizerWsmeans::quantize(&px, max, if start.is_empty() { None } else { Some(&start) }, None, it, m);
            let a = call(Some(true));
            let (counts, map) = (by_value(&a.color_to_count), by_value(&a.input_pixel_to_cluster_pixel));
            kmeans_invariants(cx, &px, max, &counts, Some(&map));
            judge(cx, "specified_result", &px, max, &start, it.unwrap_or(5), &counts, &map);
            let b = call(if cx.rng.chance(0.5) { None } else { Some(false) });
            cx.ok("repeat_same", b.color_to_count == a.color_to_count, || "a second call gave another result".into());
            cx.ok("map_only_on_request", b.input_pixel_to_cluster_pixel.is_empty(), || "map returned without being asked for".into());
            if cx.failed() {
                return;
            }
            cx.sample(|| format!("{kind} of {} pixels, limit {max}, {} starting clusters: {} colours", px.len(), start.len(), counts.len()));
        }
    });
    r.phase("celebi", r.scaled(1500, 12), |cx| {
        // now and then an image of very many colours, or more clusters than Wu is made for
        let (size, limit) = match cx.index {
            0..=7 => (90_000, 6),
            8..=23 => (12_000, 24),
            24..=47 => (2000, 400),
            _ => (1500, 128),
        };
        let (mut px, kind) = image(&mut cx.rng, size);
        if cx.index < 8 {
            px = (0..size).map(|_| rc::opaque((cx.rng.u() & 0xffffff) as u32)).collect();
        }
        if rq::histogram(&px).is_empty() {
            px.push(gen::argb(&mut cx.rng));
        }
        let max = if (24..48).contains(&cx.index) { cx.rng.int(200, limit) } else { max_colors(&mut cx.rng, limit) };
        cx.case_hash(image_hash(&px, max));
        cx.story(format!("Celebi, {kind}, limit {max}: {}", show(&px)));
        let a = QuantizerCelebi {}.quantize(&px, max, Some(true));
        let (counts, map) = (by_value(&a.color_to_count), by_value(&a.input_pixel_to_cluster_pixel));
        kmeans_invariants(cx, &px, max, &counts, Some(&map));
        let mut start: Vec<i64> = QuantizerWu::new().quantize(&px, max, None).color_to_count.keys().cloned().collect();
        start.sort();
        // Wu's colours seed the clusters in ascending order (or another systematic one).
        let w = rq::wsmeans(&px, max, &start, 5, None);
        if counts == w.counts && map == w.map {
            cx.ok("celebi_result", true, String::new);
        } else {
            let mut rev = start.clone();
            rev.reverse();
            let mut boxes: Vec<i64> = vec![];
            for c in rq::wu(&px, max).colors {
                if !boxes.contains(&c) {
                    boxes.push(c);
                }
            }
            let other = [rev, boxes].iter().any(|s| {
                let v = rq::wsmeans(&px, max, s, 5, None);
                counts == v.counts && map == v.map
            });
            if other || !stable(&px, max, &start, 5, &w) {
                cx.tally("celebi: seeding order or tie, other result");
            } else {
                cx.ok("celebi_result", false, || format!("{} colours {counts:x?}, specified {} {:x?}", counts.len(), w.counts.len(), w.counts));
            }
        }
        let b = QuantizerCelebi {}.quantize(&px, max, None);
        cx.ok("repeat_same", b.color_to_count == a.color_to_count, || "a second call gave another result".into());
        cx.ok("map_only_on_request", b.input_pixel_to_cluster_pixel.is_empty(), || "map returned without being asked for".into());
        let one = gen::argb(&mut cx.rng);
        let n = cx.rng.int(1, 50);
        let s = QuantizerCelebi {}.quantize(&vec![one; n as usize], max, None).color_to_count;
        cx.ok("single_color", by_value(&s) == BTreeMap::from([(one, n)]), || format!("{n} pixels of {one:08x} became {s:x?}"));
        cx.sample(|| format!("{kind} of {} pixels, limit {max}: {} colours", px.len(), counts.len()));
    });
}

fn populations(r: &mut Rng) -> Vec<(i64, i64)> {
    let n = match r.below(6) {
        0 => r.int(1, 3),
        1 => r.int(100, 300),
        _ => r.int(2, 40),
    };
    let style = r.below(7);
    let (h0, spread) = (gen::hue(r), r.pick(&[3.0, 20.0, 60.0, 120.0, 400.0]));
    let mut m: BTreeMap<i64, i64> = BTreeMap::new();
    for _ in 0..n {
        let a = match style {
            0 => rc::argb_from_l(r.range(0.0, 100.0)),
            1 => Hct::from(rc::san(h0 + r.range(-spread, spread)), r.range(0.0, 12.0), r.range(5.0, 95.0)).to_int(),
            2 | 3 => Hct::from(rc::san(h0 + r.range(-spread, spread)), r.range(0.0, 90.0), r.range(5.0, 95.0)).to_int(),
            // hues that round up or down differently, and hues around 0
            4 => Hct::from(rc::san(r.int(-3, 3) as f64 + r.pick(&[0.49, 0.5, 0.51, 0.0, 0.99])), r.range(5.0, 80.0), r.range(20.0, 80.0)).to_int(),
            5 => Hct::from(gen::hue(r), r.pick(&[4.9, 5.0, 5.1, 47.5, 48.0, 48.5]), r.range(20.0, 80.0)).to_int(),
            _ => gen::argb(r),
        };
        let p = match r.below(5) {
            0 => 1,
            1 => r.int(1, 100),
            2 => r.int(1, 1_000_000),
            3 => 100,
            _ => r.int(1, 10),
        };
        m.insert(a, p);
    }
    if r.chance(0.3) {
        m.insert(gen::argb(r), r.pick(&[10_000, 100_000]));
    }
    // populations of huge or added-up images
    let f = if r.chance(0.15) { r.pick(&[1_000, 30_000, 1_000_000]) } else { 1 };
    m.into_iter().map(|(a, p)| (a, p * f)).collect()
}
pub fn c20(r: &Run) {
    r.describe(
        "Colour populations (1 to 300 colours; greys, low chroma, clustered and spread hues, hues around 0/360, populations from 1 to 10^12) x desired counts x fallback x filter. Results are judged against the ranking rules; where a rule is decided by rounding any outcome of it is accepted. A case is a distinct (population, options).",
        &["positive populations, desired at least 1"],
    );
    r.require(&["shape", "fallback", "suitable", "hue_spacing", "ranking", "best_first", "scale_invariant", "repeat_same", "as_many_as_possible"]);
    r.phase("scores", r.scaled(22000, 15), |cx| {
        for _ in 0..4 {
            let pop = populations(&mut cx.rng);
            let desired = if cx.rng.chance(0.4) { None } else { Some(cx.rng.pick(&[1, 2, 3, 4, 5, 6, 8, 12, 24, 100])) };
            let fallback = if cx.rng.chance(0.5) { None } else { Some(gen::argb(&mut cx.rng)) };
            let filter = cx.rng.pick(&[None, Some(true), Some(false)]);
            let map: HashMap<i64, i64> = pop.iter().cloned().collect();
            cx.case_hash(pop.iter().fold(desired.unwrap_or(4) as u64, |a, b| mix(mix(a, b.0 as u64), b.1 as u64)) ^ filter.map_or(0, |f| 1 + f as u64));
            cx.story(format!("score of {} colours {:x?}, desired {desired:?}, fallback {fallback:x?}, filter {filter:?}", pop.len(), &pop[..pop.len().min(12)]));
            let got = Score::score(&map, desired, fallback, filter);
            let (d, f, fl) = (desired.unwrap_or(4), fallback.unwrap_or(0xff4285f4), filter.unwrap_or(true));
            cx.ok("shape", !got.is_empty() && got.len() as i64 <= d, || format!("{got:x?}"));
            // the ranking, with thresholds a hair up and down
            let variants: Vec<Vec<rs::Scored>> = [0.0, 1e-9, -1e-9].iter().map(|e| rs::ranked(&pop, fl, *e)).collect();
            let sure = &variants[1];
            let maybe = &variants[2];
            if maybe.is_empty() {
                cx.ok("fallback", got == vec![f], || format!("{got:x?}, specified the fallback {f:08x}"));
                continue;
            }
            if !sure.is_empty() {
                cx.ok("suitable", got.iter().all(|a| maybe.iter().any(|s| s.x.argb == *a)), || format!("{got:x?} contains a colour that is unsuitable or not in the input"));
            }
            let hs: Vec<f64> = got.iter().map(|a| H::of(*a).h).collect();
            let mut spaced = true;
            for i in 0..hs.len() {
                for j in 0..i {
                    spaced &= rc::diff_deg(hs[i], hs[j]) >= 15.0 - 1e-9;
                }
            }
            cx.ok("hue_spacing", spaced, || format!("{got:x?}: hues {hs:?}"));
            // score ties: order among equals is free
            let mut tie = false;
            for v in &variants {
                tie |= v.windows(2).any(|w| (w[0].score - w[1].score).abs() < 1e-9);
            }
            let mut accepted = vec![];
            for v in &variants {
                for e in [0.0, 1e-9, -1e-9] {
                    accepted.push(if v.is_empty() { vec![f] } else { rs::choose(v, d, e).0 });
                }
            }
            if tie {
                cx.tally("score: tie");
            } else {
                cx.ok("ranking", accepted.contains(&got), || format!("{got:x?}, specified {:x?}", accepted[0]));
                let top: Vec<i64> = variants.iter().filter_map(|v| v.first().map(|s| s.x.argb)).collect();
                cx.ok("best_first", top.contains(&got[0]) || got == vec![f], || format!("first is {:08x}, best {:08x}", got[0], top[0]));
                cx.ok("as_many_as_possible", accepted.iter().any(|a| a.len() == got.len()), || format!("{} colours, {} possible", got.len(), accepted[0].len()));
                let k = cx.rng.int(2, 50);
                let big: HashMap<i64, i64> = pop.iter().map(|(a, n)| (*a, n * k)).collect();
                let g2 = Score::score(&big, desired, fallback, filter);
                cx.ok("scale_invariant", accepted.contains(&g2) && (g2 == got || accepted.iter().any(|a| *a != accepted[0])), || format!("populations times {k}: {g2:x?}, before {got:x?}"));
                let mut again: HashMap<i64, i64> = HashMap::new();
                for (a, n) in pop.iter().rev() {
                    again.insert(*a, *n);
                }
                let g3 = Score::score(&again, desired, fallback, filter);
                cx.ok("repeat_same", g3 == got, || format!("the same map again: {g3:x?}, before {got:x?}"));
            }
            if cx.failed() {
                return;
            }
            cx.sample(|| format!("{} colours, desired {desired:?}: {got:x?}", pop.len()));
        }
    });
    // A hue is common enough when its neighbourhood holds more than 1% of the pixels: a lone
    // colour with exactly 1%, and with one pixel more.
    r.phase("one percent", r.scaled(2000, 15), |cx| {
        for _ in 0..10 {
            let h0 = gen::hue(&mut cx.rng);
            let lone = Hct::from(h0, cx.rng.range(20.0, 80.0), cx.rng.range(30.0, 70.0));
            if lone.get_chroma() < 6.0 {
                continue;
            }
            let k = cx.rng.pick(&[1i64, 2, 3, 7, 10, 64, 1000, 123_457, 90_000_000]);
            let n = cx.rng.int(1, 6);
            let mut m: BTreeMap<i64, i64> = BTreeMap::new();
            for _ in 0..n {
                let x = Hct::from(rc::san(h0 + cx.rng.range(40.0, 320.0)), cx.rng.range(0.0, 90.0), cx.rng.range(10.0, 90.0));
                if rc::diff_deg(x.get_hue(), lone.get_hue()) > 32.0 {
                    m.insert(x.to_int(), 0);
                }
            }
            if m.is_empty() {
                continue;
            }
            let parts = m.len() as i64;
            for (i, v) in m.values_mut().enumerate() {
                *v = 99 * k / parts + if (i as i64) < 99 * k % parts { 1 } else { 0 };
            }
            let extra = cx.rng.pick(&[0i64, 0, 1, -1]);
            m.insert(lone.to_int(), k + extra);
            m.retain(|_, v| *v > 0);
            if !m.contains_key(&lone.to_int()) {
                continue;
            }
            let map: HashMap<i64, i64> = m.iter().map(|(a, b)| (*a, *b)).collect();
            cx.case_hash(m.iter().fold(7, |a, b| mix(mix(a, *b.0 as u64), *b.1 as u64)));
            let got = Score::score(&map, Some(24), Some(0xff000001), Some(true));
            let has = got.contains(&lone.to_int());
            cx.tally(if extra > 0 { "one percent: above" } else if extra == 0 { "one percent: exactly" } else { "one percent: below" });
            // exactly 1% however the share is computed
            let total = map.values().sum::<i64>() as f64;
            if extra == 0 && k as f64 * (1.0 / total) != 0.01 {
                continue;
            }
            cx.ok("suitable", has == (extra > 0), || {
                format!("{:08x} alone in its hue neighbourhood with {} of {} pixels: chosen {has}", lone.to_int(), k + extra, map.values().sum::<i64>())
            });
            if cx.failed() {
                return;
            }
        }
    });
}
