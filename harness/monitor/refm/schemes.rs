//! The nine scheme variants and the two legacy schemes.
use super::cam::H;
use super::color::*;
use super::dynamic::*;
use super::palette::*;
use super::temp::T;

const EXP_H: [f64; 9] = [0.0, 21.0, 51.0, 121.0, 151.0, 191.0, 271.0, 321.0, 360.0];
const EXP_S: [f64; 9] = [45.0, 95.0, 45.0, 20.0, 45.0, 90.0, 45.0, 45.0, 45.0];
const EXP_T: [f64; 9] = [120.0, 120.0, 20.0, 45.0, 20.0, 15.0, 20.0, 120.0, 120.0];
const VIB_H: [f64; 9] = [0.0, 41.0, 61.0, 101.0, 131.0, 181.0, 251.0, 301.0, 360.0];
const VIB_S: [f64; 9] = [18.0, 15.0, 10.0, 12.0, 15.0, 18.0, 15.0, 12.0, 12.0];
const VIB_T: [f64; 9] = [35.0, 30.0, 20.0, 25.0, 30.0, 35.0, 30.0, 25.0, 25.0];

/// Hue rotated by the amount that belongs to its slice of the wheel.
pub fn rotated(h: f64, hues: &[f64], rot: &[f64]) -> f64 {
    if rot.len() == 1 {
        return san(h + rot[0]);
    }
    for i in 0..hues.len() - 1 {
        if hues[i] < h && h < hues[i + 1] {
            return san(h + rot[i]);
        }
    }
    h
}
/// Palettes as (hue, chroma), tertiary of the content variants as a colour.
pub enum Pal {
    Hc(f64, f64),
    Color(H),
}
pub fn palettes(v: V, src: &H) -> [Pal; 5] {
    use Pal::*;
    let (h, c) = (src.h, src.c);
    match v {
        V::Monochrome => [Hc(h, 0.0), Hc(h, 0.0), Hc(h, 0.0), Hc(h, 0.0), Hc(h, 0.0)],
        V::Neutral => [Hc(h, 12.0), Hc(h, 8.0), Hc(h, 16.0), Hc(h, 2.0), Hc(h, 2.0)],
        V::TonalSpot => [Hc(h, 36.0), Hc(h, 16.0), Hc(san(h + 60.0), 24.0), Hc(h, 6.0), Hc(h, 8.0)],
        V::Vibrant => [
            Hc(h, 200.0),
            Hc(rotated(h, &VIB_H, &VIB_S), 24.0),
            Hc(rotated(h, &VIB_H, &VIB_T), 32.0),
            Hc(h, 10.0),
            Hc(h, 12.0),
        ],
        V::Expressive => [
            Hc(san(h + 240.0), 40.0),
            Hc(rotated(h, &EXP_H, &EXP_S), 24.0),
            Hc(rotated(h, &EXP_H, &EXP_T), 32.0),
            Hc(h + 15.0, 8.0),
            Hc(h + 15.0, 12.0),
        ],
        V::Rainbow => [Hc(h, 48.0), Hc(h, 16.0), Hc(san(h + 60.0), 24.0), Hc(h, 0.0), Hc(h, 0.0)],
        V::FruitSalad => [Hc(san(h - 50.0), 48.0), Hc(san(h - 50.0), 36.0), Hc(h, 36.0), Hc(h, 10.0), Hc(h, 16.0)],
        V::Content | V::Fidelity => {
            let t = T::new(*src);
            let third = if v == V::Content {
                *t.analogous(3, 6).last().unwrap()
            } else {
                t.complement().0
            };
            [
                Hc(h, c),
                Hc(h, (c - 32.0).max(c * 0.5)),
                Color(fix_disliked(&third)),
                Hc(h, c / 8.0),
                Hc(h, c / 8.0 + 4.0),
            ]
        }
    }
}
pub fn scheme(v: V, src: &H, dark: bool, contrast: f64) -> S {
    let [a, b, c, d, e] = palettes(v, src).map(|p| match p {
        Pal::Hc(h, c) => P::of(h, c),
        Pal::Color(x) => P::from_h(x),
    });
    S { src: *src, v, dark, contrast, pal: [a, b, c, d, e, error_palette().clone()] }
}
pub fn error_palette() -> &'static P {
    use std::sync::OnceLock;
    static E: OnceLock<P> = OnceLock::new();
    E.get_or_init(|| P::of(25.0, 84.0))
}
/// (field, palette index, light tone, dark tone) of the legacy scheme.
pub const LEGACY: [(&str, usize, i64, i64); 29] = [
    ("primary", 0, 40, 80),
    ("on_primary", 0, 100, 20),
    ("primary_container", 0, 90, 30),
    ("on_primary_container", 0, 10, 90),
    ("secondary", 1, 40, 80),
    ("on_secondary", 1, 100, 20),
    ("secondary_container", 1, 90, 30),
    ("on_secondary_container", 1, 10, 90),
    ("tertiary", 2, 40, 80),
    ("on_tertiary", 2, 100, 20),
    ("tertiary_container", 2, 90, 30),
    ("on_tertiary_container", 2, 10, 90),
    ("error", 5, 40, 80),
    ("on_error", 5, 100, 20),
    ("error_container", 5, 90, 30),
    ("on_error_container", 5, 10, 80),
    ("background", 3, 99, 10),
    ("on_background", 3, 10, 90),
    ("surface", 3, 99, 10),
    ("on_surface", 3, 10, 90),
    ("surface_variant", 4, 90, 30),
    ("on_surface_variant", 4, 30, 80),
    ("outline", 4, 50, 60),
    ("outline_variant", 4, 80, 30),
    ("shadow", 3, 0, 0),
    ("scrim", 3, 0, 0),
    ("inverse_surface", 3, 20, 90),
    ("inverse_on_surface", 3, 95, 20),
    ("inverse_primary", 0, 80, 40),
];
