//! Thin, uniform access to the library under observation (public API only).
use material_color_utilities_rs as m;
pub use m::blend::blend::Blend;
pub use m::contrast::contrast::Contrast;
pub use m::dislike::dislike_analyzer::DislikeAnalyzer;
pub use m::dynamiccolor::dynamic_color::DynamicColor;
pub use m::dynamiccolor::dynamic_scheme::DynamicScheme;
pub use m::dynamiccolor::material_dynamic_colors::MaterialDynamicColors as MDC;
pub use m::dynamiccolor::src::contrast_curve::ContrastCurve;
pub use m::dynamiccolor::src::tone_delta_pair::{ToneDeltaPair, TonePolarity};
pub use m::dynamiccolor::variant::Variant;
pub use m::hct::cam16::Cam16;
pub use m::hct::hct::Hct;
pub use m::hct::src::hct_solver::HctSolver;
pub use m::hct::viewing_conditions::ViewingConditions;
pub use m::palettes::core_palette::CorePalette;
pub use m::palettes::tonal_palette::TonalPalette;
pub use m::quantize::quantizer::{Quantizer, QuantizerResult};
pub use m::quantize::quantizer_celebi::QuantizerCelebi;
pub use m::quantize::quantizer_map::QuantizerMap;
pub use m::quantize::quantizer_wsmeans::QuantizerWsmeans;
pub use m::quantize::quantizer_wu::QuantizerWu;
pub use m::scheme::scheme::Scheme;
pub use m::score::score::Score;
pub use m::temperature::temperature_cache::TemperatureCache;
pub use m::utils::color_utils::ColorUtils;
pub use m::utils::math_utils::MathUtils;
pub use m::utils::string_utils::StringUtils;

use crate::refm::cam::{Cam, Vc, H};
use crate::refm::dynamic::{S, V};
use crate::refm::palette::P;

macro_rules! roles {
    ($($g:ident $f:ident),* $(,)?) => {
        pub type Getter = fn(&DynamicScheme) -> i64;
        pub type Maker = fn() -> DynamicColor;
        pub const ROLES: &[(&str, Getter, Maker)] = &[$((stringify!($f), |s| s.$g(), MDC::$f)),*];
    };
}
roles! {
    get_primary_palette_key_color primary_palette_key_color,
    get_secondary_palette_key_color secondary_palette_key_color,
    get_tertiary_palette_key_color tertiary_palette_key_color,
    get_neutral_palette_key_color neutral_palette_key_color,
    get_neutral_variant_palette_key_color neutral_variant_palette_key_color,
    get_background background,
    get_on_background on_background,
    get_surface surface,
    get_surface_dim surface_dim,
    get_surface_bright surface_bright,
    get_surface_container_lowest surface_container_lowest,
    get_surface_container_low surface_container_low,
    get_surface_container surface_container,
    get_surface_container_high surface_container_high,
    get_surface_container_highest surface_container_highest,
    get_on_surface on_surface,
    get_surface_variant surface_variant,
    get_on_surface_variant on_surface_variant,
    get_inverse_surface inverse_surface,
    get_inverse_on_surface inverse_on_surface,
    get_outline outline,
    get_outline_variant outline_variant,
    get_shadow shadow,
    get_scrim scrim,
    get_surface_tint surface_tint,
    get_primary primary,
    get_on_primary on_primary,
    get_primary_container primary_container,
    get_on_primary_container on_primary_container,
    get_inverse_primary inverse_primary,
    get_secondary secondary,
    get_on_secondary on_secondary,
    get_secondary_container secondary_container,
    get_on_secondary_container on_secondary_container,
    get_tertiary tertiary,
    get_on_tertiary on_tertiary,
    get_tertiary_container tertiary_container,
    get_on_tertiary_container on_tertiary_container,
    get_error error,
    get_on_error on_error,
    get_error_container error_container,
    get_on_error_container on_error_container,
    get_primary_fixed primary_fixed,
    get_primary_fixed_dim primary_fixed_dim,
    get_on_primary_fixed on_primary_fixed,
    get_on_primary_fixed_variant on_primary_fixed_variant,
    get_secondary_fixed secondary_fixed,
    get_secondary_fixed_dim secondary_fixed_dim,
    get_on_secondary_fixed on_secondary_fixed,
    get_on_secondary_fixed_variant on_secondary_fixed_variant,
    get_tertiary_fixed tertiary_fixed,
    get_tertiary_fixed_dim tertiary_fixed_dim,
    get_on_tertiary_fixed on_tertiary_fixed,
    get_on_tertiary_fixed_variant on_tertiary_fixed_variant,
}
pub fn maker(name: &str) -> Maker {
    ROLES.iter().find(|r| r.0 == name).unwrap().2
}
pub fn variant(v: V) -> Variant {
    match v {
        V::Monochrome => Variant::Monochrome,
        V::Neutral => Variant::Neutral,
        V::TonalSpot => Variant::TonalSpot,
        V::Vibrant => Variant::Vibrant,
        V::Expressive => Variant::Expressive,
        V::Content => Variant::Content,
        V::Fidelity => Variant::Fidelity,
        V::Rainbow => Variant::Rainbow,
        V::FruitSalad => Variant::FruitSalad,
    }
}
pub fn scheme(v: V, src: Hct, dark: bool, contrast: f64) -> DynamicScheme {
    use m::scheme::*;
    match v {
        V::Monochrome => scheme_monochrome::SchemeMonochrome::new(src, dark, contrast).dynamic_scheme,
        V::Neutral => scheme_neutral::SchemeNeutral::new(src, dark, contrast).dynamic_scheme,
        V::TonalSpot => scheme_tonal_spot::SchemeTonalSpot::new(src, dark, contrast).dynamic_scheme,
        V::Vibrant => scheme_vibrant::SchemeVibrant::new(src, dark, contrast).dynamic_scheme,
        V::Expressive => scheme_expressive::SchemeExpressive::new(src, dark, contrast).dynamic_scheme,
        V::Content => scheme_content::SchemeContent::new(src, dark, contrast).dynamic_scheme,
        V::Fidelity => scheme_fidelity::SchemeFidelity::new(src, dark, contrast).dynamic_scheme,
        V::Rainbow => scheme_rainbow::SchemeRainbow::new(src, dark, contrast).dynamic_scheme,
        V::FruitSalad => scheme_fruit_salad::SchemeFruitSalad::new(src, dark, contrast).dynamic_scheme,
    }
}
pub fn pals(s: &DynamicScheme) -> [&TonalPalette; 6] {
    [
        &s.primary_palette,
        &s.secondary_palette,
        &s.tertiary_palette,
        &s.neutral_palette,
        &s.neutral_variant_palette,
        &s.error_palette,
    ]
}
pub const PAL_NAMES: [&str; 6] = ["primary", "secondary", "tertiary", "neutral", "neutral variant", "error"];
pub fn h(x: &Hct) -> H {
    H { h: x.get_hue(), c: x.get_chroma(), t: x.get_tone(), argb: x.to_int() }
}
/// What the library's palette object says about itself, as a reference palette.
pub fn pal_view(p: &TonalPalette) -> P {
    P { h: p.hue, c: p.chroma, key: h(&p.key_color), list: None }
}
/// The reference view of a library scheme, from its public fields.
pub fn view(s: &DynamicScheme, v: V) -> S {
    S {
        src: h(&s.source_color_hct),
        v,
        dark: s.is_dark,
        contrast: s.contrast_level,
        pal: pals(s).map(pal_view),
    }
}
pub fn vc_view(v: &ViewingConditions) -> Vc {
    Vc {
        wp: [v.white_point[0], v.white_point[1], v.white_point[2]],
        la: v.adapting_luminance,
        bg_l: v.background_lstar,
        surround: v.surround,
        discount: v.discounting_illuminant,
        n: v.background_y_to_white_point_y,
        aw: v.aw,
        nbb: v.nbb,
        ncb: v.ncb,
        c: v.c,
        nc: v.n_c,
        rgb_d: [v.rgb_d[0], v.rgb_d[1], v.rgb_d[2]],
        fl: v.fl,
        fl_root: v.f_lroot,
        z: v.z,
    }
}
pub fn cam_view(c: &Cam16) -> Cam {
    Cam {
        hue: c.hue,
        chroma: c.chroma,
        j: c.j,
        q: c.q,
        m: c.m,
        s: c.s,
        jstar: c.jstar,
        astar: c.astar,
        bstar: c.bstar,
    }
}
