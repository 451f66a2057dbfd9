use crate::rt::Run;
mod basic;
mod dynamic;
pub mod global;
mod hct;
mod palettes;
mod quant;
mod temp;

pub type Prop = fn(&Run);
pub const ALL: &[(&str, Prop)] = &[
    ("C01", hct::c01),
    ("C02", hct::c02),
    ("C03", hct::c03),
    ("C04", hct::c04),
    ("C05", basic::c05),
    ("C06", basic::c06),
    ("C07", basic::c07),
    ("C08", basic::c08),
    ("C09", dynamic::c09),
    ("C10", dynamic::c10),
    ("C11", dynamic::c11),
    ("C12", dynamic::c12),
    ("C13", palettes::c13),
    ("C14", palettes::c14),
    ("C15", palettes::c15),
    ("C16", dynamic::c16),
    ("C17", palettes::c17),
    ("C18", quant::c18),
    ("C19", quant::c19),
    ("C20", quant::c20),
    ("C21", temp::c21),
    ("C22", temp::c22),
    ("C23", temp::c23),
    ("C24", global::c24),
    ("C25", global::c25),
    ("C26", hct::c26),
    ("C27", dynamic::c27),
];
