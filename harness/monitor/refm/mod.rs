//! Independent executable specification of the library, written without using
//! any of its code. The monitors compare what the library does with what this
//! model says.
pub mod cam;
pub mod color;
pub mod dynamic;
pub mod palette;
pub mod quant;
pub mod schemes;
pub mod score;
pub mod solver;
pub mod temp;
