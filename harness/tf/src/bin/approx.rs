//! Driver: approximate and exact comparison of every comparable type (C25).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use common::*;

/// how the parameters of a type are drawn
#[derive(Clone, Copy, PartialEq)]
enum Par {
    Free,
    /// components are quadratic in the first four parameters
    Quad,
    /// a frustum or box
    Frustum,
}

/// every other time true: both spellings of a conversion are taken
fn alt() -> bool {
    use core::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    N.fetch_add(1, Ordering::Relaxed) % 3 == 0
}

mod d {
    use super::*;
    type S = f64;
    type U = u64;
    const SN: &str = "f64";
    include!("../approx_body.rs");
}
mod s {
    use super::*;
    type S = f32;
    type U = u32;
    const SN: &str = "f32";
    include!("../approx_body.rs");
}

fn main() {
    drive(&[("C25", |rec| {
        for _ in 0..rec.iters(50, 1200) {
            d::all(rec);
            s::all(rec);
        }
    })]);
}
