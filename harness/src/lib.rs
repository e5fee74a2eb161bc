//! Runtime monitors for the quadtree crate: workload generators, independent
//! oracles, and the runner that watches executions of the real code.
#![allow(clippy::type_complexity)]
pub mod cgen;
pub mod item;
pub mod iterate;
pub mod model;
pub mod num;
pub mod rng;
pub mod routes;
pub mod runner;
pub mod scene;
pub mod search;
pub mod shape;
pub mod sizeless;
pub mod sphere;

pub use cgen::*;
pub use item::*;
pub use iterate::consume;
pub use num::*;
pub use rng::Rng;
pub use scene::*;
pub use runner::{Ctx, Fail, Res, lib};
pub use shape::*;
pub use sizeless::{Ask, sizeless};

/// Run a generic case with a randomly chosen numeric type.
#[macro_export]
macro_rules! any_num {
    ($ctx:expr, $f:ident) => {
        match $ctx.rng.below(12) {
            0 => $f::<i16>($ctx),
            1 => $f::<i32>($ctx),
            2 => {
                $crate::num::far(&mut $ctx.rng, i64::MIN as i128, i64::MAX as i128);
                $f::<i64>($ctx)
            }
            3 => {
                $crate::num::far(&mut $ctx.rng, i128::MIN as i128, i128::MAX as i128);
                $f::<i128>($ctx)
            }
            4 => {
                $crate::num::far(&mut $ctx.rng, isize::MIN as i128, isize::MAX as i128);
                $f::<isize>($ctx)
            }
            5 | 6 | 7 => $f::<f32>($ctx),
            _ => $f::<f64>($ctx),
        }
    };
}
#[macro_export]
macro_rules! any_flt {
    ($ctx:expr, $f:ident) => {
        match $ctx.rng.below(3) {
            0 => $f::<f32>($ctx),
            _ => $f::<f64>($ctx),
        }
    };
}
