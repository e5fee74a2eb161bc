//! Workloads on the sphere (radians).
use crate::cgen::{Frame, Places};
use crate::num::Num;
use crate::rng::Rng;
use crate::shape::*;
use std::f64::consts::PI;

/// Root bounds within one turn of longitude, and the window of that turn.
pub struct SFrame {
    pub f: Frame,
    pub win: (f64, f64),
}

pub fn sframe<T: Num>(r: &mut Rng) -> SFrame {
    let h = PI / 2.0;
    let (lo, hi, name, win): (P, P, &'static str, (f64, f64)) = match r.below(12) {
        0 | 1 => ([-PI, -h], [PI, h], "globe", (-PI, PI)),
        2 => ([0.0, -h], [2.0 * PI, h], "globe-0-360", (0.0, 2.0 * PI)),
        3 => {
            let w = r.uniform(0.05, 2.5);
            ([PI - w, -r.uniform(0.1, h)], [PI, r.uniform(0.1, h)], "west-of-antimeridian", (-PI, PI))
        }
        4 => {
            let w = r.uniform(0.05, 2.5);
            ([-PI, -r.uniform(0.1, h)], [-PI + w, r.uniform(0.1, h)], "east-of-antimeridian", (-PI, PI))
        }
        5 => ([-PI, r.uniform(0.3, 1.5)], [PI, h], "north-cap", (-PI, PI)),
        6 => ([-PI, -h], [PI, -r.uniform(0.3, 1.5)], "south-cap", (-PI, PI)),
        7 => {
            let a = r.uniform(-PI, 2.0);
            ([a, r.uniform(0.5, 1.4)], [a + r.uniform(0.05, 1.1), h], "polar-sector", (-PI, PI))
        }
        8 => {
            // across the antimeridian, in a 0..2 pi window
            let (a, b) = (PI - r.uniform(0.05, 2.0), PI + r.uniform(0.05, 2.0));
            let y = r.uniform(-1.4, 0.8);
            ([a, y], [b, y + r.uniform(0.1, 0.7)], "across-antimeridian", (0.0, 2.0 * PI))
        }
        9 => {
            let (x, y) = (r.uniform(-PI, 3.0), r.uniform(-h, 1.4));
            let w = 10f64.powf(r.uniform(-5.0, -1.0));
            ([x, y], [x + w, y + w], "local", (-PI, PI))
        }
        10 => {
            // one hemisphere
            let x = r.uniform(-PI, 0.0);
            ([x, -h], [x + PI, h], "hemisphere", (-PI, PI))
        }
        _ => {
            let (a, b) = (r.uniform(-PI, PI), r.uniform(-PI, PI));
            let (c, d) = (r.uniform(-h, h), r.uniform(-h, h));
            ([a.min(b), c.min(d)], [a.max(b), c.max(d)], "random", (-PI, PI))
        }
    };
    let lo = lo.map(|v| T::of(v).f());
    let hi = hi.map(|v| T::of(v).f());
    SFrame {
        f: Frame {
            lo,
            hi,
            exact: false,
            int: false,
            bits: 0,
            max_depth: 255,
            name,
        },
        win: (T::of(win.0).f(), T::of(win.1).f()),
    }
}

/// A rectangle that (usually) meets the frame and may stick out of it, within
/// the window and the poles.
pub fn srect<T: Num>(r: &mut Rng, s: &SFrame, pl: &mut Places) -> Shape {
    let q = pl.inside::<T>(r);
    if r.chance(1, 2) {
        let p = pl.inside::<T>(r);
        return Shape::Rc(
            [q[0].min(p[0]), q[1].min(p[1])],
            [q[0].max(p[0]), q[1].max(p[1])],
        );
    }
    let h = T::of(PI / 2.0).f();
    let m = *r.pick(&[0.01, 0.3, 1.0, 3.0]);
    let mut lo = [q[0] - m * r.unit(), q[1] - m * r.unit()];
    let mut hi = [q[0] + m * r.unit(), q[1] + m * r.unit()];
    if r.chance(1, 6) {
        lo = q;
        hi = q;
    }
    for (k, (a, b)) in [s.win, (-h, h)].into_iter().enumerate() {
        lo[k] = T::of(lo[k].clamp(a, b)).f();
        hi[k] = T::of(hi[k].clamp(a, b)).f();
    }
    Shape::Rc(lo, hi)
}
