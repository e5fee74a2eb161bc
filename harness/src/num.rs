//! The numeric types the library is run with.
use geo::GeoNum;
use quadtree::QtFloat;
use std::cell::Cell;
use crate::rng::Rng;
use std::fmt::{Debug, Display};

pub trait Num: GeoNum + Debug + Display + Send + Sync + 'static {
    const NAME: &'static str;
    /// Unit round-off (0 for integers).
    const EPS: f64;
    const INT: bool;
    /// Round a value to this type.
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    /// Neighbouring representable values, as f64.
    fn up(v: f64) -> f64;
    fn down(v: f64) -> f64;
}

thread_local! {
    /// The wide integers lie this far from what the harness calls them, so
    /// that they need all of their digits although the harness computes in
    /// f64. Set per case, for whole trees.
    static FAR: Cell<i128> = const { Cell::new(0) };
}

/// Back to where the harness says, as before every case.
pub fn reset_far() {
    FAR.with(|c| c.set(0));
}

pub fn offset() -> i128 {
    FAR.with(|c| c.get())
}

/// Maybe move all coordinates, so that [-2^50, 2^50] stays within the type
/// and, in part, touches its limits.
pub fn far(r: &mut Rng, least: i128, most: i128) {
    let room = 1i128 << 50;
    FAR.with(|c| {
        c.set(match r.below(6) {
            0 => most - room,
            1 => least + room,
            2 => {
                let v = (((r.next() as u128) << 64) | r.next() as u128) as i128;
                (v >> r.below(70)).clamp(least + room, most - room)
            }
            3 => (((1u64 << 53) + r.next() % 1000) as i128 * if r.chance(1, 2) { 1 } else { -1 }).clamp(least + room, most - room),
            _ => 0,
        })
    });
}

macro_rules! narrow {
    ($($t:ident),*) => { $(impl Num for $t {
        const NAME: &'static str = stringify!($t);
        const EPS: f64 = 0.0;
        const INT: bool = true;
        fn of(v: f64) -> Self { v.round() as $t }
        fn f(self) -> f64 { self as f64 }
        fn up(v: f64) -> f64 { v + 1.0 }
        fn down(v: f64) -> f64 { v - 1.0 }
    })* };
}
narrow!(i16, i32);

macro_rules! wide {
    ($($t:ident),*) => { $(impl Num for $t {
        const NAME: &'static str = stringify!($t);
        const EPS: f64 = 0.0;
        const INT: bool = true;
        fn of(v: f64) -> Self { (v.round() as i128).saturating_add(offset()).clamp($t::MIN as i128, $t::MAX as i128) as $t }
        fn f(self) -> f64 { (self as i128).saturating_sub(offset()) as f64 }
        fn up(v: f64) -> f64 { v + 1.0 }
        fn down(v: f64) -> f64 { v - 1.0 }
    })* };
}
wide!(i64, i128, isize);

impl Num for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = 1.1920929e-7;
    const INT: bool = false;
    fn of(v: f64) -> Self {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn up(v: f64) -> f64 {
        (v as f32).next_up() as f64
    }
    fn down(v: f64) -> f64 {
        (v as f32).next_down() as f64
    }
}
impl Num for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = 2.220446049250313e-16;
    const INT: bool = false;
    fn of(v: f64) -> Self {
        v
    }
    fn f(self) -> f64 {
        self
    }
    fn up(v: f64) -> f64 {
        v.next_up()
    }
    fn down(v: f64) -> f64 {
        v.next_down()
    }
}

pub trait Flt: Num + QtFloat {}
impl Flt for f32 {}
impl Flt for f64 {}
