//! C16: to_radians scales every coordinate by pi/180, copied or in place.
use geo::{Coord, Line, LineString, Point, Polygon, Rect};
use qtmon::*;
use quadtree::{Geometry, ToRadians};
use std::f64::consts::PI;

/// Every coordinate as stored, ring by ring.
type Coords<T> = Vec<Vec<Coord<T>>>;

trait Parts<T: Num> {
    const KIND: &'static str;
    fn parts(&self) -> Coords<T>;
    fn kind(&self) -> &'static str {
        Self::KIND
    }
}
impl<T: Num> Parts<T> for Point<T> {
    const KIND: &'static str = "Point";
    fn parts(&self) -> Coords<T> {
        vec![vec![self.0]]
    }
}
impl<T: Num> Parts<T> for Line<T> {
    const KIND: &'static str = "Line";
    fn parts(&self) -> Coords<T> {
        vec![vec![self.start, self.end]]
    }
}
impl<T: Num> Parts<T> for LineString<T> {
    const KIND: &'static str = "LineString";
    fn parts(&self) -> Coords<T> {
        vec![self.0.clone()]
    }
}
impl<T: Num> Parts<T> for Polygon<T> {
    const KIND: &'static str = "Polygon";
    fn parts(&self) -> Coords<T> {
        let mut v = vec![self.exterior().0.clone()];
        v.extend(self.interiors().iter().map(|r| r.0.clone()));
        v
    }
}
impl<T: Num> Parts<T> for Rect<T> {
    const KIND: &'static str = "Rect";
    fn parts(&self) -> Coords<T> {
        vec![vec![self.min(), self.max()]]
    }
}
impl<T: Num> Parts<T> for Geometry<T> {
    const KIND: &'static str = "Geometry";
    fn parts(&self) -> Coords<T> {
        match self {
            Geometry::Point(g) => g.parts(),
            Geometry::Line(g) => g.parts(),
            Geometry::LineString(g) => g.parts(),
            Geometry::Polygon(g) => g.parts(),
            Geometry::Rect(g) => g.parts(),
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            Geometry::Point(_) => "Point",
            Geometry::Line(_) => "Line",
            Geometry::LineString(_) => "LineString",
            Geometry::Polygon(_) => "Polygon",
            Geometry::Rect(_) => "Rect",
        }
    }
}

fn scaled<T: Num>(from: T, to: T) -> bool {
    let want = from.f() * (PI / 180.0);
    let tiny = if T::NAME == "f32" { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    (to.f() - want).abs() <= want.abs() * 4.0 * T::EPS + 2.0 * tiny * T::EPS
}

fn compare<T: Num>(before: &Coords<T>, after: &Coords<T>, what: &str) -> Result<u64, Fail> {
    ensure!(
        before.len() == after.len(),
        "{what}: {} rings became {}",
        before.len(),
        after.len()
    );
    let mut n = 0;
    for (i, (b, a)) in before.iter().zip(after).enumerate() {
        ensure!(b.len() == a.len(), "{what}: ring {i} of {} coordinates became one of {}", b.len(), a.len());
        for (j, (b, a)) in b.iter().zip(a).enumerate() {
            ensure!(
                scaled(b.x, a.x) && scaled(b.y, a.y),
                "{what}: coordinate {j} of ring {i}, {b:?} degrees, became {a:?}"
            );
            n += 2;
        }
    }
    Ok(n)
}

fn one<T: Flt, G>(ctx: &mut Ctx, g: &G) -> Result<G, Fail>
where
    G: ToRadians<T> + Parts<T> + Clone + std::fmt::Debug,
{
    let before = g.parts();
    let keep = g.clone();
    let r = lib(|| g.to_radians());
    ensure!(g.kind() == keep.kind() && g.parts() == before, "{}.to_radians changed the original {keep:?} to {g:?}", G::KIND);
    let n = compare(&before, &r.parts(), &format!("{} {}.to_radians of {keep:?}", T::NAME, G::KIND))?;
    let mut h = g.clone();
    lib(|| h.to_radians_in_place());
    compare(&before, &h.parts(), &format!("{} {}.to_radians_in_place of {keep:?}", T::NAME, G::KIND))?;
    ensure!(
        h.kind() == g.kind() && r.kind() == g.kind() && h.parts() == r.parts(),
        "{}: {keep:?} in place became {h:?}, copied {r:?}",
        G::KIND
    );
    ctx.count("conversions_compared", 2);
    ctx.count("coordinates_compared", 2 * n);
    for c in r.parts().iter().flatten().take(8) {
        ctx.see_f(c.x.f());
        ctx.see_f(c.y.f());
    }
    ctx.nontrivial |= n > 2;
    Ok(r)
}

fn value<T: Flt>(r: &mut Rng) -> f64 {
    if r.chance(1, 40) {
        // anything finite, subnormal numbers and the ends of the range included
        let sign = if r.chance(1, 2) { 1.0 } else { -1.0 };
        return sign
            * if T::NAME == "f32" {
                let top = *r.pick(&[f32::MAX, f32::MIN_POSITIVE, f32::MIN_POSITIVE * 180.0]);
                f32::from_bits(r.below(top.to_bits() as usize + 1) as u32) as f64
            } else {
                let top = *r.pick(&[f64::MAX, f64::MIN_POSITIVE, f64::MIN_POSITIVE * 180.0]);
                f64::from_bits(r.below(top.to_bits() as usize + 1) as u64)
            };
    }
    T::of(match r.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => *r.pick(&[180.0, -180.0, 90.0, -90.0, 360.0, 45.0, 57.29577951308232, 1.0, -1.0]),
        3 => 10f64.powf(r.uniform(-30.0, 30.0)) * if r.chance(1, 2) { 1.0 } else { -1.0 },
        4 => T::up(180.0),
        5 => T::down(-90.0),
        _ => r.uniform(-360.0, 360.0),
    })
    .f()
}

fn shape<T: Flt>(r: &mut Rng) -> Shape {
    let p = |r: &mut Rng| [value::<T>(r), value::<T>(r)];
    match r.below(6) {
        0 => Shape::Pt(p(r)),
        1 => {
            let a = p(r);
            Shape::Ln(a, if r.chance(1, 8) { a } else { p(r) })
        }
        2 => {
            let n = if r.chance(1, 60) { r.below(300) } else { *r.pick(&[0, 1, 2, 3, 5, 8, 40]) };
            Shape::Ls((0..n).map(|_| p(r)).collect())
        }
        3 => {
            let a = p(r);
            Shape::Rc(a, if r.chance(1, 8) { a } else { p(r) }).map(&mut |v| v)
        }
        4 => {
            // any rings at all: conversion must not care about validity
            let ring = |r: &mut Rng| (0..*r.pick(&[0usize, 1, 3, 4, 9])).map(|_| p(r)).collect::<Vec<_>>();
            let e = ring(r);
            let n = if r.chance(1, 60) { 40 } else { 4 };
            let h = (0..r.below(n)).map(|_| ring(r)).collect();
            Shape::Pg(e, h)
        }
        _ => {
            let a = [r.uniform(-180.0, 0.0), r.uniform(-90.0, 0.0)];
            let b = [r.uniform(0.1, 180.0), r.uniform(0.1, 90.0)];
            polygon_in(r, a, b).round::<T>()
        }
    }
}

fn run<T: Flt>(ctx: &mut Ctx) -> Res {
    for _ in 0..8 {
        let s = shape::<T>(&mut ctx.rng);
        if ctx.want_desc {
            ctx.desc = format!("{} {}", T::NAME, s.show());
        }
        let bare = match &s {
            Shape::Pt(p) => Geometry::Point(one::<T, _>(ctx, &point::<T>(*p))?),
            Shape::Ln(..) => Geometry::Line(one::<T, _>(ctx, &s.line::<T>())?),
            Shape::Ls(..) => Geometry::LineString(one::<T, _>(ctx, &s.linestring::<T>())?),
            Shape::Pg(..) => Geometry::Polygon(one::<T, _>(ctx, &s.polygon::<T>())?),
            Shape::Rc(a, b) => Geometry::Rect(one::<T, _>(ctx, &rect::<T>(*a, *b))?),
        };
        let owned = one::<T, _>(ctx, &s.geometry::<T>())?;
        ensure!(owned.kind() == bare.kind() && owned.parts() == bare.parts(), "{} converted as Geometry is {owned:?}, bare {bare:?}", s.show());
        // containment in a rectangle survives
        if let Shape::Rc(lo, hi) = &s {
            let Geometry::Rect(rr) = &bare else { fail!("a rectangle became {bare:?}") };
            for _ in 0..6 {
                let q = [0, 1].map(|k| {
                    T::of(match ctx.rng.below(6) {
                        0 => lo[k],
                        1 => hi[k],
                        2 => T::down(lo[k]),
                        3 => T::up(hi[k]),
                        _ => lo[k] + (hi[k] - lo[k]) * (ctx.rng.unit() * 1.5 - 0.25),
                    })
                    .f()
                });
                if !(q[0].is_finite() && q[1].is_finite()) {
                    continue;
                }
                let p = point::<T>(q);
                let pr = lib(|| p.to_radians());
                for k in 0..2 {
                    let at = |v: Coord<T>| if k == 0 { v.x } else { v.y };
                    // monotone: never swaps an order (it may round it away)
                    let (v, l, h) = (at(pr.0), at(rr.min()), at(rr.max()));
                    ensure!(
                        (q[k] < lo[k] || v >= l) && (q[k] > lo[k] || v <= l) && (q[k] > hi[k] || v <= h) && (q[k] < hi[k] || v >= h),
                        "{q:?} against {} in degrees, {pr:?} against {rr:?} in radians",
                        s.show()
                    );
                }
                ctx.count("containments_compared", 1);
            }
        }
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    any_flt!(ctx, run)
}

fn main() {
    runner::main("C16", case)
}
