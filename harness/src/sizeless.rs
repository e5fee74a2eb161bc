//! Data without size: no datum differs from another in its address, contents,
//! or place, and yet each counts.
use crate::cgen::*;
use crate::rng::Rng;
use crate::runner::{Ctx, Fail, Res, lib};
use crate::scene::which;
use crate::shape::*;
use crate::ensure;
use crate::item::Which;
use quadtree::{AsGeom, AsPoint, BoundsQuadTree, CalcMethod, Geometry, GeometryRef, PointQuadTree, QuadTree, QuadTreeSearch};
use std::cell::Cell;

thread_local! {
    static PLACE: Cell<Option<&'static Geometry<f64>>> = const { Cell::new(None) };
}
struct Nowhere;
impl AsGeom<f64> for Nowhere {
    fn as_geom(&self) -> GeometryRef<'_, f64> {
        PLACE.with(|p| p.get()).unwrap().as_geom()
    }
}
impl AsPoint<f64> for Nowhere {
    fn as_point(&self) -> geo::Point<f64> {
        match PLACE.with(|p| p.get()) {
            Some(Geometry::Point(p)) => *p,
            _ => geo::Point::new(0.0, 0.0),
        }
    }
}

/// What to count.
#[derive(Clone, Copy, PartialEq)]
pub enum Ask {
    Iterate,
    Retrieve,
    Find,
    Knn,
    Sorted,
}

pub fn sizeless(ctx: &mut Ctx, ask: Ask) -> Res {
    let f = any_frame::<f64>(&mut ctx.rng, true);
    let w = match ask {
        Ask::Retrieve => Which::Point,
        _ => which(&mut ctx.rng),
    };
    let c = cfg(&mut ctx.rng, if ctx.small { 6 } else { 30 });
    let n = 1 + ctx.rng.below(if ctx.small { 12 } else { 300 });
    let mut pl = Places::new(&mut ctx.rng, &f);
    let k = if w == Which::Point { Kind::Pt } else { kind(&mut ctx.rng) };
    let s = pl.shape::<f64>(&mut ctx.rng, k);
    let m = CalcMethod::Euclidean;
    ctx.desc = format!("{w:?} tree of {n} data without size, all {}, frame {f:?}, {c:?}", s.show());
    // (borrowed by something without size; given back at the end)
    let here: *mut _ = Box::into_raw(Box::new(s.geometry::<f64>()));
    let place: &'static Geometry<f64> = unsafe { &*here };
    PLACE.with(|p| p.set(Some(place)));
    let held = match w {
        Which::Point => count::<PointQuadTree<Nowhere, f64>>(&mut ctx.rng, PointQuadTree::new(f.rect(), m, c.depth, c.children), place, n, ask),
        Which::Bounds => count::<BoundsQuadTree<Nowhere, f64>>(&mut ctx.rng, BoundsQuadTree::new(f.rect(), m, c.depth, c.children), place, n, ask),
    };
    PLACE.with(|p| p.set(None));
    drop(unsafe { Box::from_raw(here) });
    held.map_err(|e| Fail(format!("{}; {}", e.0, ctx.desc)))?;
    ctx.count("trees_of_sizeless_data", 1);
    ctx.see(n as u64);
    ctx.nontrivial = n > 1;
    Ok(())
}

fn count<Q>(r: &mut Rng, mut t: Q, g: &Geometry<f64>, n: usize, ask: Ask) -> Res
where
    Q: QuadTree<Nowhere, f64> + QuadTreeSearch<Nowhere, f64>,
    for<'a> &'a Q: IntoIterator<Item = &'a Nowhere>,
{
    for i in 0..n {
        let ok = lib(|| t.insert(Nowhere)).is_ok();
        ensure!(ok && t.size() == i + 1, "insert {i}: {ok}, size {}", t.size());
    }
    match ask {
        Ask::Iterate => {
            let got = lib(|| (&t).into_iter().count());
            ensure!(got == n, "iteration yields {got} of {n} data without size");
        }
        Ask::Retrieve => {
            let got = lib(|| t.retrieve(&Nowhere).count());
            ensure!(got == n, "retrieve yields {got} of {n} data without size, all there");
        }
        Ask::Find => {
            let got = lib(|| (t.find(g).is_ok(), t.find_r(g, f64::INFINITY).is_ok()));
            ensure!(got == (true, true), "find and find_r gave {got:?} among {n} data without size, all there");
        }
        Ask::Knn => {
            for k in [n + 3, n, n / 2, r.below(n + 1), usize::MAX] {
                let got = lib(|| (t.knn(g, k).map(|v| v.len()), t.knn_r(g, k, f64::INFINITY).map(|v| v.len())));
                let want = k.min(n);
                ensure!(got == (Ok(want), Ok(want)), "knn and knn_r for k = {k} gave {got:?} of {n} data without size, all there");
            }
        }
        Ask::Sorted => {
            let got = lib(|| t.sorted(g).count());
            ensure!(got == n, "sorted yields {got} of {n} data without size");
        }
    }
    Ok(())
}
