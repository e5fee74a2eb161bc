//! A tree with a known history.
use crate::cgen::*;
use crate::item::*;
use crate::num::Num;
use crate::rng::Rng;
use crate::runner::Ctx;
use crate::shape::*;
use crate::{Res, ensure};
use quadtree::{CalcMethod, Error};

pub struct Scene<T: Num> {
    pub f: Frame,
    pub c: Cfg,
    pub which: Which,
    pub tree: Tree<T>,
    /// accepted data
    pub data: Vec<(u32, Shape)>,
    pub next: u32,
}

impl<T: Num> Scene<T> {
    pub fn new(f: Frame, c: Cfg, which: Which, m: CalcMethod) -> Self {
        Scene {
            tree: Tree::new(which, &f, m, c),
            f,
            c,
            which,
            data: vec![],
            next: 0,
        }
    }
    /// Insert a datum known to lie inside the bounds.
    pub fn add(&mut self, s: Shape) -> Res {
        let id = self.next;
        self.next += 1;
        let r = self.tree.insert(Item::new(id, &s));
        ensure!(r.is_ok(), "insert of {} into {:?} refused: {r:?}", s.show(), self.f);
        self.data.push((id, s));
        Ok(())
    }
    /// Offer a datum known to lie outside.
    pub fn offer_outside(&mut self, s: Shape) -> Res {
        let r = self.tree.insert(Item::new(u32::MAX, &s));
        ensure!(
            r == Err(Error::OutOfBounds),
            "insert of {} outside {:?} gave {r:?}",
            s.show(),
            self.f
        );
        Ok(())
    }
    pub fn describe(&self) -> String {
        let mut s = format!(
            "{} {:?} tree, frame {} {:?}..{:?}, cfg {:?}, {} data: ",
            T::NAME,
            self.which,
            self.f.name,
            self.f.lo,
            self.f.hi,
            self.c,
            self.data.len()
        );
        for (i, d) in self.data.iter().take(24) {
            s += &format!("{i}:{} ", d.show());
        }
        s
    }
}

/// Kinds of data for a tree.
pub fn datum_kinds(r: &mut Rng, which: Which) -> Vec<Kind> {
    if which == Which::Point {
        return vec![Kind::Pt];
    }
    match r.below(5) {
        0 => vec![Kind::Rc],
        1 => vec![*r.pick(&KINDS)],
        2 => vec![Kind::Pt, Kind::Rc],
        _ => KINDS.to_vec(),
    }
}

pub fn which(r: &mut Rng) -> Which {
    if r.chance(1, 2) { Which::Point } else { Which::Bounds }
}

/// A scene filled with `n` data and some refused ones in between.
pub fn fill<T: Num>(ctx: &mut Ctx, s: &mut Scene<T>, pl: &mut Places, kinds: &[Kind], n: usize) -> Res {
    let noisy = ctx.rng.chance(1, 4);
    for _ in 0..n {
        let k = *ctx.rng.pick(kinds);
        let sh = pl.shape::<T>(&mut ctx.rng, k);
        s.add(sh)?;
        if noisy && ctx.rng.chance(1, 6) {
            let p = pl.outside::<T>(&mut ctx.rng);
            s.offer_outside(Shape::Pt(p))?;
        }
    }
    Ok(())
}

/// A comparator, mostly one that meets the frame. (Floating-point frames.)
pub fn comparator<T: Num>(r: &mut Rng, pl: &mut Places, data: &[(u32, Shape)]) -> Shape {
    let k = if r.chance(2, 5) { Kind::Pt } else { *r.pick(&KINDS) };
    match r.below(12) {
        0 if !data.is_empty() => r.pick(data).1.clone(),
        1 | 2 => {
            let mut o = Places::new(r, &wider(&pl.f));
            o.shape::<T>(r, k)
        }
        3 if k == Kind::Pg || k == Kind::Rc => {
            let w = wider(&pl.f);
            if k == Kind::Rc {
                Shape::Rc(w.lo, w.hi)
            } else {
                let s = poly_box(r, w.lo, w.hi, true);
                if r.chance(1, 3) {
                    // a ring around the frame, or one whose hole cuts through it
                    let Shape::Pg(e, _) = s else { unreachable!() };
                    let c = [0, 1].map(|a| pl.f.span(a) / 8.0);
                    let sg = if r.chance(1, 2) { 1.0 } else { -1.0 };
                    let (a, b) = (
                        [pl.f.lo[0] - sg * c[0], pl.f.lo[1] - sg * c[1]],
                        [pl.f.hi[0] + sg * c[0], pl.f.hi[1] + sg * c[1]],
                    );
                    let h = vec![a, [b[0], a[1]], b, [a[0], b[1]]];
                    let t = Shape::Pg(e.clone(), vec![h]).round::<T>();
                    if valid_polygon(&t) {
                        return t;
                    }
                    return Shape::Pg(e, vec![]).round::<T>();
                }
                s.round::<T>()
            }
        }
        _ => pl.shape::<T>(r, k),
    }
}

/// Twice as wide, around the same middle.
pub fn wider(f: &Frame) -> Frame {
    let mut g = f.clone();
    for k in 0..2 {
        let m = if f.int { (f.span(k) / 2.0).ceil() } else { f.span(k) / 2.0 };
        g.lo[k] = f.lo[k] - m;
        g.hi[k] = f.hi[k] + m;
    }
    g.bits += 1;
    g
}

/// Does the comparator meet the closed bounds (Euclidean)? None when only
/// rounding would decide.
pub fn meets(f: &Frame, s: &Shape) -> Option<bool> {
    if s.vertices().is_empty() {
        return None;
    }
    if let Shape::Rc(a, b) = s {
        return Some((0..2).all(|k| a[k] <= f.hi[k] && f.lo[k] <= b[k]));
    }
    if s.vertices().iter().any(|v| f.contains(*v)) {
        return Some(true);
    }
    let m = 1e-5 * f.scale();
    let root = Shape::Rc(f.lo, f.hi);
    let d = euclid(s, &root);
    if d > m {
        return Some(false);
    }
    // an area well around some place in the frame
    for p in [f.lo, f.hi, [0, 1].map(|k| (f.lo[k] + f.hi[k]) / 2.0)] {
        if let Shape::Pg(e, hs) = s
            && s.area_contains(p)
            && std::iter::once(e).chain(hs).all(|r| (0..r.len()).all(|i| pt_seg(p, r[i], r[(i + 1) % r.len()]) > m))
        {
            return Some(true);
        }
    }
    let lo = [f.lo[0] + m, f.lo[1] + m];
    let hi = [f.hi[0] - m, f.hi[1] - m];
    if lo[0] < hi[0] && lo[1] < hi[1] && euclid(s, &Shape::Rc(lo, hi)) == 0.0 {
        return Some(true);
    }
    None
}

/// Slack for Euclidean distances in a frame.
pub fn etol<T: Num>(f: &Frame) -> f64 {
    let e = if T::NAME == "f32" { 4e-5 } else { 4e-12 };
    e * f.scale()
}

/// A Euclidean scene on a frame fit for distances, with its comparators.
pub fn euclid_scene<T: Num>(ctx: &mut Ctx, m: CalcMethod) -> Result<(Scene<T>, Places), crate::Fail> {
    let f = any_frame::<T>(&mut ctx.rng, true);
    let w = which(&mut ctx.rng);
    euclid_scene_on(ctx, m, f, w)
}

pub fn euclid_scene_on<T: Num>(
    ctx: &mut Ctx,
    m: CalcMethod,
    f: Frame,
    w: Which,
) -> Result<(Scene<T>, Places), crate::Fail> {
    let mut c = cfg(&mut ctx.rng, 255);
    let mut n = how_many(&mut ctx.rng, c, ctx.small);
    let kinds = datum_kinds(&mut ctx.rng, w);
    if kinds.len() > 1 || kinds[0] != Kind::Pt {
        n = crowd(&mut ctx.rng, c, ctx.small, n.min(120), 400, 700);
    } else {
        n = crowd(&mut ctx.rng, c, ctx.small, n, 300, 5000);
        n = throng(&mut ctx.rng, &mut c, ctx.small, n, 4000);
    }
    let mut s = Scene::<T>::new(f.clone(), c, w, m);
    let mut pl = Places::new(&mut ctx.rng, &f);
    fill(ctx, &mut s, &mut pl, &kinds, n)?;
    Ok((s, pl))
}

impl<T: Num> Scene<T> {
    /// The linear scan for a comparator, by the independent planar oracle.
    pub fn scan(&self, cmp: &Shape) -> crate::search::Scan {
        crate::search::Scan::new(
            self.data.iter().map(|(i, d)| {
                let e = euclid(cmp, d);
                (*i, (e, e))
            }),
            etol::<T>(&self.f).max(match cmp.bbox() {
                // comparators may stick out of the frame
                Some(b) => {
                    let m = [b.0, b.1].iter().flatten().fold(0.0f64, |a, v| a.max(v.abs()));
                    etol::<T>(&self.f) / self.f.scale() * m
                }
                None => 0.0,
            }),
        )
    }

    /// A radius worth asking for.
    pub fn radius(&self, r: &mut Rng, scan: &crate::search::Scan) -> f64 {
        let ds: Vec<f64> = scan.d.values().map(|d| d.0).collect();
        let w = self.f.w(0).max(self.f.w(1));
        let v = match r.below(8) {
            0 => 0.0,
            1 => f64::INFINITY,
            2 => w * 10.0,
            3 | 4 if !ds.is_empty() => {
                // about the distance of some datum
                let mut ds = ds;
                ds.sort_by(|a, b| a.total_cmp(b));
                let i = if r.chance(1, 2) { r.below(ds.len().min(4)) } else { r.below(ds.len()) };
                ds[i] * *r.pick(&[0.5, 0.9, 0.999, 1.0, 1.001, 1.1])
            }
            5 => -w * r.unit(),
            _ => w * r.unit() * *r.pick(&[1.0, 0.3, 0.1, 0.01]),
        };
        T::of(v).f()
    }
}

/// Point data on an exact frame, where distances along an axis or along a
/// 3-4-5 triangle are exact: comparator, and radii that some datum is exactly at.
pub fn exact_radii(r: &mut Rng, f: &Frame, data: &[(u32, Shape)], q: P) -> Vec<f64> {
    let mut v = vec![];
    for (_, d) in data {
        if let Shape::Pt(p) = d {
            let (dx, dy) = ((p[0] - q[0]).abs(), (p[1] - q[1]).abs());
            if dx == 0.0 || dy == 0.0 {
                v.push(dx + dy);
            } else if dx * 4.0 == dy * 3.0 {
                v.push(dx / 3.0 * 5.0);
            } else if dx * 3.0 == dy * 4.0 {
                v.push(dx / 4.0 * 5.0);
            }
        }
    }
    let _ = f;
    r.shuffle(&mut v);
    v.truncate(4);
    v
}

/// Where the numbers run out: a point or bounds tree of points whose frame has
/// zero in it, with data at any scale down to the smallest positive number, and
/// point comparators likewise. (The answers hold every datum that they must,
/// though their order is only sure to the frame's slack.)
pub fn abyss<T: Num>(ctx: &mut Ctx, m: CalcMethod) -> Result<(Scene<T>, Vec<P>), crate::Fail> {
    let single = T::NAME == "f32";
    let r = &mut ctx.rng;
    let (least, top) = if single { (-149, 20) } else { (-360, 60) };
    // one scale for both sides, mostly an ordinary one
    // (The squares of distances as small as the slack are above zero, and so are
    // products of two f64 coordinates, on which geo's predicates depend.)
    let e = if r.chance(1, 3) { r.range(if single { -40 } else { -100 }, top) } else { r.range(-8, top.min(12)) };
    let s = T::of(2f64.powi(e as i32) * if r.chance(1, 2) { 1.0 } else { 1.0 + r.unit() * 0.9 }).f();
    let mut f = exact_frame::<T>(r);
    f.exact = false;
    f.bits = 0;
    f.max_depth = 255;
    f.name = "abyss";
    for k in 0..2 {
        (f.lo[k], f.hi[k]) = match r.below(4) {
            0 => (-s, s),
            1 => (-s, 0.0),
            _ => (0.0, s),
        };
    }
    let w = which(r);
    let c = Cfg {
        depth: *r.pick(&[0, 4, 30, 100, 140, 150, 200, 255, 255]),
        children: *r.pick(&[0, 1, 1, 2, 3, 5]),
        default: false,
    };
    let n = 1 + r.below(if ctx.small || c.children == 0 { 5 } else { 30 });
    let lowest = if r.chance(1, 2) { least as f64 } else { (e - 255).max(least) as f64 };
    let place = |r: &mut Rng| -> P {
        let a = e as f64 + (lowest - e as f64) * r.unit() * if r.chance(1, 4) { 0.1 } else { 1.0 };
        [0, 1].map(|k| {
            let a = if r.chance(1, 3) { e as f64 + (lowest - e as f64) * r.unit() } else { a };
            let v = match r.below(8) {
                0 => 0.0,
                1 => 2f64.powf(a.floor()),
                _ => 2f64.powf(a),
            };
            let v = T::of(v).f() * if r.chance(1, 2) { 1.0 } else { -1.0 };
            if f.lo[k] <= v && v <= f.hi[k] { v } else { (-v).clamp(f.lo[k], f.hi[k]) }
        })
    };
    let mut ps: Vec<P> = (0..n).map(|_| place(r)).collect();
    let mut qs: Vec<P> = (0..6).map(|_| place(r)).collect();
    qs.push([0.0, 0.0]);
    qs.push(*r.pick(&[f.lo, f.hi, ps[0]]));
    if r.chance(1, 3) {
        let p = *r.pick(&ps);
        ps.push(p);
    }
    let mut s = Scene::<T>::new(f, c, w, m);
    for p in ps {
        s.add(Shape::Pt(p))?;
    }
    ctx.desc = s.describe();
    ctx.count("trees_down_to_the_smallest_numbers", 1);
    ctx.nontrivial = true;
    Ok((s, qs))
}
