//! C13: the distance to a box never exceeds the distance to what is inside it.
use qtmon::sphere::*;
use qtmon::*;
use quadtree::{AsGeom, CalcMethod};

fn sub_frame(f: &Frame, b: (P, P)) -> Frame {
    let mut g = f.clone();
    g.lo = b.0;
    g.hi = b.1;
    g.exact = false;
    g
}

/// A chain of boxes, each within the one before.
fn chain<T: Flt>(r: &mut Rng, pl: &mut Places) -> Vec<(P, P)> {
    let f = pl.f.clone();
    let mut v = vec![(f.lo, f.hi)];
    let n = 1 + r.below(6);
    if r.chance(1, 3) {
        // the quarters a tree would make
        let (mut lo, mut hi) = (f.lo, f.hi);
        let deep = r.chance(1, 8);
        // towards the zeros, where cells stay distinct to any depth
        let zero = [0, 1].map(|k| if hi[k] > 0.0 && lo[k] <= 0.0 { Some(0.0) } else { None });
        let depth = if deep { 1 + r.below(254) } else { n * 3 };
        for i in 0..depth {
            let m = [0, 1].map(|k| T::of(lo[k] + (hi[k] - lo[k]) / 2.0).f());
            for k in 0..2 {
                let up = match zero[k] {
                    Some(z) if deep => m[k] < z,
                    _ => r.chance(1, 2),
                };
                if up { lo[k] = m[k] } else { hi[k] = m[k] }
            }
            if !deep || i % 8 == 0 || i + 3 > depth {
                v.push((lo, hi));
            }
        }
        return v;
    }
    let mut cur = (f.lo, f.hi);
    for _ in 0..n {
        let mut g = f.clone();
        g.lo = cur.0;
        g.hi = cur.1;
        if g.exact {
            // stay on the grid of the whole frame
            let mut at = |k: usize| {
                let n = ((g.hi[k] - g.lo[k]) / f.step(k)).round() as usize;
                g.lo[k] + f.step(k) * r.below(n + 1) as f64
            };
            let (a, b) = ([at(0), at(1)], [at(0), at(1)]);
            cur = ([a[0].min(b[0]), a[1].min(b[1])], [a[0].max(b[0]), a[1].max(b[1])]);
        } else {
            let mut p = Places::new(r, &g);
            cur = p.boxed::<T>(r);
        }
        v.push(cur);
    }
    v
}

struct Case<'a> {
    m: CalcMethod,
    tol: &'a dyn Fn(f64) -> f64,
}

/// Distances to a chain of boxes and to data within the innermost.
fn check<T: Flt>(ctx: &mut Ctx, k: &Case, q: &Shape, boxes: &[(P, P)], data: &[Shape], zero: &dyn Fn(&(P, P)) -> bool) -> Res {
    let g = q.geometry::<T>();
    let calc = lib(|| g.with_calc(k.m));
    let mut prev: f64 = 0.0;
    let mut last = ([0.0; 2], [0.0; 2]);
    for (i, b) in boxes.iter().enumerate() {
        let what = || format!("{} {:?} from {} to box {b:?}", T::NAME, k.m, q.show());
        let d = lib(|| calc.dist_bbox(&rect::<T>(b.0, b.1)));
        let Ok(d) = d else { fail!("dist_bbox gave {d:?} {}", what()) };
        let d = d.f();
        ensure!(d >= 0.0, "dist_bbox gave {d:?} {}", what());
        ensure!(
            i == 0 || prev <= d + (k.tol)(d),
            "dist_bbox is {d:?}, but {prev:?} to the larger box {last:?} {}",
            what()
        );
        if zero(b) {
            ensure!(d == 0.0, "dist_bbox is {d:?}, but the comparator meets the box {}", what());
            ctx.count("meeting_boxes", 1);
        }
        prev = prev.max(d);
        last = *b;
        ctx.count("boxes_measured", 1);
        ctx.see_f(d);
    }
    let b = boxes.last().unwrap();
    let db = lib(|| calc.dist_bbox(&rect::<T>(b.0, b.1))).map(|d| d.f()).unwrap_or(f64::NAN);
    for d in data {
        let dg = d.geometry::<T>();
        let v = lib(|| calc.dist_geom(&dg.as_geom()));
        let what = || format!("{} {:?} from {} to {} in box {b:?}", T::NAME, k.m, q.show(), d.show());
        let Ok(v) = v else { fail!("dist_geom gave {v:?} {}", what()) };
        let v = v.f();
        ensure!(
            db <= v + (k.tol)(v),
            "dist_bbox is {db:?}, but dist_geom is {v:?} {}",
            what()
        );
        // its own bounding box, as the searches use it
        let (lo, hi) = d.bbox().unwrap();
        let own = lib(|| calc.dist_bbox(&rect::<T>(lo, hi)));
        let Ok(own) = own else { fail!("dist_bbox gave {own:?} {}", what()) };
        ensure!(
            own.f() <= v + (k.tol)(v),
            "dist_bbox of its own box is {own:?}, but dist_geom is {v:?} {}",
            what()
        );
        ctx.count("data_in_boxes_measured", 1);
        if v > 0.0 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

fn euclid_case<T: Flt>(ctx: &mut Ctx) -> Res {
    let f = any_frame::<T>(&mut ctx.rng, true);
    let exact = f.exact && f.bits <= if T::NAME == "f32" { 8 } else { 16 };
    let mut pl = Places::new(&mut ctx.rng, &f);
    let boxes = chain::<T>(&mut ctx.rng, &mut pl);
    let on_grid = exact
        && boxes.iter().all(|b| {
            [b.0, b.1].iter().all(|p| {
                (0..2).all(|k| {
                    let v = (p[k] - f.lo[k]) / f.step(k);
                    v == v.round()
                })
            })
        });
    let inner = *boxes.last().unwrap();
    let mut data = vec![];
    // shapes of such sizes are out of the question, boxes are not
    let tiny = (0..2).any(|k| inner.1[k] - inner.0[k] < (f.hi[k] - f.lo[k]) * 2f64.powi(-24));
    if tiny {
        ctx.count("tiny_boxes", 1);
        data.push(Shape::Pt(inner.1));
    }
    for _ in 0..if tiny { 0 } else { 4 } {
        let k = kind(&mut ctx.rng);
        let (lo, hi) = inner;
        if lo[0] < hi[0] && lo[1] < hi[1] && !f.exact {
            let mut p = Places::new(&mut ctx.rng, &sub_frame(&f, inner));
            data.push(p.shape::<T>(&mut ctx.rng, k));
        } else {
            let mut at = |k: usize| T::of(ctx.rng.uniform(lo[k], hi[k])).f().clamp(lo[k], hi[k]);
            let (a, b) = ([at(0), at(1)], [at(0), at(1)]);
            data.push(match k {
                Kind::Pt => Shape::Pt(a),
                Kind::Ln => Shape::Ln(a, b),
                Kind::Ls => Shape::Ls(vec![a, b, lo]),
                _ => Shape::Rc([a[0].min(b[0]), a[1].min(b[1])], [a[0].max(b[0]), a[1].max(b[1])]),
            });
        }
    }
    data.push(Shape::Rc(inner.0, inner.1));
    data.push(Shape::Pt(inner.0));
    for _ in 0..4 {
        let k = kind(&mut ctx.rng);
        let q = if ctx.rng.chance(1, 3) && !f.exact {
            let mut o = Places::new(&mut ctx.rng, &wider(&f));
            o.shape::<T>(&mut ctx.rng, k)
        } else {
            pl.shape::<T>(&mut ctx.rng, k)
        };
        let tol = 3.0 * etol::<T>(&f);
        let zero = |b: &(P, P)| -> bool {
            let bs = Shape::Rc(b.0, b.1);
            if on_grid {
                return meets_exact(&q, &bs, f.lo, [f.step(0), f.step(1)]);
            }
            q.vertices().iter().any(|v| bs.area_contains(*v))
        };
        let c = Case { m: CalcMethod::Euclidean, tol: &|_| tol };
        if ctx.want_desc {
            ctx.desc = format!("{} Euclidean, from {} to {boxes:?}", T::NAME, q.show());
        }
        check::<T>(ctx, &c, &q, &boxes, &data, &zero)?;
        ctx.count("euclidean_comparators", 1);
    }
    Ok(())
}

fn sph_case<T: Flt>(ctx: &mut Ctx) -> Res {
    let sf = sframe::<T>(&mut ctx.rng);
    let mut pl = Places::new(&mut ctx.rng, &sf.f);
    let boxes = chain::<T>(&mut ctx.rng, &mut pl);
    let inner = *boxes.last().unwrap();
    let rects = ctx.rng.chance(1, 2);
    let mut data = vec![Shape::Pt(inner.0), Shape::Pt(inner.1), Shape::Rc(inner.0, inner.1)];
    for _ in 0..4 {
        let k = if rects { *ctx.rng.pick(&[Kind::Pt, Kind::Rc]) } else { kind(&mut ctx.rng) };
        let (lo, hi) = inner;
        if lo[0] < hi[0] && lo[1] < hi[1] {
            let mut p = Places::new(&mut ctx.rng, &sub_frame(&sf.f, inner));
            data.push(p.shape::<T>(&mut ctx.rng, k));
        }
    }
    for _ in 0..5 {
        let q = if rects {
            srect::<T>(&mut ctx.rng, &sf, &mut pl)
        } else if ctx.rng.chance(1, 2) {
            Shape::Pt(pl.inside::<T>(&mut ctx.rng))
        } else {
            // anywhere in the window
            let h = std::f64::consts::PI / 2.0;
            let x = ctx.rng.uniform(sf.win.0, sf.win.1);
            let y = ctx.rng.uniform(-h, h);
            Shape::Pt([T::of(x).f().clamp(sf.win.0, sf.win.1), T::of(y).f()])
        };
        let zero = |b: &(P, P)| -> bool {
            match &q {
                Shape::Pt(p) => (0..2).all(|k| b.0[k] <= p[k] && p[k] <= b.1[k]),
                Shape::Rc(a, c) => (0..2).all(|k| b.0[k] <= c[k] && a[k] <= b.1[k]),
                _ => false,
            }
        };
        let tol = |d: f64| 2.0 * angle_tol(d, T::EPS) + 32.0 * T::EPS;
        let c = Case { m: CalcMethod::Spherical, tol: &tol };
        if ctx.want_desc {
            ctx.desc = format!("{} Spherical, from {} to {boxes:?}", T::NAME, q.show());
        }
        check::<T>(ctx, &c, &q, &boxes, &data, &zero)?;
        ctx.count("spherical_comparators", 1);
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 2) { any_flt!(ctx, euclid_case) } else { any_flt!(ctx, sph_case) }
}

fn main() {
    runner::main("C13", case)
}
