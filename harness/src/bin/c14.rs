//! C14: searches that cannot be answered fail with the documented error.
use qtmon::search::Scan;
use qtmon::sphere::*;
use qtmon::*;
use quadtree::{AsGeom, CalcMethod, Error, Geometry};

struct Answers {
    find: Result<Hit, Error>,
    find_r: Result<Hit, Error>,
    knn: Result<Vec<Hit>, Error>,
    knn_r: Result<Vec<Hit>, Error>,
    sorted: Vec<Hit>,
}

/// Everything observable about a tree, for before/after comparisons.
fn snapshot<T: Flt>(s: &Scene<T>) -> (usize, Vec<u32>, String) {
    (s.tree.size(), s.tree.ids(), s.tree.show())
}

fn ask<T: Flt>(s: &Scene<T>, g: &Geometry<T>, k: usize, r: f64) -> Answers {
    Answers {
        find: s.tree.find(g),
        find_r: s.tree.find_r(g, T::of(r)),
        knn: s.tree.knn(g, k),
        knn_r: s.tree.knn_r(g, k, T::of(r)),
        sorted: s.tree.sorted(g, usize::MAX),
    }
}

fn all_fail(a: &Answers, e: &[Error], what: &str) -> Res {
    let is = |x: Option<&Error>| x.is_some_and(|x| e.contains(x));
    ensure!(is(a.find.as_ref().err()), "find gave {:?}, expected {e:?}: {what}", a.find);
    ensure!(is(a.find_r.as_ref().err()), "find_r gave {:?}, expected {e:?}: {what}", a.find_r);
    ensure!(is(a.knn.as_ref().err()), "knn gave {:?}, expected {e:?}: {what}", a.knn);
    ensure!(is(a.knn_r.as_ref().err()), "knn_r gave {:?}, expected {e:?}: {what}", a.knn_r);
    ensure!(a.sorted.is_empty(), "sorted yielded {:?}, expected nothing: {what}", a.sorted.first());
    Ok(())
}

fn any_k(r: &mut Rng, n: usize) -> usize {
    *r.pick(&[0, 1, 1, 2, n, n + 1, usize::MAX])
}
fn any_r(r: &mut Rng, w: f64) -> f64 {
    *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -0.0, -1.0, 1e-30, w, w * 0.1])
}

fn empty_geometry<T: Flt>(r: &mut Rng) -> Geometry<T> {
    let e = || geo::LineString::<T>(vec![]);
    match r.below(3) {
        0 => Geometry::LineString(e()),
        1 => Geometry::Polygon(geo::Polygon::new(e(), vec![])),
        _ => {
            // empty exterior although there is a hole
            let h = Shape::Ls(vec![[0.25, 0.25], [0.5, 0.25], [0.5, 0.5]]).linestring::<T>();
            if r.chance(1, 2) {
                Geometry::Polygon(geo::Polygon::new(e(), vec![h]))
            } else {
                Geometry::Polygon(geo::Polygon::new(e(), vec![e()]))
            }
        }
    }
}

fn hostile(r: &mut Rng) -> f64 {
    *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])
}

fn run<T: Flt>(ctx: &mut Ctx) -> Res {
    let m = *ctx.rng.pick(&[CalcMethod::None, CalcMethod::Euclidean, CalcMethod::Spherical, CalcMethod::Spherical, CalcMethod::Euclidean]);
    let sph = matches!(m, CalcMethod::Spherical);
    let sf = if sph { Some(sframe::<T>(&mut ctx.rng)) } else { None };
    let f = match &sf {
        Some(s) => s.f.clone(),
        None => any_frame::<T>(&mut ctx.rng, true),
    };
    let w = which(&mut ctx.rng);
    let c = cfg(&mut ctx.rng, 255);
    let n = if ctx.rng.chance(1, 5) { 0 } else { how_many(&mut ctx.rng, c, ctx.small).min(40) };
    let mut s = Scene::<T>::new(f.clone(), c, w, m);
    let mut pl = Places::new(&mut ctx.rng, &f);
    let kinds = datum_kinds(&mut ctx.rng, w);
    fill(ctx, &mut s, &mut pl, &kinds, n)?;
    ctx.desc = format!("{m:?} {}", s.describe());
    let before = snapshot(&s);
    let width = f.w(0).max(f.w(1));
    for _ in 0..8 {
        let k = any_k(&mut ctx.rng, n);
        let r = T::of(any_r(&mut ctx.rng, width)).f();
        let empty = ctx.rng.chance(1, 6);
        let kind_ = kind(&mut ctx.rng);
        let (q, g) = if empty {
            (None, empty_geometry::<T>(&mut ctx.rng))
        } else {
            let q = match ctx.rng.below(8) {
                0 => {
                    // non-finite point
                    let mut p = pl.inside::<T>(&mut ctx.rng);
                    let a = ctx.rng.below(2);
                    p[a] = hostile(&mut ctx.rng);
                    if ctx.rng.chance(1, 3) {
                        p[1 - a] = hostile(&mut ctx.rng);
                    }
                    Shape::Pt(p)
                }
                1 if sph => {
                    let win = sf.as_ref().unwrap().win;
                    let h = std::f64::consts::PI / 2.0;
                    Shape::Pt([T::of(ctx.rng.uniform(win.0, win.1)).f(), T::of(ctx.rng.uniform(-h, h)).f()])
                }
                1 => Shape::Pt(pl.outside::<T>(&mut ctx.rng)),
                2 if !sph => {
                    // off to one side
                    let mut o = f.clone();
                    let a = ctx.rng.below(2);
                    let d = f.span(a) * (1.0 + ctx.rng.unit()) + if f.exact { 2.0 * f.step(a) } else { 0.0 };
                    let d = if f.exact { (d / f.step(a)).round() * f.step(a) } else { d };
                    let sg = if ctx.rng.chance(1, 2) { 1.0 } else { -1.0 };
                    o.lo[a] += sg * d;
                    o.hi[a] += sg * d;
                    let mut p = Places::new(&mut ctx.rng, &o);
                    p.shape::<T>(&mut ctx.rng, kind_)
                }
                3 | 4 if sph => srect::<T>(&mut ctx.rng, sf.as_ref().unwrap(), &mut pl),
                5 if sph => {
                    // a rect beside the bounds
                    let a = ctx.rng.below(2);
                    let mut lo = f.lo;
                    let mut hi = f.hi;
                    let gap = 0.05 + ctx.rng.unit() * 0.3;
                    lo[a] = T::of(f.hi[a] + gap).f();
                    hi[a] = T::of(f.hi[a] + gap + 0.2).f();
                    Shape::Rc(lo, hi)
                }
                _ => pl.shape::<T>(&mut ctx.rng, kind_),
            };
            let g = q.geometry::<T>();
            (Some(q), g)
        };
        if empty || matches!(m, CalcMethod::None) {
            // the calculator by itself, either side first
            let o = pl.shape::<T>(&mut ctx.rng, kind_).geometry::<T>();
            let b = f.rect::<T>();
            let answers = lib(|| {
                [
                    ("g.dist_geom(o)", g.with_calc(m).dist_geom(&o.as_geom())),
                    ("o.dist_geom(g)", o.with_calc(m).dist_geom(&g.as_geom())),
                    ("g.dist_geom(g)", g.with_calc(m).dist_geom(&g.as_geom())),
                    ("g.dist_bbox(bounds)", g.with_calc(m).dist_bbox(&b)),
                ]
            });
            for (n, v) in answers {
                let fine = match m {
                    CalcMethod::None => matches!(v, Err(Error::CalcMethodNotSet)) || empty && matches!(v, Err(Error::CannotMakeBbox)),
                    CalcMethod::Euclidean => matches!(v, Err(Error::CannotMakeBbox)),
                    // a hole without an exterior may have a distance
                    CalcMethod::Spherical => true,
                };
                ensure!(fine, "{n} gave {v:?} for {m:?}, g {g:?} o {o:?}");
                ctx.count("calculator_refusals", 1);
            }
        }
        let a = ask(&s, &g, k, r);
        let what = format!("k = {k} r = {r:?} comparator {g:?}; {m:?} {}", s.describe());
        ctx.count("comparators", 1);
        ctx.see_str(&format!("{:?}", a.find));
        ctx.see(a.sorted.len() as u64);
        let q = match (m, q) {
            (CalcMethod::None, q) => {
                if q.is_some() {
                    all_fail(&a, &[Error::CalcMethodNotSet], &what)?;
                } else {
                    all_fail(&a, &[Error::CalcMethodNotSet, Error::CannotMakeBbox], &what)?;
                }
                ctx.count("no_method", 1);
                continue;
            }
            (CalcMethod::Euclidean, None) => {
                all_fail(&a, &[Error::CannotMakeBbox], &what)?;
                ctx.count("empty_comparator", 1);
                continue;
            }
            (_, None) => {
                all_fail(&a, &[Error::CannotMakeBbox, Error::InvalidDistance, Error::OutOfBounds], &what)?;
                ctx.count("empty_comparator", 1);
                continue;
            }
            (_, Some(q)) => q,
        };
        if sph && !matches!(q, Shape::Pt(_) | Shape::Rc(..)) {
            all_fail(&a, &[Error::InvalidDistance], &what)?;
            ctx.count("unsupported_comparator", 1);
            continue;
        }
        let meet = match &q {
            // on the sphere: valid positions, clearly in or clearly out
            Shape::Pt(p) if sph && p.iter().all(|v| v.is_finite()) => {
                let d = sph_pt_rect(*p, f.lo, f.hi);
                if f.contains(*p) { Some(true) } else { (d > 1e-2).then_some(false) }
            }
            Shape::Rc(a, b) if sph => {
                let win = sf.as_ref().unwrap().win;
                let h = T::of(std::f64::consts::PI / 2.0).f();
                let valid = win.0 <= a[0] && b[0] <= win.1 && -h <= a[1] && b[1] <= h;
                let d = sph_rect_rect_min((*a, *b), (f.lo, f.hi));
                match meets(&f, &q) {
                    Some(true) => Some(true),
                    _ => (valid && d > 1e-2).then_some(false),
                }
            }
            Shape::Pt(p) => Some(f.contains(*p)),
            Shape::Rc(..) => meets(&f, &q),
            _ if f.exact && f.bits <= if T::NAME == "f32" { 8 } else { 16 } => Some(meets_exact(
                &q,
                &Shape::Rc(f.lo, f.hi),
                f.lo,
                [f.step(0), f.step(1)],
            )),
            _ => meets(&f, &q),
        };
        match meet {
            None => continue,
            Some(false) => {
                all_fail(&a, &[Error::OutOfBounds], &what)?;
                ctx.count("out_of_bounds", 1);
                continue;
            }
            Some(true) => {}
        }
        // answerable comparator: what the data allow
        if s.data.is_empty() {
            ensure!(a.find == Err(Error::Empty), "find on an empty tree gave {:?}: {what}", a.find);
            ensure!(a.find_r == Err(Error::Empty), "find_r on an empty tree gave {:?}: {what}", a.find_r);
            ensure!(a.knn == Ok(vec![]), "knn on an empty tree gave {:?}: {what}", a.knn);
            ensure!(a.knn_r == Ok(vec![]), "knn_r on an empty tree gave {:?}: {what}", a.knn_r);
            ensure!(a.sorted.is_empty(), "sorted on an empty tree: {what}");
            ctx.count("empty_tree", 1);
            continue;
        }
        answerable(ctx, &s, &q, k, r, &a, &what)?;
    }
    let after = snapshot(&s);
    ensure!(before == after, "searches changed the tree: {m:?} {}", s.describe());
    ctx.see(n as u64);
    ctx.nontrivial |= n > 0;
    weird(ctx, &s, &mut pl)?;
    ensure!(before == snapshot(&s), "searches with a non-finite comparator changed the tree: {m:?} {}", s.describe());
    Ok(())
}

fn answerable<T: Flt>(ctx: &mut Ctx, s: &Scene<T>, q: &Shape, k: usize, r: f64, a: &Answers, what: &str) -> Res {
    let g = q.geometry::<T>();
    let m = match &s.tree {
        Tree::P(t) => quadtree::QuadTreeSearch::calc_method(t),
        Tree::B(t) => quadtree::QuadTreeSearch::calc_method(t),
    };
    // the library's own distances, None for unsupported kinds
    let mut ok = vec![];
    let mut bad = vec![];
    for (i, d) in &s.data {
        let dg = d.geometry::<T>();
        let v = lib(|| g.with_calc(m).dist_geom(&dg.as_geom()));
        match (m, supported(q, d) || matches!(m, CalcMethod::Euclidean), v) {
            (_, true, Ok(v)) => ok.push((*i, (v.f(), v.f()))),
            (_, false, Err(Error::InvalidDistance)) => bad.push(d.clone()),
            (_, _, v) => fail!("distance to {} gave {v:?}: {what}", d.show()),
        }
    }
    let e = if matches!(m, CalcMethod::Spherical) { T::EPS } else { 0.0 };
    let sc = if e > 0.0 { Scan::spherical(ok.clone(), e) } else { Scan::new(ok.clone(), s.scan(q).tol) };
    let lim = if r.is_nan() { None } else { Some(r) };
    let ctxed = |f: Fail| Fail(format!("{}: {what}", f.0));
    // sorted skips what it cannot measure
    sc.nearest(&a.sorted, usize::MAX, None, false, "sorted").map_err(ctxed)?;
    ctx.count("sorted_over_mixed_data", 1);
    if bad.is_empty() {
        sc.find(&a.find, None, false, "find").map_err(ctxed)?;
        match &a.knn {
            Ok(v) => sc.nearest(v, k, None, false, "knn").map_err(ctxed)?,
            Err(e) => fail!("knn gave {e:?}: {what}"),
        }
        if let Some(r) = lim {
            sc.find(&a.find_r, lim, false, "find_r").map_err(ctxed)?;
            match &a.knn_r {
                Ok(v) => sc.nearest(v, k, lim, false, "knn_r").map_err(ctxed)?,
                Err(e) => fail!("knn_r gave {e:?}: {what}"),
            }
            if r < 0.0 {
                ensure!(a.find_r == Err(Error::NoneInRadius), "find_r with negative r gave {:?}: {what}", a.find_r);
                ctx.count("negative_radius", 1);
            }
        } else {
            ctx.count("nan_radius", 1);
        }
        ctx.count("answerable", 1);
        return Ok(());
    }
    ctx.count("unsupported_data", 1);
    let inv = Error::InvalidDistance;
    // a whole search must come across the unsupported ones
    let whole = s.tree.knn(&g, usize::MAX);
    ensure!(whole.as_ref().err() == Some(&inv), "knn of everything gave {whole:?} although some data are unsupported: {what}");
    let none = if let Ok(v) = &a.knn { k == 0 || v.len() == k } else { a.knn == Err(inv) };
    ensure!(none, "knn gave {:?}: {what}", a.knn);
    if let Ok(v) = &a.knn {
        sc.nearest(v, k, None, false, "knn").map_err(ctxed)?;
    }
    // those whose box overlaps the comparator cannot be ruled out by any bound
    let touching = bad.iter().any(|d| {
        let (lo, hi) = d.bbox().unwrap();
        let (a, b) = q.bbox().unwrap();
        (0..2).all(|i| lo[i] <= b[i] && a[i] <= hi[i])
    });
    let find_ok = |x: &Result<Hit, Error>, lim: Option<f64>, w: &str| -> Res {
        match x {
            Err(Error::InvalidDistance) => Ok(()),
            Err(Error::NoneInRadius) if lim.is_some_and(|r| r.is_finite()) => {
                if ok.is_empty() { Ok(()) } else { sc.find(x, lim, false, w) }
            }
            Ok(_) if !ok.is_empty() => sc.find(x, lim, false, w),
            x => Err(Fail(format!("{w} gave {x:?}"))),
        }
    };
    find_ok(&a.find, None, "find").map_err(ctxed)?;
    // (unless a supported one is just as near, and met first)
    let first = sc.min().is_none_or(|m| m.0 > sc.at(m.0));
    if touching && first || ok.is_empty() {
        ensure!(a.find == Err(inv), "find gave {:?} although the nearest box holds unsupported data: {what}", a.find);
        ctx.count("find_must_refuse", 1);
    }
    if let Some(r) = lim {
        if r >= 0.0 {
            find_ok(&a.find_r, lim, "find_r").map_err(ctxed)?;
        }
    }
    Ok(())
}

fn supported(s: &Shape, t: &Shape) -> bool {
    use Shape::*;
    matches!((s, t), (Pt(_), _) | (Rc(..), Pt(_)) | (Rc(..), Rc(..)))
}

/// Comparators with some coordinate not finite: anything but a panic or a
/// changed tree.
fn weird<T: Flt>(ctx: &mut Ctx, s: &Scene<T>, pl: &mut Places) -> Res {
    for _ in 0..2 {
        let k = *ctx.rng.pick(&[Kind::Pt, Kind::Ln]);
        let q = pl.shape::<T>(&mut ctx.rng, k);
        let n = q.vertices().len();
        let hit = ctx.rng.below(n);
        let v = hostile(&mut ctx.rng);
        let a = ctx.rng.below(2);
        let mut i = 0;
        let q = q.map(&mut |mut p| {
            if i == hit {
                p[a] = v;
            }
            i += 1;
            p
        });
        let kk = any_k(&mut ctx.rng, s.data.len());
        let r = any_r(&mut ctx.rng, 1.0);
        if ctx.want_desc {
            ctx.desc = format!("non-finite comparator {}; {}", q.show(), s.describe());
        }
        let _ = ask(s, &q.geometry::<T>(), kk, r);
        ctx.count("non_finite_comparators", 1);
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    any_flt!(ctx, run)
}

fn main() {
    runner::main("C14", case)
}
