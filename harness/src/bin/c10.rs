//! C10: the search methods agree with each other and do not depend on history,
//! configuration or tree kind.
use qtmon::sphere::*;
use qtmon::*;
use quadtree::{CalcMethod, Error};

/// Same length, and position by position the same distance.
fn same(a: &[Hit], b: &[Hit], tol: &dyn Fn(f64) -> f64, what: &str) -> Res {
    ensure!(a.len() == b.len(), "{what}: {} against {} results", a.len(), b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(
            (x.d - y.d).abs() <= tol(x.d.max(y.d)),
            "{what}: result {i} at {:?} against {:?}",
            x.d,
            y.d
        );
    }
    Ok(())
}

struct Slack {
    euclid: f64,
    eps: f64,
}
impl Slack {
    fn at(&self, d: f64) -> f64 {
        if self.euclid > 0.0 {
            self.euclid
        } else {
            64.0 * self.eps + 2.0 * angle_tol(d.min(3.2), self.eps)
        }
    }
}

fn compare<T: Flt>(ctx: &mut Ctx, trees: &[Scene<T>], q: &Shape, slack: &Slack, exact: bool) -> Res {
    let g = q.geometry::<T>();
    let tol = |d: f64| slack.at(d);
    let n = trees[0].data.len();
    let base = trees[0].tree.sorted(&g, usize::MAX);
    ensure!(base.len() == n, "sorted gave {} of {n} data for {}", base.len(), q.show());
    let k = match ctx.rng.below(4) {
        0 => 1,
        1 => n + 1,
        _ => ctx.rng.below(n + 2),
    };
    let mut r = match ctx.rng.below(4) {
        0 => f64::INFINITY,
        1 => 0.0,
        _ if n > 0 => ctx.rng.pick(&base).d,
        _ => 1.0,
    };
    // Not exactly representable distances differ by rounding between searches
    let on_r = exact && base.iter().any(|h| h.d == r);
    if !on_r {
        r = match ctx.rng.below(3) {
            0 => r,
            1 => r * 1.03,
            _ => r * 0.97,
        };
    }
    let r = T::of(r).f();
    for (ti, t) in trees.iter().enumerate() {
        let what = |w: &str| format!("{w}, tree {ti} ({:?} {:?}) for {}; {}", t.which, t.c, q.show(), trees[0].describe());
        let s = t.tree.sorted(&g, usize::MAX);
        same(&base, &s, &tol, &what("sorted of two trees"))?;
        for h in base.iter().chain(&s) {
            ensure!(!h.d.is_nan(), "{}", what("NaN distance"));
        }
        // the same datum has the same distance in every tree
        let by: std::collections::HashMap<u32, f64> = base.iter().map(|h| (h.id, h.d)).collect();
        for h in &s {
            match by.get(&h.id) {
                Some(d) if (d - h.d).abs() <= tol(h.d) => {}
                d => fail!("{}: datum {} at {:?}, elsewhere {d:?}", what("sorted"), h.id, h.d),
            }
        }
        let f = t.tree.find(&g);
        let kn = t.tree.knn(&g, n + 3);
        let Ok(kn) = kn else { fail!("{} gave {kn:?}", what("knn")) };
        same(&s, &kn, &tol, &what("sorted and knn of everything"))?;
        match (&f, s.first()) {
            (Err(Error::Empty), None) => {}
            (Ok(h), Some(m)) => ensure!(
                (h.d - m.d).abs() <= tol(h.d.max(m.d)),
                "{}: {:?} against {:?}",
                what("find and sorted"),
                h,
                m
            ),
            (f, m) => fail!("{}: {f:?} against {m:?}", what("find and sorted")),
        }
        let kr = t.tree.knn_r(&g, k, T::of(r));
        let Ok(kr) = kr else { fail!("{} gave {kr:?}", what("knn_r")) };
        let e = if exact { 0.0 } else { tol(r) };
        let sure: Vec<Hit> = s.iter().copied().filter(|h| h.d + e <= r).take(k).collect();
        let maybe: Vec<Hit> = s.iter().copied().filter(|h| h.d <= r + e).take(k).collect();
        ensure!(
            kr.len() >= sure.len() && kr.len() <= maybe.len(),
            "{}: knn_r(k = {k}, r = {r:?}) gave {} results, sorted has {}..{} of them",
            what("knn_r and sorted"),
            kr.len(),
            sure.len(),
            maybe.len()
        );
        same(&kr, &maybe[..kr.len()], &tol, &what("knn_r and the prefix of sorted"))?;
        let fr = t.tree.find_r(&g, T::of(r));
        match fr {
            Ok(h) => {
                ensure!(!maybe.is_empty() || k == 0, "{} found {h:?}, but knn_r and sorted find nothing within {r:?}", what("find_r"));
                ensure!((h.d - s[0].d).abs() <= tol(h.d), "{}: {h:?} against {:?}", what("find_r and sorted"), s[0]);
            }
            Err(Error::NoneInRadius) => {
                ensure!(sure.is_empty(), "{} found nothing within {r:?}, sorted {:?}", what("find_r"), sure.first())
            }
            Err(Error::Empty) => ensure!(s.is_empty(), "{} gave Empty", what("find_r")),
            Err(e) => fail!("{} gave {e:?}", what("find_r")),
        }
        ctx.count("trees_compared", 1);
        ctx.count("results_compared", (3 * n + kr.len()) as u64);
        ctx.see(kr.len() as u64);
    }
    if exact && on_r {
        ctx.count("radius_exactly_a_distance", 1);
    }
    for h in base.iter().take(16) {
        ctx.see_f(h.d);
    }
    ctx.nontrivial |= n > 1;
    Ok(())
}

fn build<T: Flt>(ctx: &mut Ctx, f: &Frame, m: CalcMethod, data: &[Shape], max_depth: u8) -> Result<Vec<Scene<T>>, Fail> {
    let points = data.iter().all(|d| matches!(d, Shape::Pt(_)));
    let mut out: Vec<Scene<T>> = vec![];
    let nt = 2 + ctx.rng.below(3);
    for t in 0..nt {
        let w = if !points {
            Which::Bounds
        } else if t == 0 {
            Which::Point
        } else if t == 1 {
            Which::Bounds
        } else {
            which(&mut ctx.rng)
        };
        let mut c = cfg(&mut ctx.rng, max_depth);
        if c.depth > 30 && data.len() > 60 {
            c.depth = 12.min(max_depth);
        }
        if c.depth > 8 && c.children == 0 {
            c.children = 1;
        }
        let mut s = Scene::<T>::new(f.clone(), c, w, m);
        let mut order: Vec<usize> = (0..data.len()).collect();
        if t > 0 {
            match ctx.rng.below(4) {
                0 => order.reverse(),
                1 => {}
                _ => ctx.rng.shuffle(&mut order),
            }
        }
        let refuse = ctx.rng.chance(1, 2);
        let mut pl = Places::new(&mut ctx.rng, f);
        for i in order {
            let r = s.tree.insert(Item::new(i as u32, &data[i]));
            ensure!(r.is_ok(), "insert of {} into {f:?} gave {r:?}", data[i].show());
            if refuse && ctx.rng.chance(1, 5) {
                let p = pl.outside::<T>(&mut ctx.rng);
                s.offer_outside(Shape::Pt(p))?;
                ctx.count("refused_inserts", 1);
            }
        }
        s.data = data.iter().cloned().enumerate().map(|(i, d)| (i as u32, d)).collect();
        out.push(s);
    }
    Ok(out)
}

fn euclid_case<T: Flt>(ctx: &mut Ctx) -> Res {
    let f = any_frame::<T>(&mut ctx.rng, true);
    let mut pl = Places::new(&mut ctx.rng, &f);
    let kinds = if ctx.rng.chance(1, 2) { vec![Kind::Pt] } else { datum_kinds(&mut ctx.rng, Which::Bounds) };
    let n = *ctx.rng.pick(&[0, 1, 2, 3, 5, 8, 13, 20, 40, 80]);
    let n = if ctx.small { n.min(8) } else { n };
    let data: Vec<Shape> = (0..n)
        .map(|_| {
            let k = *ctx.rng.pick(&kinds);
            pl.shape::<T>(&mut ctx.rng, k)
        })
        .collect();
    let trees = build::<T>(ctx, &f, CalcMethod::Euclidean, &data, 255)?;
    ctx.desc = trees[0].describe();
    for _ in 0..4 {
        let q = comparator::<T>(&mut ctx.rng, &mut pl, &trees[0].data);
        if meets(&f, &q) != Some(true) {
            continue;
        }
        let mut tol = trees[0].scan(&q).tol;
        if T::INT {
            tol = 0.0;
        }
        compare(ctx, &trees, &q, &Slack { euclid: tol, eps: T::EPS }, false)?;
        ctx.count("euclid_comparisons", 1);
    }
    Ok(())
}

/// Axis-aligned distances on a grid are exact, so r may be exactly one of them.
fn exact_case<T: Flt>(ctx: &mut Ctx) -> Res {
    let f = exact_frame::<T>(&mut ctx.rng);
    let mut pl = Places::new(&mut ctx.rng, &f);
    let n = 1 + ctx.rng.below(30);
    let q = pl.inside::<T>(&mut ctx.rng);
    let axis = ctx.rng.below(2);
    let data: Vec<Shape> = (0..n)
        .map(|_| {
            let mut p = pl.inside::<T>(&mut ctx.rng);
            p[axis] = q[axis];
            Shape::Pt(p)
        })
        .collect();
    let trees = build::<T>(ctx, &f, CalcMethod::Euclidean, &data, f.max_depth.min(12))?;
    ctx.desc = trees[0].describe();
    for _ in 0..3 {
        let tol = 1e-300;
        compare(ctx, &trees, &Shape::Pt(q), &Slack { euclid: tol, eps: T::EPS }, true)?;
        ctx.count("exact_comparisons", 1);
    }
    Ok(())
}

fn sph_case<T: Flt>(ctx: &mut Ctx) -> Res {
    let sf = sframe::<T>(&mut ctx.rng);
    let mut pl = Places::new(&mut ctx.rng, &sf.f);
    let rects = ctx.rng.chance(1, 3);
    let kinds = match ctx.rng.below(3) {
        0 => vec![Kind::Pt],
        _ if rects => vec![Kind::Pt, Kind::Rc],
        _ => datum_kinds(&mut ctx.rng, Which::Bounds),
    };
    let n = *ctx.rng.pick(&[0, 1, 2, 3, 5, 8, 13, 20, 40, 80]);
    let n = if ctx.small { n.min(8) } else { n };
    let data: Vec<Shape> = (0..n)
        .map(|_| {
            let k = *ctx.rng.pick(&kinds);
            pl.shape::<T>(&mut ctx.rng, k)
        })
        .collect();
    let trees = build::<T>(ctx, &sf.f, CalcMethod::Spherical, &data, 255)?;
    ctx.desc = trees[0].describe();
    for _ in 0..4 {
        let q = if rects && !kinds.iter().any(|k| !matches!(k, Kind::Pt | Kind::Rc)) {
            srect::<T>(&mut ctx.rng, &sf, &mut pl)
        } else {
            Shape::Pt(pl.inside::<T>(&mut ctx.rng))
        };
        compare(ctx, &trees, &q, &Slack { euclid: 0.0, eps: T::EPS }, false)?;
        ctx.count("spherical_comparisons", 1);
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(5) {
        0 => any_flt!(ctx, exact_case),
        1 | 2 => any_flt!(ctx, sph_case),
        _ => any_flt!(ctx, euclid_case),
    }
}

fn main() {
    runner::main("C10", case)
}
