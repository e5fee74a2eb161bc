//! C09: spherical searches return the great-circle nearest data.
use qtmon::search::Scan;
use qtmon::sphere::*;
use qtmon::*;
use quadtree::{AsGeom, CalcMethod};

/// The linear scan by the library's own distance, itself compared with the
/// independent oracle.
fn scan<T: Flt>(s: &Scene<T>, q: &Shape) -> Result<Scan, Fail> {
    let g = q.geometry::<T>();
    let mut v = vec![];
    for (i, d) in &s.data {
        let dg = d.geometry::<T>();
        let own = lib(|| g.with_calc(CalcMethod::Spherical).dist_geom(&dg.as_geom()));
        let Some((lo, hi)) = spherical(q, d, T::EPS) else {
            panic!("unsupported pair in the workload")
        };
        let Ok(own) = own else {
            fail!("distance from {} to {} gave {own:?}", q.show(), d.show())
        };
        let own = own.f();
        ensure!(
            own >= lo - 2.0 * angle_tol(lo, T::EPS) && own <= hi + 2.0 * angle_tol(hi, T::EPS),
            "distance from {} to {} is {own:?}, expected {lo:?}..{hi:?}",
            q.show(),
            d.show()
        );
        v.push((*i, (own, own)));
    }
    Ok(Scan::spherical(v, T::EPS))
}

fn shape<T: Flt>(r: &mut Rng, sf: &SFrame, pl: &mut Places, k: Kind) -> Shape {
    let _ = sf;
    pl.shape::<T>(r, k)
}

fn run<T: Flt>(ctx: &mut Ctx) -> Res {
    let sf = sframe::<T>(&mut ctx.rng);
    let w = which(&mut ctx.rng);
    let mut c = cfg(&mut ctx.rng, 255);
    if ctx.rng.chance(1, 2) {
        c.children = 1 + ctx.rng.below(3);
        c.depth = 3 + ctx.rng.below(6) as u8;
        c.default = false;
    }
    let n = how_many(&mut ctx.rng, c, ctx.small).min(150);
    let n = crowd(&mut ctx.rng, c, ctx.small, n, 500, 2000);
    let rects = ctx.rng.chance(2, 5);
    let kinds = match (w, rects) {
        (Which::Point, _) => vec![Kind::Pt],
        (_, true) => vec![Kind::Pt, Kind::Rc],
        _ => datum_kinds(&mut ctx.rng, w),
    };
    let n = if kinds == [Kind::Pt] { throng(&mut ctx.rng, &mut c, ctx.small, n, 6000) } else { n };
    let mut s = Scene::<T>::new(sf.f.clone(), c, w, CalcMethod::Spherical);
    let mut pl = Places::new(&mut ctx.rng, &sf.f);
    for _ in 0..n {
        let k = *ctx.rng.pick(&kinds);
        let d = shape::<T>(&mut ctx.rng, &sf, &mut pl, k);
        s.add(d)?;
    }
    ctx.desc = s.describe();
    let all = |e: Fail, s: &Scene<T>, q: &Shape| Fail(format!("{} for {}; {}", e.0, q.show(), s.describe()));
    for _ in 0..6 {
        let q = if rects && ctx.rng.chance(3, 4) {
            srect::<T>(&mut ctx.rng, &sf, &mut pl)
        } else {
            let mut p = pl.inside::<T>(&mut ctx.rng);
            if !s.data.is_empty() && ctx.rng.chance(1, 4) {
                // opposite, across the antimeridian, or over the pole from a datum
                let b = ctx.rng.pick(&s.data).1.bbox().unwrap().0;
                let pi = std::f64::consts::PI;
                let c = match ctx.rng.below(3) {
                    0 => [if b[0] > 0.0 { b[0] - pi } else { b[0] + pi }, -b[1]],
                    1 => [-b[0], b[1]],
                    _ => [if b[0] > 0.0 { b[0] - pi } else { b[0] + pi }, b[1]],
                };
                p = [0, 1].map(|k| T::of(c[k].clamp(sf.f.lo[k], sf.f.hi[k])).f().clamp(sf.f.lo[k], sf.f.hi[k]));
            }
            Shape::Pt(p)
        };
        let g = q.geometry::<T>();
        let sc = scan(&s, &q).map_err(|e| all(e, &s, &q))?;
        let got = s.tree.find(&g);
        sc.find(&got, None, false, "find").map_err(|e| all(e, &s, &q))?;
        ctx.count("find_checked", 1);
        if let Ok(h) = got {
            ctx.see(h.id as u64);
            ctx.see_f(h.d);
            ctx.nontrivial |= s.data.len() > 1;
        }
        let mut ds: Vec<f64> = sc.d.values().map(|d| d.0).collect();
        ds.sort_by(|a, b| a.total_cmp(b));
        for _ in 0..3 {
            let r = match ctx.rng.below(5) {
                0 => 3.2,
                1 => 0.0,
                2 if !ds.is_empty() => *ctx.rng.pick(&ds) * *ctx.rng.pick(&[0.99, 1.0, 1.01]),
                _ => ctx.rng.unit() * sf.f.w(0).min(3.2),
            };
            let r = T::of(r).f();
            let got = s.tree.find_r(&g, T::of(r));
            sc.find(&got, Some(r), false, &format!("find_r r = {r:?}")).map_err(|e| all(e, &s, &q))?;
            let k = match ctx.rng.below(4) {
                0 => 1,
                1 => s.data.len() + 1,
                _ => ctx.rng.below(s.data.len() + 2),
            };
            let lim = if ctx.rng.chance(1, 2) { Some(r) } else { None };
            let got = match lim {
                Some(r) => s.tree.knn_r(&g, k, T::of(r)),
                None => s.tree.knn(&g, k),
            };
            let what = format!("knn k = {k} r = {lim:?}");
            let Ok(got) = got else {
                return Err(all(Fail(format!("{what} gave {got:?}")), &s, &q));
            };
            sc.nearest(&got, k, lim, false, &what).map_err(|e| all(e, &s, &q))?;
            ctx.count("find_r_checked", 1);
            ctx.count("knn_checked", 1);
            ctx.count("results_checked", got.len() as u64);
            ctx.see(got.len() as u64);
        }
        let n = if ctx.rng.chance(1, 2) { usize::MAX } else { ctx.rng.below(s.data.len() + 1) };
        let got = s.tree.sorted(&g, n);
        sc.nearest(&got, n, None, false, "sorted").map_err(|e| all(e, &s, &q))?;
        ctx.count("sorted_checked", 1);
        ctx.count("results_checked", got.len() as u64);
        for h in got.iter().take(20) {
            ctx.see(h.id as u64);
        }
        if matches!(q, Shape::Rc(..)) {
            ctx.count("rect_comparators", 1);
        }
    }
    if ctx.want_desc {
        ctx.desc = s.describe();
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 4) { run::<f32>(ctx) } else { run::<f64>(ctx) }
}

fn main() {
    runner::main("C09", case)
}
