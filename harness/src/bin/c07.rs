//! C07: knn and knn_r return exactly the k nearest data in order (Euclidean).
use qtmon::*;
use quadtree::CalcMethod;

fn pick_k(r: &mut Rng, n: usize) -> usize {
    match r.below(10) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 => n,
        5 => n + 1 + r.below(5),
        6 => usize::MAX,
        7 => n.saturating_sub(1),
        _ => r.below(n + 2),
    }
}

fn run<T: Flt>(ctx: &mut Ctx) -> Res {
    let (mut s, mut pl) = euclid_scene::<T>(ctx, CalcMethod::Euclidean)?;
    ctx.desc = s.describe();
    let kinds = datum_kinds(&mut ctx.rng, s.which);
    let phases = 1 + ctx.rng.below(2);
    for phase in 0..phases {
        if phase > 0 {
            let more = ctx.rng.below(if s.c.depth > 100 { 5 } else { 20 });
            fill(ctx, &mut s, &mut pl, &kinds, more)?;
        }
        let asks = if s.data.len() > 200 { 2 } else { 5 };
        for _ in 0..asks {
            let q = comparator::<T>(&mut ctx.rng, &mut pl, &s.data);
            if meets(&s.f, &q) != Some(true) {
                continue;
            }
            let g = q.geometry::<T>();
            let scan = s.scan(&q);
            for j in 0..4 {
                let k = pick_k(&mut ctx.rng, s.data.len());
                let r = s.radius(&mut ctx.rng, &scan);
                let (got, lim) = if j == 0 {
                    (s.tree.knn(&g, k), None)
                } else {
                    (s.tree.knn_r(&g, k, T::of(r)), Some(r))
                };
                let what = format!("knn k={k} r={lim:?} for {}", q.show());
                let got = match got {
                    Ok(v) => v,
                    Err(e) => fail!("{what} gave {e:?}; {}", s.describe()),
                };
                scan.nearest(&got, k, lim, false, &what)
                    .map_err(|e| Fail(format!("{}; {}", e.0, s.describe())))?;
                ctx.count(if j == 0 { "knn_checked" } else { "knn_r_checked" }, 1);
                ctx.count("results_checked", got.len() as u64);
                ctx.see(got.len() as u64);
                for h in got.iter().take(20) {
                    ctx.see(h.id as u64);
                    ctx.see_f(h.d);
                }
                ctx.nontrivial |= got.len() > 1;
            }
        }
    }
    if ctx.want_desc {
        ctx.desc = s.describe();
    }
    Ok(())
}

fn inclusive<T: Flt>(ctx: &mut Ctx) -> Res {
    let f = loop {
        let f = exact_frame::<T>(&mut ctx.rng);
        if f.w(0) == f.w(1) {
            break f;
        }
    };
    let w = which(&mut ctx.rng);
    let mut c = cfg(&mut ctx.rng, f.max_depth);
    c.depth = c.depth.min(12);
    let n = how_many(&mut ctx.rng, c, ctx.small).min(80);
    let mut s = Scene::<T>::new(f.clone(), c, w, CalcMethod::Euclidean);
    let mut pl = Places::new(&mut ctx.rng, &f);
    fill(ctx, &mut s, &mut pl, &[Kind::Pt], n)?;
    for _ in 0..6 {
        let mut q = pl.inside::<T>(&mut ctx.rng);
        if n > 0 && ctx.rng.chance(1, 2) {
            let k = ctx.rng.below(2);
            q[k] = ctx.rng.pick(&s.data).1.bbox().unwrap().0[k];
        }
        let cmp = Shape::Pt(q);
        let scan = s.scan(&cmp);
        for r in exact_radii(&mut ctx.rng, &f, &s.data, q) {
            let k = if ctx.rng.chance(1, 2) { usize::MAX } else { pick_k(&mut ctx.rng, n) };
            let got = s.tree.knn_r(&cmp.geometry::<T>(), k, T::of(r));
            let what = format!("knn_r({q:?}, k = {k}, r = {r:?} exactly)");
            let Ok(got) = got else { fail!("{what} gave {got:?}") };
            scan.nearest(&got, k, Some(r), true, &what)
                .map_err(|e| Fail(format!("{} {}", e.0, s.describe())))?;
            ctx.count("inclusive_radius_checked", 1);
            ctx.nontrivial = true;
            ctx.see_f(r);
            ctx.see(got.len() as u64);
        }
    }
    Ok(())
}

/// Down to the smallest numbers.
fn deep<T: Flt>(ctx: &mut Ctx) -> Res {
    let (s, qs) = abyss::<T>(ctx, CalcMethod::Euclidean)?;
    for q in qs {
        let q = Shape::Pt(q);
        let scan = s.scan(&q);
        let k = pick_k(&mut ctx.rng, s.data.len());
        for k in [k, usize::MAX] {
            let what = format!("knn k={k} for {}", q.show());
            let got = s.tree.knn(&q.geometry::<T>(), k);
            let Ok(got) = got else { fail!("{what} gave {got:?}; {}", s.describe()) };
            scan.nearest(&got, k, None, false, &what)
                .map_err(|e| Fail(format!("{}; {}", e.0, s.describe())))?;
            ctx.count("knn_checked", 1);
            ctx.see(got.len() as u64);
        }
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(60) {
        0 => return sizeless(ctx, Ask::Knn),
        1..=4 => return any_flt!(ctx, deep),
        _ => {}
    }
    if ctx.rng.chance(1, 5) {
        any_flt!(ctx, inclusive)
    } else {
        any_flt!(ctx, run)
    }
}

fn main() {
    runner::main("C07", case)
}
