//! C06: find and find_r return a nearest datum (Euclidean).
use qtmon::*;
use quadtree::CalcMethod;

fn run<T: Flt>(ctx: &mut Ctx) -> Res {
    let (mut s, mut pl) = euclid_scene::<T>(ctx, CalcMethod::Euclidean)?;
    ctx.desc = s.describe();
    let kinds = datum_kinds(&mut ctx.rng, s.which);
    let phases = 1 + ctx.rng.below(2);
    for phase in 0..phases {
        if phase > 0 {
            let more = ctx.rng.below(20);
            let more = if s.c.depth > 100 { more.min(5) } else { more };
            fill(ctx, &mut s, &mut pl, &kinds, more)?;
        }
        let asks = if s.data.len() > 200 { 3 } else { 6 };
        for _ in 0..asks {
            let q = comparator::<T>(&mut ctx.rng, &mut pl, &s.data);
            if meets(&s.f, &q) != Some(true) {
                continue;
            }
            ask(ctx, &s, &q)?;
        }
        // a comparator right on a vertex of a datum, with r = 0
        if !s.data.is_empty() {
            let vs = ctx.rng.pick(&s.data).1.vertices();
            let v = *ctx.rng.pick(&vs);
            let g = Shape::Pt(v).geometry::<T>();
            let got = s.tree.find_r(&g, T::of(0.0));
            match got {
                Ok(h) => {
                    ensure!(h.d == 0.0, "find_r({v:?}, 0) returned distance {:?}; {}", h.d, s.describe());
                    let d = &s.data[h.id as usize].1;
                    ensure!(euclid(&Shape::Pt(v), d) <= etol::<T>(&s.f), "find_r({v:?}, 0) returned {} which is not there; {}", d.show(), s.describe());
                }
                Err(e) => fail!("find_r({v:?}, 0) gave {e:?} though a datum is at {v:?}; {}", s.describe()),
            }
            ctx.count("zero_radius_on_a_datum", 1);
        }
    }
    if ctx.want_desc {
        ctx.desc = s.describe();
    }
    Ok(())
}

fn ask<T: Flt>(ctx: &mut Ctx, s: &Scene<T>, q: &Shape) -> Res {
    let g = q.geometry::<T>();
    let scan = s.scan(q);
    let what = |w: &str| format!("{w} for {} ; {}", q.show(), s.describe());
    let got = s.tree.find(&g);
    scan.find(&got, None, false, "find").map_err(|e| Fail(format!("{} {}", e.0, what("find"))))?;
    ctx.count("find_checked", 1);
    if let Ok(h) = got {
        ctx.see(h.id as u64);
        ctx.see_f(h.d);
        ctx.nontrivial |= s.data.len() > 1;
    }
    for _ in 0..3 {
        let r = s.radius(&mut ctx.rng, &scan);
        let got = s.tree.find_r(&g, T::of(r));
        scan.find(&got, Some(r), false, &format!("find_r r={r:?}"))
            .map_err(|e| Fail(format!("{} {}", e.0, what("find_r"))))?;
        ctx.count("find_r_checked", 1);
        if got.is_ok() {
            ctx.count("find_r_found", 1);
        } else {
            ctx.count("find_r_none", 1);
        }
    }
    Ok(())
}

/// Radii that are exactly the distance of the nearest datum.
fn inclusive<T: Flt>(ctx: &mut Ctx) -> Res {
    let f = loop {
        let f = exact_frame::<T>(&mut ctx.rng);
        if f.w(0) == f.w(1) {
            break f;
        }
    };
    let w = which(&mut ctx.rng);
    let mut c = cfg(&mut ctx.rng, f.max_depth);
    c.depth = c.depth.min(12);
    let n = how_many(&mut ctx.rng, c, ctx.small).min(80);
    let mut s = Scene::<T>::new(f.clone(), c, w, CalcMethod::Euclidean);
    let mut pl = Places::new(&mut ctx.rng, &f);
    fill(ctx, &mut s, &mut pl, &[Kind::Pt], n)?;
    for _ in 0..6 {
        let q = if n > 0 && ctx.rng.chance(1, 3) {
            // level with some datum
            let mut q = pl.inside::<T>(&mut ctx.rng);
            let k = ctx.rng.below(2);
            q[k] = ctx.rng.pick(&s.data).1.bbox().unwrap().0[k];
            q
        } else {
            pl.inside::<T>(&mut ctx.rng)
        };
        let cmp = Shape::Pt(q);
        let scan = s.scan(&cmp);
        for r in exact_radii(&mut ctx.rng, &f, &s.data, q) {
            let got = s.tree.find_r(&cmp.geometry::<T>(), T::of(r));
            scan.find(&got, Some(r), true, &format!("find_r({q:?}, r = {r:?} exactly)"))
                .map_err(|e| Fail(format!("{} {}", e.0, s.describe())))?;
            ctx.count("inclusive_radius_checked", 1);
            ctx.nontrivial = true;
            ctx.see_f(r);
            ctx.see_f(q[0]);
        }
    }
    Ok(())
}

/// Down to the smallest numbers.
fn deep<T: Flt>(ctx: &mut Ctx) -> Res {
    let (s, qs) = abyss::<T>(ctx, CalcMethod::Euclidean)?;
    for q in qs {
        ask(ctx, &s, &Shape::Pt(q))?;
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(60) {
        0 => return sizeless(ctx, Ask::Find),
        1..=4 => return any_flt!(ctx, deep),
        _ => {}
    }
    if ctx.rng.chance(1, 5) {
        any_flt!(ctx, inclusive)
    } else {
        any_flt!(ctx, run)
    }
}

fn main() {
    runner::main("C06", case)
}
