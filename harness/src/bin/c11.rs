//! C11: Euclidean distances are right for every pair of geometry kinds.
use qtmon::routes::*;
use qtmon::*;

/// A second shape in a chosen relation to the first.
fn partner<T: Flt>(r: &mut Rng, pl: &mut Places, s: &Shape, k: Kind) -> (Shape, &'static str) {
    let f = pl.f.clone();
    let (lo, hi) = s.bbox().unwrap();
    let snap = |p: P| -> P {
        [0, 1].map(|a| {
            let v = if f.exact {
                f.lo[a] + ((p[a] - f.lo[a]) / f.step(a)).round() * f.step(a)
            } else {
                p[a]
            };
            T::of(v.clamp(f.lo[a], f.hi[a])).f().clamp(f.lo[a], f.hi[a])
        })
    };
    // a frame for the partner: the whole, within the box, around it, beside it,
    // or within a hole
    let (a, b, name): (P, P, &'static str) = match r.below(8) {
        0 | 1 => (f.lo, f.hi, "anywhere"),
        2 => (lo, hi, "in-box"),
        3 => {
            let q = [0, 1].map(|i| lo[i] + (hi[i] - lo[i]) * 0.25);
            let p = [0, 1].map(|i| lo[i] + (hi[i] - lo[i]) * 0.75);
            (q, p, "middle")
        }
        4 => {
            // beside, sharing an edge line of the box
            let i = r.below(2);
            let mut a = f.lo;
            let mut b = f.hi;
            if r.chance(1, 2) { a[i] = hi[i] } else { b[i] = lo[i] }
            (a, b, "beside")
        }
        5 => {
            let i = r.below(2);
            let mut a = lo;
            let mut b = hi;
            if r.chance(1, 2) {
                a[i] = hi[i];
                b[i] = f.hi[i]
            } else {
                a[i] = f.lo[i];
                b[i] = lo[i]
            }
            (a, b, "across")
        }
        6 => match s {
            Shape::Pg(_, h) if !h.is_empty() => {
                let h = Shape::Pg(r.pick(h).clone(), vec![]);
                let (l, u) = h.bbox().unwrap();
                let m = if r.chance(1, 2) { 0.3 } else { 0.0 };
                (
                    [0, 1].map(|i| l[i] + (u[i] - l[i]) * m),
                    [0, 1].map(|i| u[i] - (u[i] - l[i]) * m),
                    "in-hole",
                )
            }
            _ => (lo, hi, "in-box"),
        },
        _ => {
            // a vertex of the one is a vertex (or on an edge) of the other
            let vs = s.vertices();
            let v = *r.pick(&vs);
            let w = *r.pick(&vs);
            let m = snap([(v[0] + w[0]) / 2.0, (v[1] + w[1]) / 2.0]);
            let v = if r.chance(1, 2) { v } else { m };
            let other = pl.inside::<T>(r);
            return match k {
                Kind::Pt => (Shape::Pt(v), "shared-vertex"),
                Kind::Ln => (Shape::Ln(v, other), "shared-vertex"),
                Kind::Ls => (Shape::Ls(vec![other, v, pl.inside::<T>(r)]), "shared-vertex"),
                _ => (
                    Shape::Rc(
                        [v[0].min(other[0]), v[1].min(other[1])],
                        [v[0].max(other[0]), v[1].max(other[1])],
                    ),
                    "shared-vertex",
                ),
            };
        }
    };
    let (a, b) = (snap(a), snap(b));
    let mut g = f.clone();
    g.lo = a;
    g.hi = b;
    if f.exact {
        // keep to the grid: choose positions by rejection of the whole frame
        let inner = |r: &mut Rng| -> P {
            [0, 1].map(|i| {
                let n = ((b[i] - a[i]) / f.step(i)).round() as usize;
                a[i] + f.step(i) * r.below(n + 1) as f64
            })
        };
        let (p, q) = (inner(r), inner(r));
        let bx = ([p[0].min(q[0]), p[1].min(q[1])], [p[0].max(q[0]), p[1].max(q[1])]);
        let s = match k {
            Kind::Pt => Shape::Pt(p),
            Kind::Ln => Shape::Ln(p, q),
            Kind::Ls => Shape::Ls(vec![p, q, inner(r)]),
            Kind::Rc => Shape::Rc(bx.0, bx.1),
            Kind::Pg => {
                let s = if r.chance(1, 2) { poly_box(r, bx.0, bx.1, false) } else { polygon_in(r, bx.0, bx.1) };
                let s = s.map(&mut |p| snap(p));
                if !valid_polygon(&s) {
                    return (Shape::Rc(bx.0, bx.1), name);
                }
                redundant::<T>(r, &f, s)
            }
        };
        return (s, name);
    }
    if a[0] >= b[0] || a[1] >= b[1] {
        return (pl.shape::<T>(r, k), "anywhere");
    }
    let mut p = Places::new(r, &g);
    (p.shape::<T>(r, k), name)
}

fn run<T: Flt>(ctx: &mut Ctx) -> Res {
    let f = any_frame::<T>(&mut ctx.rng, true);
    // a grid coarse enough for the library's predicates to be exact in T
    let exact = f.exact && f.bits <= if T::NAME == "f32" { 8 } else { 16 };
    let mut pl = Places::new(&mut ctx.rng, &f);
    for _ in 0..12 {
        let (ka, kb) = (kind(&mut ctx.rng), kind(&mut ctx.rng));
        let s = pl.shape::<T>(&mut ctx.rng, ka);
        let (t, rel) = partner::<T>(&mut ctx.rng, &mut pl, &s, kb);
        let kb = t.kind();
        let ka = s.kind();
        let d = euclid(&s, &t);
        let tol = etol::<T>(&f);
        let what = || format!("{} between {} and {} ({rel}, frame {:?})", T::NAME, s.show(), t.show(), f);
        let meet = exact.then(|| meets_exact(&s, &t, f.lo, [f.step(0), f.step(1)]));
        if let Some(m) = meet {
            assert!(!m || d <= tol, "oracles disagree: {}", what());
            assert!(m || d > 0.0, "oracles disagree: {}", what());
        }
        for (dir, x, y) in [("", &s, &t), (" (swapped)", &t, &s)] {
            for (route, v) in euclid_routes::<T>(x, y) {
                let Ok(v) = v else { fail!("{route}{dir} gave {v:?} {}", what()) };
                ensure!(v >= 0.0, "{route}{dir} gave {v:?} {}", what());
                ensure!(
                    (v - d).abs() <= tol,
                    "{route}{dir} gave {v:?}, the distance is {d:?} {}",
                    what()
                );
                if let Some(m) = meet {
                    ensure!(
                        (v == 0.0) == m,
                        "{route}{dir} gave {v:?}, but the shapes {} {}",
                        if m { "meet" } else { "do not meet" },
                        what()
                    );
                }
                ctx.count("route_values_checked", 1);
            }
        }
        ctx.count("pairs_checked", 1);
        match meet {
            Some(true) => ctx.count("meeting_decided_exactly", 1),
            Some(false) => ctx.count("apart_decided_exactly", 1),
            None => {}
        }
        ctx.see(ka as u64 * 8 + kb as u64);
        ctx.see_f(d);
        ctx.nontrivial = true;
        if ctx.want_desc {
            ctx.desc = what();
        }
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    any_flt!(ctx, run)
}

fn main() {
    runner::main("C11", case)
}
