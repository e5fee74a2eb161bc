//! C12: spherical distances are right and periodic in longitude.
use qtmon::routes::*;
use qtmon::sphere::*;
use qtmon::*;
use quadtree::{CalcMethod, Error};
use std::f64::consts::PI;

fn supported(s: &Shape, t: &Shape) -> bool {
    use Shape::*;
    matches!((s, t), (Pt(_), _) | (_, Pt(_)) | (Rc(..), Rc(..)))
}

/// What the distance may be, for either order of the arguments.
fn oracle<T: Flt>(s: &Shape, t: &Shape) -> Option<(f64, f64)> {
    spherical(s, t, T::EPS).or_else(|| spherical(t, s, T::EPS))
}

fn slack<T: Flt>(d: f64) -> f64 {
    2.0 * angle_tol(d, T::EPS) + 16.0 * T::EPS
}

fn in_range<T: Flt>(v: f64, r: (f64, f64)) -> bool {
    v >= r.0 - slack::<T>(r.0) && v <= r.1 + slack::<T>(r.1) && v >= 0.0 && v <= PI + 4.0 * T::EPS
}

fn check<T: Flt>(ctx: &mut Ctx, s: &Shape, t: &Shape) -> Res {
    let what = || format!("{} from {} to {}", T::NAME, s.show(), t.show());
    let want = if supported(s, t) { oracle::<T>(s, t) } else { None };
    // decided: certainly inside / certainly not
    let inside = match (s, t) {
        (Shape::Pt(p), Shape::Rc(a, b)) | (Shape::Rc(a, b), Shape::Pt(p)) => {
            Some((0..2).all(|k| a[k] <= p[k] && p[k] <= b[k]))
        }
        (Shape::Pt(p), a @ Shape::Pg(..)) | (a @ Shape::Pg(..), Shape::Pt(p)) => {
            let edge = a.segments().iter().map(|(u, v)| pt_seg(*p, *u, *v)).fold(f64::INFINITY, f64::min);
            (edge > 64.0 * T::EPS).then(|| a.area_contains(*p))
        }
        (Shape::Rc(a, b), Shape::Rc(c, d)) => Some((0..2).all(|k| a[k] <= d[k] && c[k] <= b[k])),
        _ => None,
    };
    for (dir, x, y) in [("", s, t), (" (swapped)", t, s)] {
        for (route, v) in spherical_routes::<T>(x, y) {
            ctx.count("route_values_checked", 1);
            match (want, v) {
                (None, Err(Error::InvalidDistance)) => ctx.count("unsupported_refused", 1),
                (Some(_), Err(Error::InvalidDistance)) if matches!(x, Shape::Ls(_)) => {}
                (Some(r), Ok(v)) => {
                    ensure!(
                        in_range::<T>(v, r),
                        "{route}{dir} gave {v:?}, expected {:?}..{:?} {}",
                        r.0,
                        r.1,
                        what()
                    );
                    match inside {
                        Some(true) => ensure!(v == 0.0, "{route}{dir} gave {v:?} though they meet {}", what()),
                        Some(false) if r.0 > slack::<T>(0.0) => {
                            ensure!(v > 0.0, "{route}{dir} gave 0 though they are apart {}", what())
                        }
                        _ => {}
                    }
                }
                (w, v) => fail!("{route}{dir} gave {v:?}, expected {w:?} {}", what()),
            }
        }
    }
    if let Some(w) = want {
        ctx.count("pairs_checked", 1);
        ctx.see_f(w.0);
        if w.0 != w.1 {
            ctx.count("ties_with_two_admissible_answers", 1);
        }
    }
    ctx.see(s.kind() as u64 * 8 + t.kind() as u64);
    ctx.nontrivial = true;
    Ok(())
}

/// A whole turn changes nothing, for points against points and lines.
fn periodic<T: Flt>(ctx: &mut Ctx, p: P, t: &Shape) -> Res {
    if !matches!(t, Shape::Pt(_) | Shape::Ln(..) | Shape::Ls(_)) {
        return Ok(());
    }
    let turn = 2.0 * PI * if ctx.rng.chance(1, 2) { 1.0 } else { -1.0 };
    let q = [T::of(p[0] + turn).f(), p[1]];
    let want = sph_pt_shape(q, t, T::EPS * 8.0);
    let orig = sph_pt_shape(p, t, T::EPS * 8.0);
    for (route, v) in spherical_routes::<T>(&Shape::Pt(q), t) {
        let Ok(v) = v else { fail!("{route} from {q:?} to {} gave {v:?}", t.show()) };
        // the shifted longitude is rounded
        let s = |d: f64| slack::<T>(d) + 16.0 * T::EPS;
        ensure!(
            v >= want.0 - s(want.0) && v <= want.1 + s(want.1) && v >= orig.0 - s(orig.0) && v <= orig.1 + s(orig.1),
            "{route}: {v:?} from {q:?} to {}, a whole turn away from {p:?}, where it is {orig:?}",
            t.show()
        );
    }
    ctx.count("whole_turn_shifts_checked", 1);
    Ok(())
}

fn none_method<T: Flt>(s: &Shape, t: &Shape) -> Res {
    let mut v: Routes = vec![];
    calc_routes::<T>(s, t, CalcMethod::None, &mut v);
    for (r, v) in v {
        ensure!(v == Err(Error::CalcMethodNotSet), "{r} without a method gave {v:?}");
    }
    Ok(())
}

fn small_rect<T: Flt>(r: &mut Rng, win: (f64, f64)) -> Shape {
    // near the window's seam, at the poles, or anywhere
    let h = PI / 2.0;
    let w = 10f64.powf(r.uniform(-4.0, 0.3));
    let v = 10f64.powf(r.uniform(-4.0, 0.0));
    let x = match r.below(4) {
        0 => win.0 + r.unit() * 0.5 * w,
        1 => win.1 - r.unit() * 0.5 * w,
        _ => r.uniform(win.0, win.1),
    };
    let y = match r.below(5) {
        0 => h - r.unit() * v,
        1 => -h + r.unit() * v,
        _ => r.uniform(-h, h),
    };
    Shape::Rc(
        [T::of(x.max(win.0)).f(), T::of(y.max(-h)).f()],
        [T::of((x + w).min(win.1)).f().max(T::of(x.max(win.0)).f()), T::of((y + v).min(h)).f()],
    )
}

fn run<T: Flt>(ctx: &mut Ctx) -> Res {
    let a = sframe::<T>(&mut ctx.rng);
    let b = loop {
        let b = sframe::<T>(&mut ctx.rng);
        if b.win == a.win {
            break b;
        }
    };
    let mut pa = Places::new(&mut ctx.rng, &a.f);
    let fb = if ctx.rng.chance(1, 3) { &a.f } else { &b.f };
    let mut pb = Places::new(&mut ctx.rng, fb);
    for i in 0..12 {
        let ka = if ctx.rng.chance(1, 2) { Kind::Pt } else { kind(&mut ctx.rng) };
        let kb = kind(&mut ctx.rng);
        let mut s = if ka == Kind::Rc && ctx.rng.chance(1, 2) {
            small_rect::<T>(&mut ctx.rng, a.win)
        } else {
            pa.shape::<T>(&mut ctx.rng, ka)
        };
        let t = if kb == Kind::Rc && ctx.rng.chance(1, 2) {
            small_rect::<T>(&mut ctx.rng, a.win)
        } else {
            pb.shape::<T>(&mut ctx.rng, kb)
        };
        if let (Kind::Pt, true) = (ka, ctx.rng.chance(1, 3)) {
            // special positions relative to a vertex of the other
            let vs = t.vertices();
            let v = *ctx.rng.pick(&vs);
            let o = if v[0] > (a.win.0 + a.win.1) / 2.0 { v[0] - PI } else { v[0] + PI };
            let q = match ctx.rng.below(6) {
                0 => v,
                1 => [o, -v[1]],
                2 => [o, v[1]],
                3 => [v[0], -v[1]],
                4 => [v[0], *ctx.rng.pick(&[PI / 2.0, -PI / 2.0])],
                _ => [*ctx.rng.pick(&[a.win.0, a.win.1]), v[1]],
            };
            s = Shape::Pt([
                T::of(q[0]).f().clamp(a.win.0, a.win.1),
                T::of(q[1]).f().clamp(T::of(-PI / 2.0).f(), T::of(PI / 2.0).f()),
            ]);
        }
        if ctx.want_desc {
            ctx.desc = format!("{} from {} to {}", T::NAME, s.show(), t.show());
        }
        check::<T>(ctx, &s, &t)?;
        if let Shape::Pt(p) = s {
            periodic::<T>(ctx, p, &t)?;
        }
        if i == 0 {
            none_method::<T>(&s, &t)?;
        }
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    any_flt!(ctx, run)
}

fn main() {
    runner::main("C12", case)
}
