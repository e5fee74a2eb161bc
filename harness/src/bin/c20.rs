//! C20: searches examine only cells that can matter. Every datum counts how
//! often the library asks for its position or geometry.
use qtmon::model::Cell;
use qtmon::*;
use quadtree::CalcMethod;
use std::collections::HashMap;
use std::sync::atomic::Ordering::Relaxed;

fn reset<T: Num>(items: &[&Item<T>]) {
    for i in items {
        i.asked_pt.store(0, Relaxed);
        i.asked_geom.store(0, Relaxed);
    }
}
/// (asked for anything, asked for its geometry)
fn asked<T: Num>(i: &Item<T>) -> (u32, u32) {
    let g = i.asked_geom.load(Relaxed);
    (g + i.asked_pt.load(Relaxed), g)
}

/// An exact frame on the sphere.
fn sphere_frame<T: Num>(r: &mut Rng) -> Frame {
    let (lo, hi) = *r.pick(&[
        ([-2.0, -1.0], [2.0, 1.0]),
        ([0.0, 0.0], [1.0, 1.0]),
        ([-3.0, -1.5], [1.0, 0.5]),
        ([1.0, -1.0], [3.0, 1.0]),
        ([-0.125, 0.5], [0.125, 0.75]),
    ]);
    Frame {
        lo,
        hi,
        exact: true,
        int: false,
        bits: 8,
        max_depth: if T::NAME == "f32" { 12 } else { 30 },
        name: "exact-sphere",
    }
}

fn run<T: Flt>(ctx: &mut Ctx) -> Res {
    let sph = ctx.rng.chance(1, 3);
    let f = if sph { sphere_frame::<T>(&mut ctx.rng) } else { exact_frame::<T>(&mut ctx.rng) };
    let m = if sph { CalcMethod::Spherical } else { CalcMethod::Euclidean };
    let w = which(&mut ctx.rng);
    let mut c = cfg(&mut ctx.rng, f.max_depth);
    if ctx.rng.chance(1, 2) {
        c = Cfg {
            depth: (3 + ctx.rng.below(6) as u8).min(f.max_depth),
            children: 1 + ctx.rng.below(4),
            default: false,
        };
    }
    let mut n = how_many(&mut ctx.rng, c, ctx.small).min(400);
    let kinds = if w == Which::Bounds && ctx.rng.chance(1, 2) { vec![Kind::Pt] } else { datum_kinds(&mut ctx.rng, w) };
    if kinds != [Kind::Pt] {
        n = n.min(80);
    } else {
        n = crowd(&mut ctx.rng, c, ctx.small, n, 600, 4000);
    }
    let mut pl = Places::new(&mut ctx.rng, &f);
    let mut s = Scene::<T>::new(f.clone(), c, w, m);
    fill(ctx, &mut s, &mut pl, &kinds, n)?;
    let desc = s.describe();
    ctx.desc = desc.clone();
    let at = |e: Fail| Fail(format!("{}; {desc}", e.0));

    let boxes: Vec<(u32, (P, P))> = s.data.iter().map(|(i, d)| (*i, d.bbox().unwrap())).collect();
    let Some(model) = Cell::tree::<T>(w, &f, &c, &boxes) else { return Ok(()) };
    let mut homes = vec![];
    model.homes(&mut homes);
    let home: HashMap<u32, ((P, P), u8)> = homes.into_iter().map(|(i, b, d)| (i, (b, d))).collect();
    let items = s.tree.items();
    if items.len() != s.data.len() {
        return Err(at(Fail(format!("{} data stored, {} iterated", s.data.len(), items.len()))));
    }

    // what building took
    for i in &items {
        let (a, _) = asked(*i);
        let d = home[&i.id].1 as u32;
        let most = 8 * (d + 3);
        if a > most {
            return Err(at(Fail(format!(
                "building the tree asked datum {} at depth {d} for its position {a} times, {} data in all",
                i.id,
                n
            ))));
        }
        ctx.max("max_asked_per_level_while_building_permille", (a * 1000 / (d + 3)) as u64);
    }
    ctx.count("data_built_in", n as u64);

    // size, iteration, display and retrieve look at no stored datum
    reset(&items);
    s.tree.size();
    s.tree.ids();
    s.tree.show();
    for j in 0..6 {
        let k = if w == Which::Point { Kind::Pt } else { kind(&mut ctx.rng) };
        let mut q = pl.shape::<T>(&mut ctx.rng, k);
        if j == 0 && n > 0 {
            q = ctx.rng.pick(&s.data).1.clone();
        }
        if j == 1 && w == Which::Bounds {
            q = Shape::Rc(f.lo, f.hi);
        }
        let got = s.tree.retrieve(&Item::new(u32::MAX, &q));
        if let Some(i) = items.iter().find(|i| asked(**i).0 > 0) {
            return Err(at(Fail(format!("size, iteration, display or retrieve({}) asked stored datum {} for its position", q.show(), i.id))));
        }
        ctx.count("retrieves_watched", 1);
        ctx.see(got.len() as u64);
    }

    // searches
    for _ in 0..4 {
        let q = if sph {
            Shape::Pt(pl.inside::<T>(&mut ctx.rng))
        } else {
            let k = if ctx.rng.chance(1, 2) { Kind::Pt } else { kind(&mut ctx.rng) };
            pl.shape::<T>(&mut ctx.rng, k)
        };
        let g = q.geometry::<T>();
        // distance of each datum's cell
        let cell: HashMap<u32, f64> = home
            .iter()
            .map(|(i, (b, _))| {
                let d = match (&q, sph) {
                    (Shape::Pt(p), true) => sph_pt_rect(*p, b.0, b.1),
                    _ => euclid(&q, &Shape::Rc(b.0, b.1)),
                };
                (*i, d)
            })
            .collect();
        let slack = |d: f64| {
            if sph {
                64.0 * T::EPS + 2.0 * angle_tol(d, T::EPS)
            } else {
                etol::<T>(&f)
            }
        };
        let watch = |ctx: &mut Ctx, limit: f64, what: String| -> Res {
            let mut looked = 0;
            for i in &items {
                if asked(*i).0 == 0 {
                    continue;
                }
                looked += 1;
                let d = cell[&i.id];
                ensure!(
                    d <= limit + slack(d),
                    "{what} examined datum {}, whose cell {:?} is at {d:?} from {}, beyond {limit:?}",
                    i.id,
                    home[&i.id],
                    q.show()
                );
            }
            ctx.count("searches_watched", 1);
            ctx.count("data_examined", looked);
            ctx.count("data_left_alone", items.len() as u64 - looked);
            ctx.see(looked);
            if items.len() as u64 > looked {
                ctx.nontrivial = true;
            }
            Ok(())
        };
        let wid = f.w(0).max(f.w(1));
        for _ in 0..3 {
            let r = T::of(match ctx.rng.below(5) {
                0 => f64::INFINITY,
                1 => 0.0,
                2 => wid * 0.01,
                _ => wid * ctx.rng.unit(),
            });
            let k = if ctx.rng.chance(1, 2) { 1 + ctx.rng.below(4) } else { 1 + ctx.rng.below(n + 1) };
            reset(&items);
            match s.tree.knn_r(&g, k, r) {
                Ok(v) => {
                    let lim = if v.len() == k { v[k - 1].d } else { r.f() };
                    watch(ctx, lim, format!("knn_r(k = {k}, r = {:?})", r.f())).map_err(at)?;
                }
                Err(e) => return Err(at(Fail(format!("knn_r at {} gave {e:?}", q.show())))),
            }
            reset(&items);
            let _ = s.tree.find_r(&g, r);
            watch(ctx, r.f(), format!("find_r(r = {:?})", r.f())).map_err(at)?;
            reset(&items);
            let v = s.tree.sorted(&g, k);
            if v.len() == k {
                watch(ctx, v[k - 1].d, format!("the first {k} of sorted")).map_err(at)?;
            }
        }
    }
    if ctx.want_desc {
        ctx.desc = s.describe();
    }
    Ok(())
}

/// On a large, evenly filled tree find looks at a small part of the data.
fn fraction<T: Flt>(ctx: &mut Ctx) -> Res {
    let sph = ctx.rng.chance(1, 4);
    let w = which(&mut ctx.rng);
    let c = Cfg {
        depth: *ctx.rng.pick(&[8, 10, 16]),
        children: 1 + ctx.rng.below(8),
        default: false,
    };
    let n = 2000 + ctx.rng.below(2000);
    let f = Frame {
        lo: [-1.0, -1.0],
        hi: [1.0, 1.0],
        exact: false,
        int: false,
        bits: 0,
        max_depth: 255,
        name: "even",
    };
    let m = if sph { CalcMethod::Spherical } else { CalcMethod::Euclidean };
    let mut s = Scene::<T>::new(f, c, w, m);
    for _ in 0..n {
        let p = [0, 1].map(|_| T::of(ctx.rng.uniform(-1.0, 1.0)).f());
        s.add(Shape::Pt(p))?;
    }
    ctx.desc = format!("{n} even data, {w:?} {c:?} spherical {sph}");
    let items = s.tree.items();
    for _ in 0..12 {
        let p = [0, 1].map(|_| {
            T::of(if ctx.rng.chance(1, 3) { *ctx.rng.pick(&[-1.0, 0.0, 1.0]) } else { ctx.rng.uniform(-1.0, 1.0) }).f()
        });
        reset(&items);
        let g = Shape::Pt(p).geometry::<T>();
        let got = s.tree.find(&g);
        ensure!(got.is_ok(), "find at {p:?} gave {got:?}");
        let looked = items.iter().filter(|i| asked(**i).0 > 0).count();
        ensure!(
            looked <= n / 2,
            "find at {p:?} examined {looked} of {n} evenly spread data; {}",
            ctx.desc
        );
        ctx.max("max_permille_of_even_data_examined_by_find", (looked * 1000 / n) as u64);
        ctx.count("finds_on_even_trees", 1);
        ctx.see(looked as u64);
        ctx.nontrivial = true;
    }
    Ok(())
}

/// CPU time of this thread.
fn my_cpu() -> f64 {
    #[repr(C)]
    struct Spec {
        sec: i64,
        nsec: i64,
    }
    unsafe extern "C" {
        fn clock_gettime(id: i32, t: *mut Spec) -> i32;
    }
    let mut t = Spec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    let rc = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(rc, 0);
    t.sec as f64 + t.nsec as f64 / 1e9
}

/// CPU time of draining sorted and of one knn over a single cell of n data.
fn drain<T: Flt>(r: &mut Rng, w: Which, n: usize) -> (f64, f64) {
    let c = Cfg {
        depth: 1,
        children: usize::MAX,
        default: false,
    };
    let f = Frame {
        lo: [-1.0, -1.0],
        hi: [1.0, 1.0],
        exact: false,
        int: false,
        bits: 0,
        max_depth: 255,
        name: "one cell",
    };
    let mut t = Tree::<T>::new(w, &f, CalcMethod::Euclidean, c);
    for i in 0..n {
        let p = [r.uniform(-1.0, 1.0), r.uniform(-1.0, 1.0)];
        let _ = t.insert(Item::new(i as u32, &Shape::Pt(p)));
    }
    let g = Shape::Pt([0.1, 0.2]).geometry::<T>();
    let mut best = (f64::INFINITY, f64::INFINITY);
    for _ in 0..3 {
        let a = my_cpu();
        assert!(t.sorted(&g, usize::MAX).len() <= n);
        let b = my_cpu();
        let _ = t.knn(&g, n);
        best = (best.0.min(b - a), best.1.min(my_cpu() - b));
    }
    best
}

/// Eight times the data takes about eight times as long, not sixty-four times.
fn growth<T: Flt>(ctx: &mut Ctx) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let w = which(&mut ctx.rng);
    let (n, k) = (8_000, 8);
    let small = drain::<T>(&mut ctx.rng, w, n);
    let large = drain::<T>(&mut ctx.rng, w, n * k);
    // only a cost that is also large in absolute terms counts
    for (what, a, b) in [("draining sorted", small.0, large.0), ("knn of all data", small.1, large.1)] {
        let ratio = b / a.max(1e-6);
        ctx.desc = format!("{what}, {w:?} tree: {n} data {a:.4} s, {} data {b:.4} s, ratio {ratio:.1}", n * k);
        ensure!(!(ratio > 30.0 && b > 0.5), "{}", ctx.desc);
        ctx.max("max_cost_ratio_for_eight_times_the_data_x10", (ratio * 10.0) as u64);
        ctx.count("growth_measured", 1);
    }
    ctx.nontrivial = true;
    ctx.see(ctx.index);
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    if ctx.index % 4000 == 1000 && !ctx.small {
        return any_flt!(ctx, growth);
    }
    if ctx.rng.chance(1, 100) && !ctx.small {
        return any_flt!(ctx, fraction);
    }
    any_flt!(ctx, run)
}

fn main() {
    runner::main("C20", case)
}
