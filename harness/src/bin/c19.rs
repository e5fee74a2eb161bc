//! C19: deep and large trees do not exhaust the stack.
//!
//! Meant to run unoptimised. Every scenario runs on a thread whose stack has a
//! size that depends on max_depth only; overflowing it kills the process, which
//! the driver observes and attributes by replaying the case.
use qtmon::runner::guarded;
use qtmon::*;
use quadtree::*;
use std::cell::Cell;

thread_local! {
    static BASE: Cell<usize> = const { Cell::new(0) };
    static DEEP: Cell<usize> = const { Cell::new(0) };
}

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x as *const u8 as usize)
}

/// A datum that notes how deep the stack is whenever it is looked at.
struct D<T: Num> {
    id: u32,
    g: quadtree::Geometry<T>,
}
fn note() {
    let base = BASE.with(|b| b.get());
    if base != 0 {
        let used = base.saturating_sub(here());
        DEEP.with(|d| d.set(d.get().max(used)));
    }
}
impl<T: Num> AsPoint<T> for D<T> {
    fn as_point(&self) -> geo::Point<T> {
        note();
        match &self.g {
            quadtree::Geometry::Point(p) => *p,
            _ => geo::Point::new(T::zero(), T::zero()),
        }
    }
}
impl<T: Num> AsGeom<T> for D<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        note();
        self.g.as_geom()
    }
}
impl<T: Num> Drop for D<T> {
    fn drop(&mut self) {
        note();
    }
}

#[derive(Debug, Clone)]
struct Plan {
    layout: &'static str,
    which: Which,
    spherical: bool,
    depth: u8,
    children: usize,
    n: usize,
    stack: usize,
    pts: Vec<P>,
    half: f64,
    cmps: Vec<P>,
    /// how much of the costlier queries to consume
    take: usize,
}

fn layout(ctx: &mut Ctx) -> Plan {
    let r = &mut ctx.rng;
    let spherical = r.chance(1, 4);
    let which = which(r);
    let big = ctx.thorough;
    // frame: [-1, 1] squared
    let mut p = Plan {
        layout: "",
        which,
        spherical,
        depth: 0,
        children: 1,
        n: 0,
        stack: 0,
        pts: vec![],
        half: 0.0,
        cmps: vec![],
        take: usize::MAX,
    };
    let uni = |r: &mut Rng| [r.uniform(-1.0, 1.0), r.uniform(-1.0, 1.0)];
    match r.below(10) {
        // all data in one place
        0 => {
            p.layout = "coincident";
            p.depth = *r.pick(&[255, 255, 254, 128, 60]);
            p.children = *r.pick(&[0, 1, 4]);
            p.n = *r.pick(&[300, 1000, 3000]);
            if big {
                p.n *= 8;
            }
            let c = uni(r);
            p.pts = vec![c; p.n];
            p.take = 2000;
        }
        // pairs of data that only part at the bottom
        1 => {
            p.layout = "pairs";
            p.depth = 255;
            p.children = 1;
            p.n = 2 * *r.pick(&[4, 8, 16]);
            for _ in 0..p.n / 2 {
                let c = uni(r);
                p.pts.push(c);
                p.pts.push(c);
            }
            p.take = 3;
        }
        // equally far from the middle: nearly every cell is opened before the first result
        2 | 3 => {
            p.layout = "ring";
            p.depth = *r.pick(&[10, 14, 20]);
            p.children = *r.pick(&[1, 2]);
            p.n = *r.pick(&[300, 700, 1200]);
            if big {
                p.n *= 2;
            }
            let q = r.uniform(0.3, 0.99);
            for i in 0..p.n {
                let a = i as f64 / p.n as f64 * std::f64::consts::TAU;
                p.pts.push([a.cos() * q, a.sin() * q]);
            }
            p.cmps.push([0.0, 0.0]);
            p.take = 50;
        }
        // one leaf holding everything
        4 => {
            p.layout = "one-cell";
            p.depth = *r.pick(&[0, 1, 8]);
            p.children = usize::MAX;
            p.n = *r.pick(&[20_000, 100_000]);
            p.pts = (0..p.n).map(|_| uni(r)).collect();
        }
        // ever closer to a corner
        5 => {
            p.layout = "corner";
            p.depth = 255;
            p.children = *r.pick(&[1, 2]);
            p.n = *r.pick(&[100, 400]);
            let s = *r.pick(&[1.0, -1.0]);
            // halves towards the corner at (s, s), or towards the middle
            let to_mid = r.chance(1, 2);
            for i in 0..p.n {
                let e = 0.5f64.powi((i % 250) as i32 + 1);
                p.pts.push(if to_mid { [e * s, e * s] } else { [s - s * e, s - s * e] });
            }
            p.take = 100;
        }
        // very many data in few cells
        8 => {
            p.layout = "crowded";
            p.depth = *r.pick(&[1, 1, 2, 3]);
            p.children = *r.pick(&[0, 1, 4, 1000]);
            p.n = *r.pick(&[10_000, 40_000]);
            if r.chance(1, 2) {
                p.pts = (0..p.n).map(|_| uni(r)).collect();
            } else {
                let spots = (0..1 + r.below(3)).map(|_| uni(r)).collect::<Vec<_>>();
                p.pts = (0..p.n).map(|_| *r.pick(&spots)).collect();
            }
            p.take = 2000;
        }
        // a large, evenly filled tree
        6 | 7 => {
            p.layout = "even";
            p.depth = *r.pick(&[8, 12, 30, 255]);
            p.children = *r.pick(&[1, 4, 16]);
            p.n = *r.pick(&[3000, 10_000]);
            if big {
                p.n *= 10;
            }
            p.pts = (0..p.n).map(|_| uni(r)).collect();
            p.take = 40;
        }
        // every cell the same: data on a grid, many of them on split lines
        _ => {
            p.layout = "grid";
            let k = *r.pick(&[16, 32, 64]);
            p.depth = *r.pick(&[6, 10, 255]);
            p.children = 1;
            for i in 0..=k {
                for j in 0..=k {
                    p.pts.push([i as f64 / k as f64 * 2.0 - 1.0, j as f64 / k as f64 * 2.0 - 1.0]);
                }
            }
            p.n = p.pts.len();
            p.take = 40;
        }
    }
    if which == Which::Bounds && r.chance(1, 2) {
        p.half = *r.pick(&[1e-9, 1e-4, 0.05]);
    }
    if p.cmps.is_empty() || r.chance(1, 2) {
        p.cmps.push(uni(r));
    }
    p.cmps.push(*r.pick(&p.pts));
    // a function of the depth limit alone, and never more than a thread's default
    p.stack = ((192 + 8 * p.depth as usize).min(2048)) << 10;
    if let Ok(k) = std::env::var("QTMON_STACK_KIB") {
        p.stack = k.parse::<usize>().unwrap() << 10;
    }
    p
}

fn go<T: Flt, Y>(p: &Plan, mut t: Y, r: &mut Rng) -> Result<Vec<u64>, Fail>
where
    for<'x> &'x Y: IntoIterator<Item = &'x D<T>>,
    Y: QuadTree<D<T>, T> + QuadTreeSearch<D<T>, T> + std::fmt::Display,
{
    let mut seen = vec![];
    let datum = |i: usize, c: P| {
        let lo = [0, 1].map(|k| (c[k] - p.half).max(-1.0));
        let hi = [0, 1].map(|k| (c[k] + p.half).min(1.0));
        D {
            id: i as u32,
            g: if p.half > 0.0 { Shape::Rc(lo, hi).geometry::<T>() } else { Shape::Pt(c).geometry::<T>() },
        }
    };
    for (i, c) in p.pts.iter().enumerate() {
        let d = datum(i, *c);
        let ok = lib(|| t.insert(d)).is_ok();
        ensure!(ok, "insert of {c:?} refused");
    }
    ensure!(t.size() == p.n, "size {} after {} inserts", t.size(), p.n);
    let count = lib(|| (&t).into_iter().count());
    ensure!(count == p.n, "iteration yields {count} of {}", p.n);
    // (indentation alone takes depth times cells bytes)
    if p.n < 20_000 {
        let text = lib(|| t.to_string());
        seen.push(text.lines().count() as u64);
    }
    for c in &p.cmps {
        let g = Shape::Pt(*c).geometry::<T>();
        let ask = datum(0, *c);
        let got = lib(|| t.retrieve(&ask).count());
        seen.push(got as u64);
        // a box over several cells, or all of them; walked to the end and abandoned
        let e = *r.pick(&[0.1, 0.5, 1.0, 2.0]);
        let wide = D {
            id: 0,
            g: if p.half > 0.0 || r.chance(1, 2) {
                let lo = [0, 1].map(|k| (c[k] - e).max(-1.0));
                let hi = [0, 1].map(|k| (c[k] + e).min(1.0));
                Shape::Rc(lo, hi).geometry::<T>()
            } else {
                Shape::Pt(*c).geometry::<T>()
            },
        };
        if p.which == Which::Bounds {
            let got = match r.below(3) {
                0 => lib(|| t.retrieve(&wide).count()),
                1 => lib(|| t.retrieve(&wide).fold(0, |n, _| n + 1)),
                _ => lib(|| {
                    let mut it = t.retrieve(&wide);
                    let mut n = 0;
                    while it.next().is_some() {
                        n += 1;
                    }
                    n
                }),
            };
            ensure!(got <= p.n, "retrieve yields {got} of {}", p.n);
            let mut it = lib(|| t.retrieve(&wide));
            for i in 0..r.below(got + 1) {
                let x = lib(|| it.next().is_some());
                ensure!(x, "retrieve yields {i}, then {got}");
            }
            lib(|| drop(it));
            seen.push(got as u64);
        }
        let f = lib(|| t.find(&wide.g).map(|h| h.1.f()));
        let s = lib(|| t.sorted(&wide.g).take(p.take.min(30)).map(|h| h.1.f()).last());
        let kn = lib(|| t.knn(&wide.g, p.take.min(30)).map(|v| v.last().map(|h| h.1.f())));
        ensure!(
            f.is_ok() && kn.as_ref().is_ok_and(|k| k.is_some() && s.is_some()),
            "find, knn and sorted at {:?} gave {f:?}, {kn:?}, {s:?}",
            wide.g
        );
        let f = lib(|| t.find(&g).map(|h| h.1.f()));
        let Ok(f) = f else { fail!("find at {c:?} gave {:?}", f.err()) };
        let k = 1 + r.below(p.take.min(p.n));
        let kn = lib(|| t.knn(&g, k).map(|v| v.iter().map(|h| h.1.f()).collect::<Vec<_>>()));
        let Ok(kn) = kn else { fail!("knn at {c:?} gave {:?}", kn.err()) };
        ensure!(kn.len() == k.min(p.n), "knn of {k} gave {}", kn.len());
        let so = lib(|| t.sorted(&g).take(p.take).map(|h| h.1.f()).collect::<Vec<_>>());
        ensure!(so.len() == p.take.min(p.n), "sorted gave {} of {}", so.len(), p.take.min(p.n));
        ensure!(
            so[0] == f && kn[0] == f && so.iter().zip(&kn).all(|(a, b)| a == b),
            "find, knn and sorted disagree at {c:?}: {f:?}, {:?}, {:?}",
            &kn[..kn.len().min(4)],
            &so[..so.len().min(4)]
        );
        seen.push(f.to_bits());
        seen.push(k as u64);
    }
    {
        let mut it = (&t).into_iter();
        for _ in 0..r.below(p.n) {
            let x = lib(|| it.next().map(|d| d.id));
            ensure!(x.is_some(), "iteration ended early");
        }
    }
    lib(|| drop(t));
    Ok(seen)
}

fn run<T: Flt>(ctx: &mut Ctx) -> Res {
    let mut p = layout(ctx);
    for c in p.pts.iter_mut().chain(p.cmps.iter_mut()) {
        *c = c.map(|v| T::of(v).f());
    }
    ctx.desc = format!(
        "{} {:?} {} tree of {} data, max_depth {}, max_children {}, layout {}, half-width {}, stack {} KiB, first data {:?}, comparators {:?}",
        T::NAME,
        p.which,
        if p.spherical { "spherical" } else { "Euclidean" },
        p.n,
        p.depth,
        p.children,
        p.layout,
        p.half,
        p.stack >> 10,
        &p.pts[..p.pts.len().min(3)],
        p.cmps
    );
    let mut r = Rng::new(ctx.rng.next(), 19);
    let pl = p.clone();
    let (res, deep) = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(p.stack)
            .spawn_scoped(s, move || {
                BASE.with(|b| b.set(here()));
                DEEP.with(|d| d.set(0));
                let res = guarded(|| {
                    let b = rect::<T>([-1.0, -1.0], [1.0, 1.0]);
                    let m = if pl.spherical { CalcMethod::Spherical } else { CalcMethod::Euclidean };
                    match pl.which {
                        Which::Point => go(&pl, lib(|| PointQuadTree::<D<T>, T>::new(b, m, pl.depth, pl.children)), &mut r),
                        Which::Bounds => go(&pl, lib(|| BoundsQuadTree::<D<T>, T>::new(b, m, pl.depth, pl.children)), &mut r),
                    }
                });
                (res, DEEP.with(|d| d.get()))
            })
            .expect("spawn")
            .join()
            .expect("thread")
    });
    let seen = res.map_err(|e| Fail(format!("{}; {}", e.0, ctx.desc)))?;
    for v in seen {
        ctx.see(v);
    }
    ctx.see(p.n as u64);
    ctx.see_f(p.pts[0][0]);
    ctx.nontrivial = true;
    ctx.count("trees_survived", 1);
    ctx.count("data_inserted", p.n as u64);
    ctx.count(
        match p.layout {
            "coincident" => "layout_coincident",
            "pairs" => "layout_pairs",
            "ring" => "layout_ring",
            "one-cell" => "layout_one_cell",
            "corner" => "layout_corner",
            "even" => "layout_even",
            _ => "layout_grid",
        },
        1,
    );
    ctx.max("max_depth_limit", p.depth as u64);
    ctx.max("max_data", p.n as u64);
    ctx.max("max_stack_kib_seen_in_callbacks", deep as u64 >> 10);
    ctx.max("max_stack_permille_used", (deep * 1000 / p.stack) as u64);
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    any_flt!(ctx, run)
}

fn main() {
    runner::main("C19", case)
}
