//! C17: queries are pure, and may run on many threads at once.
use qtmon::runner::guarded;
use qtmon::*;
use quadtree::*;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicUsize, Ordering};

// ---- Is the tree Send / Sync? Decided at run time, so that losing either is
// a verdict and not a failure to compile.
struct Probe<X>(PhantomData<X>);
trait NotSync {
    fn is_sync(&self) -> bool {
        false
    }
}
trait NotSend {
    fn is_send(&self) -> bool {
        false
    }
}
impl<X> NotSync for &Probe<X> {}
impl<X> NotSend for &Probe<X> {}
impl<X: Sync> Probe<X> {
    fn is_sync(&self) -> bool {
        true
    }
}
impl<X: Send> Probe<X> {
    fn is_send(&self) -> bool {
        true
    }
}
macro_rules! shareable {
    ($($t:ty),* $(,)?) => { $(
        let p = &Probe::<$t>(PhantomData);
        ensure!(p.is_sync(), "{} is not Sync although its data are", stringify!($t));
        ensure!(p.is_send(), "{} is not Send although its data are", stringify!($t));
    )* };
}

fn traits() -> Res {
    shareable!(
        PointQuadTree<geo::Point<f64>, f64>,
        PointQuadTree<geo::Point<f32>, f32>,
        PointQuadTree<geo::Coord<f64>, f64>,
        PointQuadTree<geo::Point<i32>, i32>,
        PointQuadTree<geo::Point<i16>, i16>,
        PointQuadTree<geo::Point<i64>, i64>,
        PointQuadTree<geo::Point<i128>, i128>,
        PointQuadTree<geo::Point<isize>, isize>,
        PointQuadTree<Item<f64>, f64>,
        PointQuadTree<Item<f32>, f32>,
        BoundsQuadTree<geo::Point<f64>, f64>,
        BoundsQuadTree<geo::Rect<f32>, f32>,
        BoundsQuadTree<geo::Rect<i32>, i32>,
        BoundsQuadTree<geo::Rect<i64>, i64>,
        BoundsQuadTree<geo::Polygon<f64>, f64>,
        BoundsQuadTree<quadtree::Geometry<f64>, f64>,
        BoundsQuadTree<quadtree::Geometry<f32>, f32>,
        BoundsQuadTree<Item<f64>, f64>,
        BoundsQuadTree<Item<f32>, f32>,
        quadtree::Geometry<f64>,
        quadtree::GeometryRef<'static, f64>,
        CalcMethod,
        Error,
    );
    Ok(())
}

/// Lets the shared part compile whatever the probes say; only used after the
/// probes have found the tree shareable.
struct Shared<X>(X);
unsafe impl<X> Sync for Shared<X> {}
unsafe impl<X> Send for Shared<X> {}

#[derive(Clone, Debug)]
enum Q<T> {
    Size,
    Iter(usize),
    Show,
    Retrieve(usize, usize),
    Find(usize),
    FindR(usize, T),
    Knn(usize, usize),
    KnnR(usize, usize, T),
    Sorted(usize, usize),
}

/// An answer, exactly.
#[derive(Clone, PartialEq, Debug)]
enum A {
    N(usize),
    Ids(Vec<u32>),
    Text(String),
    One(Result<(u32, u64), Error>),
    Many(Result<Vec<(u32, u64)>, Error>),
}

/// A comparator of a user's own type.
struct Own<T: Flt>(Geometry<T>);

impl<T: Flt> AsGeom<T> for Own<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        converting();
        self.0.as_geom()
    }
}

struct Env<T: Flt> {
    cmps: Vec<Own<T>>,
    asks: Vec<Item<T>>,
}

fn pair(h: Hit) -> (u32, u64) {
    (h.id, h.d.to_bits())
}

fn answer<T: Flt>(t: &Tree<T>, e: &Env<T>, q: &Q<T>) -> A {
    match q {
        Q::Size => A::N(t.size()),
        Q::Iter(n) => A::Ids(t.ids_cap(*n)),
        Q::Show => A::Text(t.show()),
        Q::Retrieve(i, n) => {
            let it = &e.asks[*i];
            A::Ids(lib(|| match t {
                Tree::P(q) => q.retrieve(it).take(*n).map(|i| i.id).collect(),
                Tree::B(q) => q.retrieve(it).take(*n).map(|i| i.id).collect(),
            }))
        }
        Q::Find(i) => A::One(t.find(&e.cmps[*i]).map(pair)),
        Q::FindR(i, r) => A::One(t.find_r(&e.cmps[*i], *r).map(pair)),
        Q::Knn(i, k) => A::Many(t.knn(&e.cmps[*i], *k).map(|v| v.into_iter().map(pair).collect())),
        Q::KnnR(i, k, r) => A::Many(t.knn_r(&e.cmps[*i], *k, *r).map(|v| v.into_iter().map(pair).collect())),
        Q::Sorted(i, n) => A::Many(Ok(t.sorted(&e.cmps[*i], *n).into_iter().map(pair).collect())),
    }
}

fn pick_q<T: Flt>(r: &mut Rng, e: &Env<T>, n: usize, w: f64) -> Q<T> {
    let c = r.below(e.cmps.len());
    let i = r.below(e.asks.len());
    let some = |r: &mut Rng| if r.chance(1, 2) { 1 << 22 } else { r.below(n + 2) };
    let rad = |r: &mut Rng| T::of(if r.chance(1, 6) { f64::INFINITY } else { w * r.unit() });
    match r.below(12) {
        0 => Q::Size,
        1 => Q::Iter(some(r)),
        2 => Q::Show,
        3 | 4 => Q::Retrieve(i, some(r)),
        5 => Q::Find(c),
        6 => Q::FindR(c, rad(r)),
        7 | 8 => Q::Knn(c, some(r)),
        9 => Q::KnnR(c, some(r), rad(r)),
        _ => Q::Sorted(c, some(r)),
    }
}

/// Iterators alive at once, advanced in turns, some abandoned: a few, or a lot.
fn interleave<T: Flt, Y>(ctx: &mut Ctx, t: &Y, e: &Env<T>, s: &Scene<T>) -> Res
where
    for<'x> &'x Y: IntoIterator<Item = &'x Item<T>>,
    Y: QuadTree<Item<T>, T> + QuadTreeSearch<Item<T>, T>,
{
    type Seq<'x> = Box<dyn Iterator<Item = (u32, u64)> + 'x>;
    fn start<'x, T: Flt, Y>(t: &'x Y, e: &'x Env<T>, kind: usize) -> Seq<'x>
    where
        for<'y> &'y Y: IntoIterator<Item = &'y Item<T>>,
        Y: QuadTree<Item<T>, T> + QuadTreeSearch<Item<T>, T>,
    {
        let n = e.asks.len();
        lib(|| -> Seq<'x> {
            match kind {
                0 => Box::new(t.into_iter().map(|x| (x.id, 0))),
                k if k <= n => Box::new(t.retrieve(&e.asks[k - 1]).map(|x| (x.id, 0))),
                k => Box::new(t.sorted(&e.cmps[k - 1 - n]).map(|x| (x.0.id, x.1.f().to_bits()))),
            }
        })
    }
    let kinds = 1 + e.asks.len() + e.cmps.len();
    let whole: Vec<Vec<_>> = (0..kinds).map(|k| lib(|| start(t, e, k).collect())).collect();
    let lot = !ctx.small && ctx.rng.chance(1, 12);
    let n = if lot { 10 + ctx.rng.below(90) } else { 4 };
    let mut open: Vec<(usize, Seq, usize)> = (0..n)
        .map(|_| {
            let k = ctx.rng.below(kinds);
            (k, start(t, e, k), 0)
        })
        .collect();
    let steps = ctx.rng.below(4 * s.data.len() + 8) + if lot { 2 * n } else { 0 };
    for _ in 0..steps {
        let i = ctx.rng.below(n + 1);
        if i == n {
            let c = ctx.rng.below(e.cmps.len());
            let _ = lib(|| t.find(&e.cmps[c]).is_ok());
            continue;
        }
        if ctx.rng.chance(1, 40) {
            // abandoned for another
            let k = ctx.rng.below(kinds);
            open[i] = (k, start(t, e, k), 0);
        }
        let (k, it, at) = &mut open[i];
        let x = lib(|| it.next());
        ensure!(
            x == whole[*k].get(*at).copied(),
            "item {at} of {} is {x:?} with {n} iterators interleaved, alone {:?}; {}",
            match *k {
                0 => "the iteration",
                k if k <= e.asks.len() => "a retrieve",
                _ => "a sorted",
            },
            whole[*k].get(*at),
            s.describe()
        );
        *at += 1;
        ctx.count("interleaved_steps_compared", 1);
    }
    ctx.max("max_iterators_alive", n as u64);
    Ok(())
}

/// Queries from within queries: the conversions of the user's types use the
/// tree they are in.
fn nested<T: Flt>(ctx: &mut Ctx, s: &Scene<T>, e: &Env<T>, qs: &[Q<T>], base: &[A]) -> Res {
    let wrong = std::rc::Rc::new(std::cell::RefCell::new((None, 0u64)));
    let seed = ctx.rng.next();
    {
        let mut r = Rng::new(seed, 3);
        // (what these point to outlives the hook, which is removed below)
        let (tree, env): (*const Tree<T>, *const Env<T>) = (&s.tree, e);
        let qs = qs.to_vec();
        let base = base.to_vec();
        let wrong = wrong.clone();
        on_conversion(Some(Box::new(move || {
            if !r.chance(1, 16) {
                return;
            }
            let i = r.below(qs.len());
            let b = answer(unsafe { &*tree }, unsafe { &*env }, &qs[i]);
            let mut w = wrong.borrow_mut();
            w.1 += 1;
            if b != base[i] && w.0.is_none() {
                w.0 = Some(format!("{:?} asked by a conversion gave {b:?}, alone {:?}", qs[i], base[i]));
            }
        })));
    }
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            on_conversion(None);
        }
    }
    let off = Off;
    for (q, a) in qs.iter().zip(base) {
        let b = answer(&s.tree, e, q);
        ensure!(*a == b, "{q:?} gave {b:?} with other queries asked by the conversions, alone {a:?}; {}", s.describe());
    }
    drop(off);
    let w = wrong.borrow();
    if let Some(m) = &w.0 {
        fail!("{m}; {}", s.describe());
    }
    ctx.count("nested_answers_compared", w.1);
    Ok(())
}

/// Another tree, asked in turns with this one, and then each in the place of
/// the other.
fn neighbours<T: Flt>(ctx: &mut Ctx, s: &mut Scene<T>, o: &mut Scene<T>, e: &Env<T>, qs: &[Q<T>], base: &[A]) -> Res {
    let other: Vec<A> = qs.iter().map(|q| answer(&o.tree, e, q)).collect();
    for round in 0..2 {
        for _ in 0..qs.len() {
            let i = ctx.rng.below(qs.len());
            let (a, b) = (answer(&s.tree, e, &qs[i]), answer(&o.tree, e, &qs[i]));
            let (wa, wb) = if round == 0 { (&base[i], &other[i]) } else { (&other[i], &base[i]) };
            ensure!(
                a == *wa && b == *wb,
                "{:?} gave {a:?} and {b:?} on two trees asked in turns{}, alone {wa:?} and {wb:?}; {}; {}",
                qs[i],
                if round == 0 { "" } else { ", having changed places" },
                s.describe(),
                o.describe()
            );
            ctx.count("answers_compared", 2);
        }
        std::mem::swap(&mut s.tree, &mut o.tree);
    }
    Ok(())
}

fn run<T: Flt>(ctx: &mut Ctx) -> Res {
    let sph = ctx.rng.chance(1, 3);
    let m = if sph { CalcMethod::Spherical } else { CalcMethod::Euclidean };
    let f = if sph {
        sphere::sframe::<T>(&mut ctx.rng).f
    } else {
        any_frame::<T>(&mut ctx.rng, true)
    };
    let w = which(&mut ctx.rng);
    let c = cfg(&mut ctx.rng, if ctx.small { 8 } else { 255 });
    let n = how_many(&mut ctx.rng, c, ctx.small).min(if ctx.thorough { 400 } else { 120 });
    let kinds = datum_kinds(&mut ctx.rng, w);
    let mut pl = Places::new(&mut ctx.rng, &f);
    let shapes: Vec<Shape> = (0..n)
        .map(|_| {
            let k = *ctx.rng.pick(&kinds);
            pl.shape::<T>(&mut ctx.rng, k)
        })
        .collect();
    let env = Env::<T> {
        cmps: (0..4)
            .map(|_| {
                let s = if sph {
                    Shape::Pt(pl.inside::<T>(&mut ctx.rng))
                } else {
                    let k = kind(&mut ctx.rng);
                    pl.shape::<T>(&mut ctx.rng, k)
                };
                Own(s.geometry::<T>())
            })
            .collect(),
        asks: (0..4)
            .map(|i| {
                let k = if w == Which::Point { Kind::Pt } else { kind(&mut ctx.rng) };
                Item::new(1_000_000 + i, &pl.shape::<T>(&mut ctx.rng, k))
            })
            .collect(),
    };
    let wid = f.w(0).max(f.w(1));
    // The tree under observation is queried all along; its twin is not.
    let mut s = Scene::<T>::new(f.clone(), c, w, m);
    let mut twin = Scene::<T>::new(f.clone(), c, w, m);
    let cut = ctx.rng.below(n + 1);
    for (i, sh) in shapes.iter().enumerate() {
        if i == cut || ctx.rng.chance(1, 20) {
            for _ in 0..3 {
                let q = pick_q(&mut ctx.rng, &env, i, wid);
                let a = answer(&s.tree, &env, &q);
                let b = answer(&s.tree, &env, &q);
                ensure!(a == b, "{q:?} gave {a:?}, then {b:?}; {}", s.describe());
                ctx.count("answers_compared", 1);
            }
        }
        s.add(sh.clone())?;
        twin.add(sh.clone())?;
    }
    ctx.desc = s.describe();
    let qs: Vec<Q<T>> = (0..if ctx.small { 8 } else { 24 })
        .map(|_| pick_q(&mut ctx.rng, &env, n, wid))
        .collect();
    let base: Vec<A> = qs.iter().map(|q| answer(&twin.tree, &env, q)).collect();
    for (q, a) in qs.iter().zip(&base) {
        ctx.nontrivial |= matches!(a, A::Ids(v) if v.len() > 1) || matches!(a, A::Many(Ok(v)) if v.len() > 1);
        let b = answer(&s.tree, &env, q);
        ensure!(*a == b, "{q:?} gave {b:?} on a tree queried before, {a:?} on one that was not; {}", s.describe());
        ctx.see_str(&format!("{a:?}"));
    }
    for _ in 0..2 * qs.len() {
        let i = ctx.rng.below(qs.len());
        let b = answer(&s.tree, &env, &qs[i]);
        ensure!(base[i] == b, "{:?} gave {:?}, later {b:?}; {}", qs[i], base[i], s.describe());
        ctx.count("answers_compared", 1);
    }
    match &s.tree {
        Tree::P(t) => interleave(ctx, t, &env, &s)?,
        Tree::B(t) => interleave(ctx, t, &env, &s)?,
    }
    if ctx.rng.chance(1, 3) {
        nested(ctx, &s, &env, &qs, &base)?;
    }
    if ctx.rng.chance(1, 3) {
        let mut o = Scene::<T>::new(f.clone(), c, w, m);
        let n = if ctx.rng.chance(1, 2) { n } else { ctx.rng.below(n + 1) };
        for _ in 0..n {
            let k = *ctx.rng.pick(&kinds);
            o.add(pl.shape::<T>(&mut ctx.rng, k))?;
        }
        neighbours(ctx, &mut s, &mut o, &env, &qs, &base)?;
    }

    // Shared between threads
    let threads = if ctx.small { 2 } else { 2 + ctx.rng.below(3) };
    let rounds = if ctx.small { 3 } else { 6 };
    let seeds: Vec<u64> = (0..threads).map(|_| ctx.rng.next()).collect();
    // Half of the time the same few queries of one kind, over and over, for
    // the narrowest of windows
    let hot = ctx.rng.chance(1, 2);
    let (qs_t, base_t): (Vec<Q<T>>, Vec<A>) = if hot {
        let first = ctx.rng.below(qs.len());
        let mut like: Vec<usize> = (0..qs.len())
            .filter(|i| std::mem::discriminant(&qs[*i]) == std::mem::discriminant(&qs[first]))
            .collect();
        like.truncate(1 + ctx.rng.below(4));
        like.iter().map(|i| (qs[*i].clone(), base[*i].clone())).unzip()
    } else {
        (qs.clone(), base.clone())
    };
    let asked = match hot {
        false => rounds * qs.len() / 3,
        true => 6 * rounds * qs.len() / (1 + n / 20),
    };
    let started = AtomicUsize::new(0);
    let overlapped = AtomicUsize::new(0);
    let busy = AtomicUsize::new(0);
    {
        let sh = Shared(&s.tree);
        let envs = Shared(&env);
        let (sh, envs, qs, base, started, busy, overlapped) = (&sh, &envs, &qs_t, &base_t, &started, &busy, &overlapped);
        let rs: Vec<Res> = std::thread::scope(|sc| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|seed| {
                    sc.spawn(move || {
                        guarded(|| {
                            let mut r = Rng::new(*seed, 17);
                            // start together
                            started.fetch_add(1, Ordering::Relaxed);
                            while started.load(Ordering::Relaxed) < threads {
                                std::thread::yield_now();
                            }
                            for _ in 0..asked {
                                let i = r.below(qs.len());
                                if busy.fetch_add(1, Ordering::Relaxed) > 0 {
                                    overlapped.fetch_add(1, Ordering::Relaxed);
                                }
                                let b = answer(sh.0, envs.0, &qs[i]);
                                busy.fetch_sub(1, Ordering::Relaxed);
                                ensure!(base[i] == b, "{:?} gave {b:?} on one of several threads, alone {:?}", qs[i], base[i]);
                                if !hot && r.chance(1, 4) {
                                    std::thread::yield_now();
                                }
                            }
                            Ok(())
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        for r in rs {
            r.map_err(|e| Fail(format!("{}; {}", e.0, s.describe())))?;
        }
    }
    ctx.count("concurrent_answers_compared", (threads * asked) as u64);
    ctx.count("queries_that_overlapped", overlapped.load(Ordering::Relaxed) as u64);

    // Sent to another thread, queried there, filled further, and sent back
    let more: Vec<Shape> = (0..4.min(n))
        .map(|_| {
            let k = *ctx.rng.pick(&kinds);
            pl.shape::<T>(&mut ctx.rng, k)
        })
        .collect();
    let pack = Shared((s, env, qs, base, more));
    let back = std::thread::scope(|sc| {
        sc.spawn(move || {
            let pack = pack;
            guarded(|| {
                let Shared((mut s, env, qs, base, more)) = pack;
                for (q, a) in qs.iter().zip(&base) {
                    let b = answer(&s.tree, &env, q);
                    ensure!(*a == b, "{q:?} gave {b:?} after the tree moved to another thread, before {a:?}; {}", s.describe());
                }
                for sh in more {
                    s.add(sh)?;
                }
                Ok(Shared((s, env, qs)))
            })
        })
        .join()
        .expect("thread")
    })?;
    let Shared((s, env, qs)) = back;
    for (_, sh) in &s.data[n..] {
        twin.add(sh.clone())?;
    }
    for q in &qs {
        let (a, b) = (answer(&twin.tree, &env, q), answer(&s.tree, &env, q));
        ensure!(a == b, "{q:?} gave {b:?} on the tree queried before it grew, {a:?} on its twin; {}", s.describe());
        ctx.count("answers_compared", 1);
    }
    if ctx.want_desc {
        ctx.desc = s.describe();
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    traits()?;
    ctx.count("send_sync_probes", 46);
    any_flt!(ctx, run)
}

fn main() {
    runner::main("C17", case)
}
