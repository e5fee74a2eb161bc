//! C18: data are owned once: never leaked, dropped twice or touched after release.
use qtmon::*;
use quadtree::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

// ---- every byte the library allocates has to come back -------------------
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        let _ = BLOCKS.try_with(|c| c.set(c.get() + 1));
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        let _ = BLOCKS.try_with(|c| c.set(c.get() - 1));
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

fn live() -> (i64, i64) {
    (LIVE.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}

// ---- the ledger: what happened to each datum -----------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Alive,
    Dropped,
}
#[derive(Default)]
struct Ledger {
    state: Vec<Option<State>>,
    drops: u64,
    asked: u64,
    trouble: Option<String>,
}
thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

fn state(id: u32) -> Option<State> {
    LEDGER.with(|l| l.borrow().state[id as usize])
}
fn trouble(s: String) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        if l.trouble.is_none() {
            l.trouble = Some(s);
        }
    })
}

// ---- conversions that panic ---------------------------------------------
/// What a conversion throws when its time has come.
struct Thrown;
thread_local! {
    /// How many more conversions succeed (negative: all).
    static FUSE: Cell<i64> = const { Cell::new(-1) };
}
/// Runs a call whose conversions panic after `fuse` of them; None when one did.
fn armed<R>(fuse: i64, f: impl FnOnce() -> R) -> Option<R> {
    FUSE.with(|c| c.set(fuse));
    let r = catch_unwind(AssertUnwindSafe(|| lib(f)));
    FUSE.with(|c| c.set(-1));
    match r {
        Ok(r) => Some(r),
        Err(e) if e.is::<Thrown>() => None,
        Err(e) => resume_unwind(e),
    }
}

const MAGIC: u64 = 0xD47A_0123_89AB_CDEF;

/// A datum that owns heap memory, so that a sanitizer sees what happens to it
/// too, and is neither Copy nor Clone.
struct Owned<T: Num, P: Pad> {
    id: u32,
    geom: Box<quadtree::Geometry<T>>,
    canary: Box<[u64; 2]>,
    pad: P,
}

/// What else is stored in a datum, so that there are small, large and
/// over-aligned ones.
trait Pad: 'static {
    fn new(id: u32) -> Self;
    fn good(&self, id: u32) -> bool;
}
impl Pad for () {
    fn new(_: u32) {}
    fn good(&self, _: u32) -> bool {
        true
    }
}
struct Large([u32; 130]);
impl Pad for Large {
    fn new(id: u32) -> Self {
        Large([id; 130])
    }
    fn good(&self, id: u32) -> bool {
        self.0.iter().all(|v| *v == id)
    }
}
#[repr(align(64))]
struct Aligned(u8);
impl Pad for Aligned {
    fn new(id: u32) -> Self {
        Aligned(id as u8)
    }
    fn good(&self, id: u32) -> bool {
        self.0 == id as u8 && std::hint::black_box(self as *const Self as usize) % 64 == 0
    }
}

impl<T: Num, P: Pad> Owned<T, P> {
    fn new(id: u32, s: &Shape) -> Self {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            assert!(l.state[id as usize].is_none());
            l.state[id as usize] = Some(State::Alive);
        });
        Owned {
            id,
            geom: Box::new(s.geometry()),
            canary: Box::new([MAGIC, MAGIC ^ id as u64]),
            pad: P::new(id),
        }
    }
    fn look(&self, why: &str) {
        // the state first: the heap part may no longer be there
        let st = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.asked += 1;
            l.state.get(self.id as usize).copied().flatten()
        });
        if st != Some(State::Alive) {
            return trouble(format!("{why} of datum {}, which is {st:?}", self.id));
        }
        if *self.canary != [MAGIC, MAGIC ^ self.id as u64] || !self.pad.good(self.id) {
            trouble(format!("{why} of datum {} finds its memory overwritten", self.id));
        }
    }
    fn maybe_throw(&self) {
        let n = FUSE.with(|c| c.get());
        if n == 0 {
            FUSE.with(|c| c.set(-1));
            // (does not call the panic hook)
            resume_unwind(Box::new(Thrown));
        }
        FUSE.with(|c| c.set(n.max(0) - 1));
    }
}
impl<T: Num, P: Pad> Drop for Owned<T, P> {
    fn drop(&mut self) {
        let id = self.id;
        let was = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.drops += 1;
            match l.state.get_mut(id as usize) {
                Some(s) => s.replace(State::Dropped),
                None => None,
            }
        });
        if was != Some(State::Alive) {
            trouble(format!("drop of datum {id}, which is {was:?}"));
            if !cfg!(sanitize_run) {
                // do not free its memory again: report instead of crashing
                let dummy = Box::new(quadtree::Geometry::Point(geo::Point::new(T::zero(), T::zero())));
                std::mem::forget(std::mem::replace(&mut self.geom, dummy));
                std::mem::forget(std::mem::replace(&mut self.canary, Box::new([0, 0])));
            }
            return;
        }
        self.canary[0] = 0;
    }
}
impl<T: Num, P: Pad> AsPoint<T> for Owned<T, P> {
    fn as_point(&self) -> geo::Point<T> {
        self.look("as_point");
        self.maybe_throw();
        match &*self.geom {
            quadtree::Geometry::Point(p) => *p,
            _ => geo::Point::new(T::zero(), T::zero()),
        }
    }
}
impl<T: Num, P: Pad> AsGeom<T> for Owned<T, P> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        self.look("as_geom");
        self.maybe_throw();
        self.geom.as_geom()
    }
}

fn no_trouble(what: &str) -> Res {
    let t = LEDGER.with(|l| l.borrow().trouble.clone());
    match t {
        Some(t) => fail!("{what}: {t}"),
        None => Ok(()),
    }
}

enum Any<T: Num, P: Pad> {
    P(PointQuadTree<Owned<T, P>, T>),
    B(BoundsQuadTree<Owned<T, P>, T>),
}
macro_rules! on {
    ($s:expr, $q:ident => $e:expr) => {
        match $s {
            Any::P($q) => $e,
            Any::B($q) => $e,
        }
    };
}

/// All accepted data alive, and each reachable exactly once.
fn whole<T: Num, P: Pad>(t: &Any<T, P>, accepted: &[u32], what: &str) -> Res {
    for i in accepted {
        ensure!(state(*i) == Some(State::Alive), "{what}: datum {i} was accepted, but is {:?}", state(*i));
    }
    let mut seen: Vec<u32> = lib(|| {
        on!(t, q => q.into_iter().take(accepted.len() * 2 + 8).map(|d| { d.look("iteration"); d.id }).collect())
    });
    no_trouble(what)?;
    seen.sort();
    let mut want = accepted.to_vec();
    want.sort();
    ensure!(seen == want, "{what}: accepted data {want:?}, reachable {seen:?}");
    Ok(())
}

fn queries<T: Flt, P: Pad>(ctx: &mut Ctx, t: &Any<T, P>, cmp: &Shape, ask: &Owned<T, P>) {
    let g = cmp.geometry::<T>();
    let n = ctx.rng.below(6);
    let k = ctx.rng.below(8);
    let far = T::of(ctx.rng.uniform(-0.5, 4.0));
    lib(|| match k {
        0 => drop(on!(t, q => q.find(&g).map(|d| d.0.look("find"))).is_ok()),
        1 => on!(t, q => q.sorted(&g).take(n).for_each(|d| d.0.look("sorted"))),
        2 => drop(on!(t, q => q.knn(&g, n).map(|v| v.iter().for_each(|d| d.0.look("knn")))).is_ok()),
        3 => on!(t, q => q.retrieve(ask).take(n).for_each(|d| d.look("retrieve"))),
        4 => on!(t, q => {
            // abandoned halfway
            let mut i = q.into_iter();
            for _ in 0..n { i.next(); }
            let mut j = q.sorted(&g);
            j.next();
            drop(i);
            drop(j);
        }),
        5 => drop(on!(t, q => q.find_r(&g, far).map(|d| d.0.look("find_r"))).is_ok()),
        6 => drop(on!(t, q => q.knn_r(&g, n * 9, far).map(|v| v.iter().for_each(|d| d.0.look("knn_r")))).is_ok()),
        _ => on!(t, q => drop(q.to_string())),
    });
    ctx.count("queries", 1);
}

struct Step {
    id: u32,
    s: Shape,
    ok: bool,
}

/// A conversion panics in the middle of an insert or a query. What the tree
/// holds afterwards is not specified, but nothing is dropped twice, nothing that
/// can be reached has been dropped, and all is gone with the tree.
fn thrown<T: Flt, P: Pad>(ctx: &mut Ctx) -> Res {
    let f = any_frame::<T>(&mut ctx.rng, true);
    let w = which(&mut ctx.rng);
    let mut c = cfg(&mut ctx.rng, if ctx.small { 6 } else { 40 });
    if ctx.rng.chance(1, 2) {
        c = Cfg { depth: c.depth.max(3), children: ctx.rng.below(5), ..c };
    }
    let n = 1 + ctx.rng.below(if ctx.small { 10 } else { 40 });
    let kinds = datum_kinds(&mut ctx.rng, w);
    let mut pl = Places::new(&mut ctx.rng, &f);
    let shapes: Vec<Shape> = (0..n)
        .map(|_| {
            let k = *ctx.rng.pick(&kinds);
            pl.shape::<T>(&mut ctx.rng, k)
        })
        .collect();
    let k = kind(&mut ctx.rng);
    let cmp = pl.shape::<T>(&mut ctx.rng, k).geometry::<T>();
    ctx.desc = format!("{} {w:?} tree, frame {f:?}, {c:?}, {n} data, conversions that panic", T::NAME);
    if ctx.want_desc {
        ctx.desc += &format!(": {}", shapes.iter().take(20).map(|s| s.show()).collect::<Vec<_>>().join(" "));
    }
    let desc = ctx.desc.clone();
    LEDGER.with(|l| {
        *l.borrow_mut() = Ledger {
            state: vec![None; n + 1],
            ..Default::default()
        }
    });
    for k in ["inserts_that_panicked", "queries_that_panicked"] {
        ctx.count(k, 0);
    }
    let ask = Owned::<T, P>::new(n as u32, &shapes[0]);
    let b = f.rect::<T>();
    let method = calc_method(&mut ctx.rng);
    let before = live();
    let mut at_fault = None;
    let mut log: Vec<(u32, i64)> = Vec::new();
    let held = (|| -> Res {
        let mut t = lib(|| match w {
            Which::Point => Any::P(PointQuadTree::new(b, method, c.depth, c.children)),
            Which::Bounds => Any::B(BoundsQuadTree::new(b, method, c.depth, c.children)),
        });
        let mut offered = 0;
        for (i, s) in shapes.iter().enumerate() {
            let d = Owned::<T, P>::new(i as u32, s);
            offered += 1;
            let fuse = if ctx.rng.chance(1, 4) || i + 1 == n { ctx.rng.below(14) as i64 } else { -1 };
            if fuse >= 0 {
                log.push((i as u32, fuse));
            }
            at_fault = Some(i);
            if armed(fuse, || on!(&mut t, q => q.insert(d).is_ok())).is_none() {
                ctx.count("inserts_that_panicked", 1);
                ctx.see(i as u64);
            }
            no_trouble("insert whose conversion panics")?;
            // whatever can still be reached is alive
            let cap = 2 * n + 8;
            let mut seen: Vec<u32> = lib(|| on!(&t, q => q.into_iter().take(cap).map(|d| { d.look("iteration"); d.id }).collect()));
            no_trouble("iteration after a panic")?;
            seen.sort();
            let m = seen.len();
            seen.dedup();
            ensure!(seen.len() == m, "a datum can be reached twice after a panic");
            if ctx.rng.chance(1, 3) {
                let fuse = ctx.rng.below(20) as i64;
                let (k, m) = (ctx.rng.below(6), ctx.rng.below(n));
                log.push((1000 + i as u32, fuse));
                let r = armed(fuse, || match k {
                    0 => drop(on!(&t, q => q.find(&cmp).map(|d| d.0.look("find"))).is_ok()),
                    1 => on!(&t, q => q.sorted(&cmp).take(m).for_each(|d| d.0.look("sorted"))),
                    2 => drop(on!(&t, q => q.knn(&cmp, m).map(|v| v.iter().for_each(|d| d.0.look("knn")))).is_ok()),
                    3 => on!(&t, q => q.sorted(&cmp).for_each(|d| d.0.look("sorted"))),
                    4 => on!(&t, q => drop(q.to_string())),
                    _ => on!(&t, q => q.retrieve(&ask).for_each(|d| d.look("retrieve"))),
                });
                if r.is_none() {
                    ctx.count("queries_that_panicked", 1);
                }
                no_trouble("query whose conversion panics")?;
            }
        }
        lib(|| drop(t));
        no_trouble("drop of the tree after a panic")?;
        for i in 0..offered as u32 {
            ensure!(state(i) == Some(State::Dropped), "datum {i} is {:?} after a panic and the end of the tree", state(i));
        }
        Ok(())
    })();
    held.map_err(|e: Fail| Fail(format!("{}; at insert {at_fault:?} of (datum, conversions before the panic) {log:?}; {desc}", e.0)))?;
    drop(log);
    let after = live();
    let grown = (after.0 - before.0, after.1 - before.1);
    if grown != (0, 0) {
        return Err(Fail(format!("a balance of {} bytes in {} blocks is left after panics and the end of the tree; {desc}", grown.0, grown.1)));
    }
    ctx.see_str(&desc);
    ctx.nontrivial = n > 1;
    ctx.count("trees_released_after_panics", 1);
    Ok(())
}

/// Mostly one that can answer. The rules of ownership hold for any answer.
fn calc_method(r: &mut Rng) -> CalcMethod {
    match r.below(8) {
        0 => CalcMethod::None,
        1 | 2 => CalcMethod::Spherical,
        _ => CalcMethod::Euclidean,
    }
}

// ---- data that take no memory --------------------------------------------
thread_local! {
    static PLACE: Cell<Option<&'static quadtree::Geometry<f64>>> = const { Cell::new(None) };
    static NOWHERE: Cell<i64> = const { Cell::new(0) };
}
/// A datum without size: all of them are where PLACE is.
struct Nowhere;
impl Nowhere {
    fn new() -> Self {
        NOWHERE.with(|c| c.set(c.get() + 1));
        Nowhere
    }
}
impl Drop for Nowhere {
    fn drop(&mut self) {
        NOWHERE.with(|c| c.set(c.get() - 1));
    }
}
impl AsGeom<f64> for Nowhere {
    fn as_geom(&self) -> GeometryRef<'_, f64> {
        PLACE.with(|p| p.get()).unwrap().as_geom()
    }
}
impl AsPoint<f64> for Nowhere {
    fn as_point(&self) -> geo::Point<f64> {
        match PLACE.with(|p| p.get()) {
            Some(quadtree::Geometry::Point(p)) => *p,
            _ => geo::Point::new(0.0, 0.0),
        }
    }
}

fn nowhere(ctx: &mut Ctx) -> Res {
    let f = any_frame::<f64>(&mut ctx.rng, true);
    let w = which(&mut ctx.rng);
    let c = cfg(&mut ctx.rng, if ctx.small { 6 } else { 30 });
    let n = 1 + ctx.rng.below(if ctx.small { 12 } else { 300 });
    let mut pl = Places::new(&mut ctx.rng, &f);
    let k = if w == Which::Point { Kind::Pt } else { kind(&mut ctx.rng) };
    let s = pl.shape::<f64>(&mut ctx.rng, k);
    let out = Shape::Pt(pl.outside::<f64>(&mut ctx.rng));
    ctx.desc = format!("{w:?} tree of data without size, all {}, frame {f:?}, {c:?}, {n} data", s.show());
    let desc = ctx.desc.clone();
    // (leaked so that they can be borrowed by something without size)
    let (here, there): (*mut _, *mut _) = (Box::into_raw(Box::new(s.geometry::<f64>())), Box::into_raw(Box::new(out.geometry::<f64>())));
    NOWHERE.with(|c| c.set(0));
    let b = f.rect::<f64>();
    let before = live();
    let alive = || NOWHERE.with(|c| c.get());
    let held = (|| -> Res {
        macro_rules! go {
            ($tree:ident) => {{
                let mut t = lib(|| $tree::<Nowhere, f64>::new(b, CalcMethod::Euclidean, c.depth, c.children));
                let mut ok = 0;
                for i in 0..n {
                    if ctx.rng.chance(1, 8) {
                        PLACE.with(|p| p.set(Some(unsafe { &*there })));
                        let r = lib(|| t.insert(Nowhere::new()));
                        ensure!(r.is_err() && alive() == ok, "refused datum {i}: {r:?}, {} alive of {ok} accepted", alive());
                        PLACE.with(|p| p.set(Some(unsafe { &*here })));
                    }
                    PLACE.with(|p| p.set(Some(unsafe { &*here })));
                    let r = lib(|| t.insert(Nowhere::new()));
                    ok += 1;
                    ensure!(r.is_ok() && alive() == ok && t.size() == ok as usize, "datum {i}: {r:?}, {} alive and size {} of {ok} accepted", alive(), t.size());
                }
                let want = ok as usize;
                let got = lib(|| {
                    [
                        (&t).into_iter().count(),
                        t.retrieve(&Nowhere::new()).count(),
                        t.sorted(unsafe { &*here }).count(),
                        t.knn(unsafe { &*here }, want + 3).map_or(0, |v| v.len()),
                        t.knn(unsafe { &*here }, want / 2).map_or(0, |v| v.len() + want - want / 2),
                    ]
                });
                ensure!(got == [want; 5], "{want} data; iteration, retrieve, sorted, knn, half of knn gave {got:?}");
                ensure!(lib(|| t.find(unsafe { &*here }).is_ok()), "find failed");
                ensure!(alive() == ok, "{} alive of {ok} after queries", alive());
                lib(|| drop(t));
                ensure!(alive() == 0, "{} data without size are alive after the end of their tree", alive());
                ctx.see(ok as u64);
            }};
        }
        match w {
            Which::Point => go!(PointQuadTree),
            Which::Bounds => go!(BoundsQuadTree),
        }
        Ok(())
    })();
    PLACE.with(|p| p.set(None));
    let after = live();
    drop(unsafe { (Box::from_raw(here), Box::from_raw(there)) });
    held.map_err(|e: Fail| Fail(format!("{}; {desc}", e.0)))?;
    let grown = (after.0 - before.0, after.1 - before.1);
    if grown != (0, 0) {
        return Err(Fail(format!("a balance of {} bytes in {} blocks is left after the tree is gone; {desc}", grown.0, grown.1)));
    }
    ctx.see_str(&desc);
    ctx.nontrivial = n > 1;
    ctx.count("trees_of_sizeless_data_released", 1);
    Ok(())
}

fn run_plain<T: Flt>(ctx: &mut Ctx) -> Res {
    run::<T, ()>(ctx)
}
fn run_large<T: Flt>(ctx: &mut Ctx) -> Res {
    run::<T, Large>(ctx)
}
fn run_aligned<T: Flt>(ctx: &mut Ctx) -> Res {
    run::<T, Aligned>(ctx)
}
fn thrown_plain<T: Flt>(ctx: &mut Ctx) -> Res {
    thrown::<T, ()>(ctx)
}
fn thrown_aligned<T: Flt>(ctx: &mut Ctx) -> Res {
    thrown::<T, Aligned>(ctx)
}

fn any(ctx: &mut Ctx) -> Res {
    match ctx.index % 20 {
        4 | 9 | 14 => any_flt!(ctx, thrown_plain),
        19 => any_flt!(ctx, thrown_aligned),
        0 => any_flt!(ctx, run_large),
        1 => any_flt!(ctx, run_aligned),
        2 => nowhere(ctx),
        _ => any_flt!(ctx, run_plain),
    }
}

fn run<T: Flt, P: Pad>(ctx: &mut Ctx) -> Res {
    let f = any_frame::<T>(&mut ctx.rng, true);
    let w = which(&mut ctx.rng);
    let c = cfg(&mut ctx.rng, if ctx.small { 8 } else { 255 });
    let n = how_many(&mut ctx.rng, c, ctx.small).min(300);
    let kinds = datum_kinds(&mut ctx.rng, w);
    let mut pl = Places::new(&mut ctx.rng, &f);
    let mut steps = vec![];
    for i in 0..n as u32 {
        let k = *ctx.rng.pick(&kinds);
        let bad = ctx.rng.chance(1, 5);
        let s = match (bad, w, ctx.rng.below(3)) {
            (false, ..) => pl.shape::<T>(&mut ctx.rng, k),
            (true, Which::Bounds, 0) => Shape::Ls(vec![]),
            (true, Which::Bounds, 1) => Shape::Pg(vec![], vec![]),
            (true, _, _) => Shape::Pt(pl.outside::<T>(&mut ctx.rng)),
        };
        steps.push(Step { id: i, s, ok: !bad });
    }
    let cmps: Vec<Shape> = (0..3)
        .map(|_| {
            let k = kind(&mut ctx.rng);
            pl.shape::<T>(&mut ctx.rng, k)
        })
        .collect();
    let ask_shape = {
        let k = if w == Which::Point { Kind::Pt } else { *ctx.rng.pick(&kinds) };
        pl.shape::<T>(&mut ctx.rng, k)
    };
    ctx.desc = format!("{} {w:?} tree, frame {:?}, {c:?}, {n} offered, {} of them refusable", T::NAME, f, steps.iter().filter(|s| !s.ok).count());
    let desc = if ctx.want_desc {
        format!("{}: {}", ctx.desc, steps.iter().take(20).map(|s| s.s.show()).collect::<Vec<_>>().join(" "))
    } else {
        ctx.desc.clone()
    };
    ctx.desc = desc.clone();
    let at = |e: Fail| Fail(format!("{}; {desc}", e.0));

    LEDGER.with(|l| {
        *l.borrow_mut() = Ledger {
            state: vec![None; n + 2],
            ..Default::default()
        }
    });
    let mut accepted: Vec<u32> = Vec::with_capacity(n);
    let ask = Owned::<T, P>::new(n as u32, &ask_shape);

    let b = f.rect::<T>();
    // (the counters have their map entries before the measurement starts)
    for k in ["accepted", "refused_and_released", "queries"] {
        ctx.count(k, 0);
    }
    let method = calc_method(&mut ctx.rng);
    let before = live();
    let mut t = lib(|| match w {
        Which::Point => Any::P(PointQuadTree::new(b, method, c.depth, c.children)),
        Which::Bounds => Any::B(BoundsQuadTree::new(b, method, c.depth, c.children)),
    });
    for s in &steps {
        let d = Owned::<T, P>::new(s.id, &s.s);
        let drops = LEDGER.with(|l| l.borrow().drops);
        let r = lib(|| on!(&mut t, q => q.insert(d)));
        no_trouble("insert").map_err(at)?;
        let dropped = LEDGER.with(|l| l.borrow().drops) - drops;
        let st = state(s.id);
        if r.is_ok() {
            accepted.push(s.id);
            if st != Some(State::Alive) || dropped != 0 {
                return Err(at(Fail(format!("insert accepted datum {} ({}), which is now {st:?}; {dropped} data were dropped", s.id, s.s.show()))));
            }
            ctx.count("accepted", 1);
        } else {
            if st != Some(State::Dropped) || dropped != 1 {
                return Err(at(Fail(format!("insert refused datum {} ({}) with {r:?}, which is now {st:?}; {dropped} data were dropped", s.id, s.s.show()))));
            }
            ctx.count("refused_and_released", 1);
        }
        if ctx.rng.chance(1, 6) {
            queries(ctx, &t, &cmps[s.id as usize % 3], &ask);
            no_trouble("query").map_err(at)?;
        }
        if ctx.rng.chance(1, 30) {
            whole(&t, &accepted, "after an insert").map_err(at)?;
            // move the tree
            let moved = Box::new(t);
            t = *moved;
        }
    }
    for _ in 0..8 {
        queries(ctx, &t, &cmps[ctx.index as usize % 3], &ask);
        no_trouble("query").map_err(at)?;
    }
    whole(&t, &accepted, "at the end").map_err(at)?;
    let drops = LEDGER.with(|l| l.borrow().drops);
    ctx.see(n as u64);
    ctx.see_str(&desc);
    ctx.nontrivial = accepted.len() > 1;
    if ctx.rng.chance(1, 4) {
        // replaced by assignment rather than dropped outright
        t = Any::P(PointQuadTree::new(b, method, 0, 0));
    }
    lib(|| drop(t));
    no_trouble("drop of the tree").map_err(at)?;
    let dropped = LEDGER.with(|l| l.borrow().drops) - drops;
    for i in &accepted {
        if state(*i) != Some(State::Dropped) {
            return Err(at(Fail(format!("datum {i} was not released with its tree, it is {:?}", state(*i)))));
        }
    }
    if dropped != accepted.len() as u64 {
        return Err(at(Fail(format!("{dropped} drops of {} data with the tree", accepted.len()))));
    }
    let after = live();
    let grown = (after.0 - before.0, after.1 - before.1);
    if grown != (0, 0) {
        return Err(at(Fail(format!("a balance of {} bytes in {} blocks is left after the tree is gone", grown.0, grown.1))));
    }
    ctx.count("trees_released", 1);
    ctx.count("data_released", dropped);
    ctx.count("looks_at_data", LEDGER.with(|l| l.borrow().asked));
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    // something initialised once, on first use, is not a leak: look again
    let rng = ctx.rng.clone();
    match any(ctx) {
        Err(e) if e.0.starts_with("a balance of") => {
            ctx.rng = rng;
            ctx.fp = 0x1234;
            any(ctx)
        }
        r => r,
    }
}

fn main() {
    runner::main("C18", case)
}
