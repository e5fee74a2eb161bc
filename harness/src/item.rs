//! The data put into trees, and one interface over both trees.
use crate::cgen::{Cfg, Frame};
use crate::num::{Flt, Num};
use crate::iterate::consume;
use crate::rng::Rng;
use crate::runner::{Res, lib};
use crate::shape::*;
use geo::Point;
use quadtree::*;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU32, Ordering};

/// A datum: an identity, and a geometry the tree may ask for (asking is counted).
#[derive(Debug)]
pub struct Item<T: Num> {
    pub id: u32,
    pub pt: Point<T>,
    pub geom: Geometry<T>,
    pub asked_pt: AtomicU32,
    pub asked_geom: AtomicU32,
}

impl<T: Num> Item<T> {
    pub fn new(id: u32, s: &Shape) -> Self {
        let pt = match s {
            Shape::Pt(p) => point(*p),
            _ => point([0.0, 0.0]),
        };
        Item {
            id,
            pt,
            geom: s.geometry(),
            asked_pt: AtomicU32::new(0),
            asked_geom: AtomicU32::new(0),
        }
    }
    pub fn raw_point(id: u32, x: T, y: T) -> Self {
        let pt = Point::new(x, y);
        Item {
            id,
            pt,
            geom: Geometry::Point(pt),
            asked_pt: AtomicU32::new(0),
            asked_geom: AtomicU32::new(0),
        }
    }
}
thread_local! {
    static CALLED: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}

/// What the conversions of data do on this thread besides converting. They
/// are the user's code, which may well use a tree itself.
pub fn on_conversion(f: Option<Box<dyn FnMut()>>) {
    CALLED.with(|c| *c.borrow_mut() = f);
}

#[inline]
pub fn converting() {
    CALLED.with(|c| {
        // not while it runs itself
        let Ok(mut b) = c.try_borrow_mut() else { return };
        if b.is_some() {
            let mut f = b.take().unwrap();
            drop(b);
            f();
            let mut b = c.borrow_mut();
            if b.is_none() {
                *b = Some(f);
            }
        }
    })
}

impl<T: Num> AsPoint<T> for Item<T> {
    fn as_point(&self) -> Point<T> {
        converting();
        self.asked_pt.fetch_add(1, Ordering::Relaxed);
        self.pt
    }
}
impl<T: Num> AsGeom<T> for Item<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        converting();
        self.asked_geom.fetch_add(1, Ordering::Relaxed);
        self.geom.as_geom()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which {
    Point,
    Bounds,
}

pub enum Tree<T: Num> {
    P(PointQuadTree<Item<T>, T>),
    B(BoundsQuadTree<Item<T>, T>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Hit {
    pub id: u32,
    pub d: f64,
}

macro_rules! each {
    ($s:expr, $q:ident => $e:expr) => {
        match $s {
            Tree::P($q) => $e,
            Tree::B($q) => $e,
        }
    };
}

impl<T: Num> Tree<T> {
    pub fn new(which: Which, f: &Frame, m: CalcMethod, c: Cfg) -> Self {
        let b = f.rect::<T>();
        lib(|| match (which, c.default) {
            (Which::Point, true) => Tree::P(PointQuadTree::from_bounds(b, m)),
            (Which::Point, false) => Tree::P(PointQuadTree::new(b, m, c.depth, c.children)),
            (Which::Bounds, true) => Tree::B(BoundsQuadTree::from_bounds(b, m)),
            (Which::Bounds, false) => Tree::B(BoundsQuadTree::new(b, m, c.depth, c.children)),
        })
    }
    pub fn which(&self) -> Which {
        match self {
            Tree::P(_) => Which::Point,
            Tree::B(_) => Which::Bounds,
        }
    }
    pub fn insert(&mut self, it: Item<T>) -> Result<(), Error> {
        lib(|| each!(self, q => q.insert(it)))
    }
    pub fn size(&self) -> usize {
        lib(|| each!(self, q => q.size()))
    }
    /// Identities in iteration order. Stops at `cap` items (a broken iterator
    /// could go on for ever).
    pub fn ids_cap(&self, cap: usize) -> Vec<u32> {
        lib(|| each!(self, q => q.into_iter().take(cap).map(|i| i.id).collect()))
    }
    pub fn ids(&self) -> Vec<u32> {
        self.ids_cap(1 << 22)
    }
    pub fn items(&self) -> Vec<&Item<T>> {
        lib(|| each!(self, q => q.into_iter().take(1 << 22).collect()))
    }
    pub fn show(&self) -> String {
        lib(|| each!(self, q => q.to_string()))
    }
    pub fn show_into(&self, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
        lib(|| each!(self, q => std::fmt::write(w, format_args!("{q}"))))
    }
    /// Iterate in some other way than collecting, expecting this sequence.
    pub fn iterate_otherwise(&self, r: &mut Rng, want: &[u32], what: &str) -> Res {
        each!(self, q => consume(r, || q.into_iter(), |i: &Item<T>| i.id, want, what))
    }
    /// Retrieve in some other way than collecting, expecting this sequence.
    pub fn retrieve_otherwise(&self, r: &mut Rng, it: &Item<T>, want: &[u32], what: &str) -> Res {
        each!(self, q => consume(r, || q.retrieve(it), |i: &Item<T>| i.id, want, what))
    }
    pub fn retrieve(&self, it: &Item<T>) -> Vec<u32> {
        lib(|| each!(self, q => q.retrieve(it).take(1 << 22).map(|i| i.id).collect()))
    }
}

impl<T: Flt> Tree<T> {
    pub fn find<X: AsGeom<T>>(&self, c: &X) -> Result<Hit, Error> {
        lib(|| each!(self, q => q.find(c).map(|(i, d)| Hit { id: i.id, d: d.f() })))
    }
    pub fn find_r<X: AsGeom<T>>(&self, c: &X, r: T) -> Result<Hit, Error> {
        lib(|| each!(self, q => q.find_r(c, r).map(|(i, d)| Hit { id: i.id, d: d.f() })))
    }
    pub fn knn<X: AsGeom<T>>(&self, c: &X, k: usize) -> Result<Vec<Hit>, Error> {
        lib(|| each!(self, q => q.knn(c, k).map(hits)))
    }
    pub fn knn_r<X: AsGeom<T>>(&self, c: &X, k: usize, r: T) -> Result<Vec<Hit>, Error> {
        lib(|| each!(self, q => q.knn_r(c, k, r).map(hits)))
    }
    /// Consume sorted in some other way than collecting, expecting these distances.
    pub fn sorted_otherwise<X: AsGeom<T>>(&self, r: &mut Rng, c: &X, want: &[f64], what: &str) -> Res {
        each!(self, q => consume(r, || q.sorted(c), |h: (&Item<T>, T)| h.1.f(), want, what))
    }
    /// The first n items of sorted (all when n is large).
    pub fn sorted<X: AsGeom<T>>(&self, c: &X, n: usize) -> Vec<Hit> {
        lib(|| each!(self, q => q.sorted(c).take(n).map(|(i, d)| Hit { id: i.id, d: d.f() }).collect()))
    }
}

fn hits<T: Flt>(v: Vec<(&Item<T>, T)>) -> Vec<Hit> {
    v.into_iter().map(|(i, d)| Hit { id: i.id, d: d.f() }).collect()
}

/// One line of the tree's display.
#[derive(Debug, PartialEq, Clone)]
pub struct CellLine {
    pub depth: usize,
    pub corner: String,
    pub count: usize,
}

/// Parse a tree's display into its cells; None when it is not of that form.
pub fn parse_display(s: &str) -> Option<Vec<CellLine>> {
    let mut lines = s.lines();
    lines.next()?;
    let mut v = vec![];
    for l in lines {
        let t = l.trim_start_matches(' ');
        let ind = l.len() - t.len();
        if ind % 4 != 0 {
            return None;
        }
        let (corner, rest) = t.split_once("):")?;
        let corner = corner.strip_prefix('(')?.to_string();
        let count = match rest.trim() {
            "" => 0,
            r => r.split_whitespace().next()?.parse().ok()?,
        };
        v.push(CellLine {
            depth: ind / 4,
            corner,
            count,
        });
    }
    Some(v)
}
