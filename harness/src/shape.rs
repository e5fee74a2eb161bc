//! Shapes in f64 and an independent oracle for their distances.
//!
//! Nothing in here uses the library under test, nor geo's distance or
//! containment code: planar distances are computed segment by segment, and
//! spherical ones from 3-D unit vectors.
use crate::num::Num;
use geo::{Coord, Line, LineString, Point, Polygon, Rect};
use quadtree::Geometry;
use std::f64::consts::PI;

pub type P = [f64; 2];

#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Pt(P),
    Ln(P, P),
    Ls(Vec<P>),
    /// exterior ring and holes, without the closing vertex
    Pg(Vec<P>, Vec<Vec<P>>),
    /// lowest and highest corner
    Rc(P, P),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Pt,
    Ln,
    Ls,
    Pg,
    Rc,
}
pub const KINDS: [Kind; 5] = [Kind::Pt, Kind::Ln, Kind::Ls, Kind::Pg, Kind::Rc];

pub fn c<T: Num>(p: P) -> Coord<T> {
    Coord {
        x: T::of(p[0]),
        y: T::of(p[1]),
    }
}
pub fn point<T: Num>(p: P) -> Point<T> {
    Point(c(p))
}
pub fn rect<T: Num>(a: P, b: P) -> Rect<T> {
    Rect::new(c::<T>(a), c::<T>(b))
}
fn ring<T: Num>(r: &[P]) -> LineString<T> {
    LineString(r.iter().map(|p| c(*p)).collect())
}

impl Shape {
    pub fn kind(&self) -> Kind {
        match self {
            Shape::Pt(..) => Kind::Pt,
            Shape::Ln(..) => Kind::Ln,
            Shape::Ls(..) => Kind::Ls,
            Shape::Pg(..) => Kind::Pg,
            Shape::Rc(..) => Kind::Rc,
        }
    }

    pub fn line<T: Num>(&self) -> Line<T> {
        match self {
            Shape::Ln(a, b) => Line::new(c::<T>(*a), c::<T>(*b)),
            _ => unreachable!(),
        }
    }
    pub fn linestring<T: Num>(&self) -> LineString<T> {
        match self {
            Shape::Ls(v) => ring(v),
            _ => unreachable!(),
        }
    }
    pub fn polygon<T: Num>(&self) -> Polygon<T> {
        match self {
            Shape::Pg(e, h) => Polygon::new(ring(e), h.iter().map(|r| ring(r)).collect()),
            _ => unreachable!(),
        }
    }

    /// As the library's owned geometry. Built through the enum's variants, not
    /// through the conversions that are themselves under test.
    pub fn geometry<T: Num>(&self) -> Geometry<T> {
        match self {
            Shape::Pt(p) => Geometry::Point(point(*p)),
            Shape::Ln(..) => Geometry::Line(self.line()),
            Shape::Ls(..) => Geometry::LineString(self.linestring()),
            Shape::Pg(..) => Geometry::Polygon(self.polygon()),
            Shape::Rc(a, b) => Geometry::Rect(rect(*a, *b)),
        }
    }

    pub fn geo<T: Num>(&self) -> geo::Geometry<T> {
        match self {
            Shape::Pt(p) => geo::Geometry::Point(point(*p)),
            Shape::Ln(..) => geo::Geometry::Line(self.line()),
            Shape::Ls(..) => geo::Geometry::LineString(self.linestring()),
            Shape::Pg(..) => geo::Geometry::Polygon(self.polygon()),
            Shape::Rc(a, b) => geo::Geometry::Rect(rect(*a, *b)),
        }
    }

    /// Bounding box, None when empty. (Holes lie inside the exterior.)
    pub fn bbox(&self) -> Option<(P, P)> {
        let over = |v: &[P]| {
            let f = v.first()?;
            let mut lo = *f;
            let mut hi = *f;
            for p in v {
                for k in 0..2 {
                    if p[k] < lo[k] {
                        lo[k] = p[k]
                    }
                    if p[k] > hi[k] {
                        hi[k] = p[k]
                    }
                }
            }
            Some((lo, hi))
        };
        match self {
            Shape::Pt(p) => Some((*p, *p)),
            Shape::Ln(a, b) | Shape::Rc(a, b) => over(&[*a, *b]),
            Shape::Ls(v) => over(v),
            Shape::Pg(e, _) => over(e),
        }
    }

    pub fn vertices(&self) -> Vec<P> {
        match self {
            Shape::Pt(p) => vec![*p],
            Shape::Ln(a, b) => vec![*a, *b],
            Shape::Rc(a, b) => vec![*a, [b[0], a[1]], *b, [a[0], b[1]]],
            Shape::Ls(v) => v.clone(),
            Shape::Pg(e, h) => e.iter().chain(h.iter().flatten()).copied().collect(),
        }
    }

    pub fn map(&self, f: &mut impl FnMut(P) -> P) -> Shape {
        match self {
            Shape::Pt(p) => Shape::Pt(f(*p)),
            Shape::Ln(a, b) => Shape::Ln(f(*a), f(*b)),
            Shape::Rc(a, b) => {
                let (a, b) = (f(*a), f(*b));
                Shape::Rc(
                    [a[0].min(b[0]), a[1].min(b[1])],
                    [a[0].max(b[0]), a[1].max(b[1])],
                )
            }
            Shape::Ls(v) => Shape::Ls(v.iter().map(|p| f(*p)).collect()),
            Shape::Pg(e, h) => Shape::Pg(
                e.iter().map(|p| f(*p)).collect(),
                h.iter().map(|r| r.iter().map(|p| f(*p)).collect()).collect(),
            ),
        }
    }

    /// Every coordinate rounded to T.
    pub fn round<T: Num>(&self) -> Shape {
        self.map(&mut |p| [T::of(p[0]).f(), T::of(p[1]).f()])
    }

    fn rings(&self) -> Vec<Vec<P>> {
        match self {
            Shape::Rc(..) => vec![self.vertices()],
            Shape::Pg(e, h) => {
                let mut v = vec![e.clone()];
                v.extend(h.iter().cloned());
                v
            }
            _ => vec![],
        }
    }

    /// All segments (a point is a degenerate segment).
    pub fn segments(&self) -> Vec<(P, P)> {
        match self {
            Shape::Pt(p) => vec![(*p, *p)],
            Shape::Ln(a, b) => vec![(*a, *b)],
            Shape::Ls(v) => v.windows(2).map(|w| (w[0], w[1])).collect(),
            _ => self
                .rings()
                .iter()
                .flat_map(|r| {
                    (0..r.len())
                        .map(|i| (r[i], r[(i + 1) % r.len()]))
                        .collect::<Vec<_>>()
                })
                .collect(),
        }
    }

    /// Even-odd containment in the area (border not decided here: the border
    /// is at distance zero anyway).
    pub fn area_contains(&self, q: P) -> bool {
        if let Shape::Rc(a, b) = self {
            return a[0] <= q[0] && q[0] <= b[0] && a[1] <= q[1] && q[1] <= b[1];
        }
        let mut inside = false;
        for r in self.rings() {
            for i in 0..r.len() {
                let (a, b) = (r[i], r[(i + 1) % r.len()]);
                if (a[1] > q[1]) != (b[1] > q[1]) {
                    let x = a[0] + (q[1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0]);
                    if x > q[0] {
                        inside = !inside;
                    }
                }
            }
        }
        inside
    }

    pub fn is_area(&self) -> bool {
        matches!(self, Shape::Pg(..) | Shape::Rc(..))
    }

    pub fn show(&self) -> String {
        match self {
            Shape::Pt(p) => format!("Pt({:?},{:?})", p[0], p[1]),
            _ => format!("{self:?}"),
        }
    }
}

fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1]]
}
fn cross(a: P, b: P) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}
fn dot(a: P, b: P) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
pub fn pt_pt(a: P, b: P) -> f64 {
    let d = sub(a, b);
    d[0].hypot(d[1])
}
/// Parameter in [0,1] of the point of segment ab closest to q.
pub fn nearest_param(q: P, a: P, b: P) -> f64 {
    let d = sub(b, a);
    let l = dot(d, d);
    if l == 0.0 {
        return 0.0;
    }
    (dot(sub(q, a), d) / l).clamp(0.0, 1.0)
}
pub fn pt_seg(q: P, a: P, b: P) -> f64 {
    let t = nearest_param(q, a, b);
    if t == 1.0 {
        return pt_pt(q, b);
    }
    pt_pt(q, [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])])
}
fn seg_cross(a: P, b: P, c: P, d: P) -> bool {
    let o1 = cross(sub(b, a), sub(c, a));
    let o2 = cross(sub(b, a), sub(d, a));
    let o3 = cross(sub(d, c), sub(a, c));
    let o4 = cross(sub(d, c), sub(b, c));
    ((o1 > 0.0) != (o2 > 0.0)) && ((o3 > 0.0) != (o4 > 0.0)) && o1 != 0.0 && o2 != 0.0 && o3 != 0.0 && o4 != 0.0
}
pub fn seg_seg(a: P, b: P, c: P, d: P) -> f64 {
    if seg_cross(a, b, c, d) {
        return 0.0;
    }
    pt_seg(a, c, d)
        .min(pt_seg(b, c, d))
        .min(pt_seg(c, a, b))
        .min(pt_seg(d, a, b))
}

/// Planar distance between two (non-empty) shapes.
pub fn euclid(s: &Shape, t: &Shape) -> f64 {
    if let (Shape::Pt(a), Shape::Pt(b)) = (s, t) {
        return pt_pt(*a, *b);
    }
    if let (Shape::Rc(a, b), Shape::Rc(c, d)) = (s, t) {
        let g = |k: usize| (c[k] - b[k]).max(a[k] - d[k]).max(0.0);
        return g(0).hypot(g(1));
    }
    if s.is_area() && t.vertices().iter().any(|v| s.area_contains(*v)) {
        return 0.0;
    }
    if t.is_area() && s.vertices().iter().any(|v| t.area_contains(*v)) {
        return 0.0;
    }
    let mut m = f64::INFINITY;
    let ts = t.segments();
    for (a, b) in s.segments() {
        for (c, d) in &ts {
            m = m.min(seg_seg(a, b, *c, *d));
            if m == 0.0 {
                return 0.0;
            }
        }
    }
    m
}

// ---------------------------------------------------------------- sphere ----

fn unit(p: P) -> [f64; 3] {
    [
        p[1].cos() * p[0].cos(),
        p[1].cos() * p[0].sin(),
        p[1].sin(),
    ]
}

/// Central angle, from unit vectors.
pub fn angle(p: P, q: P) -> f64 {
    // Rotate so that only the difference in longitude matters
    let a = unit([0.0, p[1]]);
    let b = unit([q[0] - p[0], q[1]]);
    let x = [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ];
    let s = (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt();
    let c = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    s.atan2(c)
}

/// How far a haversine computed with unit round-off `eps` may be off at angle d.
pub fn angle_tol(d: f64, eps: f64) -> f64 {
    // d = 2 asin(sqrt a): an error of e in a moves d by e / sqrt(a (1 - a)),
    // but never by more than about 2 sqrt(e) near a = 1.
    let a = (d / 2.0).sin().powi(2);
    let e = 64.0 * eps;
    let near_pi = (e / (a * (1.0 - a)).max(1e-300).sqrt()).min(4.0 * e.sqrt());
    if a < 0.25 {
        // relative accuracy for small angles, plus the error in the inputs' differences
        e * 4.0
    } else {
        e * 4.0 + near_pi
    }
}

/// Least angle from p to the meridian arc at lng over [y1, y2].
pub fn pt_meridian(p: P, lng: f64, y1: f64, y2: f64) -> f64 {
    let e = |y: f64| angle(p, [lng, y]);
    let mut best = e(y1).min(e(y2));
    // the angle as a function of latitude is unimodal around its critical
    // latitudes; find them by the derivative of cos(angle)
    let dl = p[0] - lng;
    let star = p[1].sin().atan2(p[1].cos() * dl.cos());
    for cand in [star, star - PI, star + PI] {
        if cand > y1 && cand < y2 {
            best = best.min(e(cand));
        }
    }
    best
}

pub fn sph_pt_rect(p: P, lo: P, hi: P) -> f64 {
    let in_x = lo[0] <= p[0] && p[0] <= hi[0];
    let in_y = lo[1] <= p[1] && p[1] <= hi[1];
    if in_x && in_y {
        return 0.0;
    }
    let mut m = pt_meridian(p, lo[0], lo[1], hi[1]).min(pt_meridian(p, hi[0], lo[1], hi[1]));
    if in_x {
        m = m.min(if p[1] < lo[1] { lo[1] - p[1] } else { p[1] - hi[1] });
    }
    m
}

/// Accepted range of the distance to a segment: the angle to the planar
/// nearest point, for each admissible turn of the point's longitude (there are
/// two when it is exactly half a turn from the middle).
pub fn sph_pt_seg(p: P, a: P, b: P, eps: f64) -> (f64, f64) {
    let mid = (a[0] + b[0]) / 2.0;
    let turns = (mid - p[0]) / (2.0 * PI);
    let r = turns.round();
    let mut cands = vec![r];
    // a tie is only a tie to within the type's rounding of angles and of pi
    let slack = 1e-9_f64.max(64.0 * eps);
    if (turns - r).abs() > 0.5 - slack {
        cands.push(r + (turns - r).signum());
    }
    let mut lo = f64::INFINITY;
    let mut hi = f64::NEG_INFINITY;
    for t in cands {
        let q = [p[0] + t * 2.0 * PI, p[1]];
        let u = nearest_param(q, a, b);
        let n = [a[0] + u * (b[0] - a[0]), a[1] + u * (b[1] - a[1])];
        let d = angle(p, n);
        lo = lo.min(d);
        hi = hi.max(d);
    }
    (lo, hi)
}

fn planar_area_meets(s: &Shape, p: P) -> bool {
    s.area_contains(p)
}

/// Accepted range for the library's spherical distance from a point to a shape.
pub fn sph_pt_shape(p: P, s: &Shape, eps: f64) -> (f64, f64) {
    match s {
        Shape::Pt(q) => {
            let d = angle(p, *q);
            (d, d)
        }
        Shape::Rc(lo, hi) => {
            let d = sph_pt_rect(p, *lo, *hi);
            (d, d)
        }
        Shape::Ln(a, b) => sph_pt_seg(p, *a, *b, eps),
        Shape::Ls(_) | Shape::Pg(..) => {
            if s.is_area() && planar_area_meets(s, p) {
                return (0.0, 0.0);
            }
            let mut r = (f64::INFINITY, f64::INFINITY);
            for (a, b) in s.segments() {
                let (l, h) = sph_pt_seg(p, a, b, eps);
                r = (r.0.min(l), r.1.min(h));
            }
            r
        }
    }
}

/// The documented rect-rect distance, and the accepted range for it (two
/// values when both ways round are equally long).
pub fn sph_rect_rect(a: (P, P), b: (P, P)) -> (f64, f64) {
    let ox = a.1[0] >= b.0[0] && b.1[0] >= a.0[0];
    let oy = a.1[1] >= b.0[1] && b.1[1] >= a.0[1];
    if ox && oy {
        return (0.0, 0.0);
    }
    if ox {
        let g = (b.0[1] - a.1[1]).max(a.0[1] - b.1[1]);
        return (g, g);
    }
    // both facing pairs of edges; the shorter gap counts
    let gap = |x: f64, y: f64| {
        let d = (x - y).rem_euclid(2.0 * PI);
        d.min(2.0 * PI - d)
    };
    let pairs = [(a.1[0], b.0[0]), (a.0[0], b.1[0])];
    let g = [gap(pairs[0].0, pairs[0].1), gap(pairs[1].0, pairs[1].1)];
    let mut use_pairs = vec![];
    let best = g[0].min(g[1]);
    for k in 0..2 {
        if g[k] <= best + 1e-6 {
            use_pairs.push(pairs[k]);
        }
    }
    let (ya, yb) = if oy {
        let lo = a.0[1].max(b.0[1]);
        let hi = a.1[1].min(b.1[1]);
        let y = if lo.abs() > hi.abs() { lo } else { hi };
        (y, y)
    } else if a.1[1] < b.0[1] {
        (a.1[1], b.0[1])
    } else {
        (a.0[1], b.1[1])
    };
    let mut r = (f64::INFINITY, f64::NEG_INFINITY);
    for (xa, xb) in use_pairs {
        let d = angle([xa, ya], [xb, yb]);
        r = (r.0.min(d), r.1.max(d));
    }
    r
}

/// True least angle between two lat/lng rectangles.
pub fn sph_rect_rect_min(a: (P, P), b: (P, P)) -> f64 {
    let ox = a.1[0] >= b.0[0] && b.1[0] >= a.0[0];
    let oy = a.1[1] >= b.0[1] && b.1[1] >= a.0[1];
    if ox && oy {
        return 0.0;
    }
    let mut m = f64::INFINITY;
    for (r, s) in [(a, b), (b, a)] {
        for x in [r.0[0], r.1[0]] {
            for y in [r.0[1], r.1[1]] {
                m = m.min(sph_pt_rect([x, y], s.0, s.1));
            }
        }
    }
    if ox {
        m = m.min((b.0[1] - a.1[1]).max(a.0[1] - b.1[1]));
    }
    m
}

/// Accepted range of the library's spherical distance between two shapes, or
/// None when the (ordered) pair is not supported.
pub fn spherical(s: &Shape, t: &Shape, eps: f64) -> Option<(f64, f64)> {
    match (s, t) {
        (Shape::Pt(p), _) => Some(sph_pt_shape(*p, t, eps)),
        (Shape::Ln(..) | Shape::Pg(..) | Shape::Rc(..), Shape::Pt(p)) => Some(sph_pt_shape(*p, s, eps)),
        (Shape::Rc(a, b), Shape::Rc(c, d)) => Some(sph_rect_rect((*a, *b), (*c, *d))),
        _ => None,
    }
}

// ------------------------------------------------- exact meeting on a grid ----

/// Whether two shapes share a point, decided in integers. Every coordinate must
/// be a multiple of `step` away from `lo`, by less than 2^40 steps.
pub fn meets_exact(s: &Shape, t: &Shape, lo: P, step: P) -> bool {
    type I = (i128, i128);
    let conv = |p: P| -> I {
        let k = |a: usize| {
            let v = (p[a] - lo[a]) / step[a];
            assert!(v == v.round() && v.abs() < 2f64.powi(40), "{p:?} is not on the grid");
            v as i128
        };
        (k(0), k(1))
    };
    fn cr(o: I, a: I, b: I) -> i128 {
        (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0)
    }
    fn on(p: I, a: I, b: I) -> bool {
        cr(a, b, p) == 0
            && p.0 >= a.0.min(b.0)
            && p.0 <= a.0.max(b.0)
            && p.1 >= a.1.min(b.1)
            && p.1 <= a.1.max(b.1)
    }
    fn segs(a: I, b: I, c: I, d: I) -> bool {
        if on(a, c, d) || on(b, c, d) || on(c, a, b) || on(d, a, b) {
            return true;
        }
        let (o1, o2, o3, o4) = (cr(a, b, c), cr(a, b, d), cr(c, d, a), cr(c, d, b));
        (o1 > 0) != (o2 > 0) && (o3 > 0) != (o4 > 0) && o1 != 0 && o2 != 0 && o3 != 0 && o4 != 0
    }
    let to_segs = |x: &Shape| -> Vec<(I, I)> { x.segments().iter().map(|(a, b)| (conv(*a), conv(*b))).collect() };
    let (ss, ts) = (to_segs(s), to_segs(t));
    if ss.iter().any(|x| ts.iter().any(|y| segs(x.0, x.1, y.0, y.1))) {
        return true;
    }
    // No borders meet: one lies within the other or they are apart.
    let inside = |p: P, x: &Shape| -> bool {
        if !x.is_area() {
            return false;
        }
        let p = conv(p);
        let mut odd = false;
        for r in x.rings() {
            for i in 0..r.len() {
                let (a, b) = (conv(r[i]), conv(r[(i + 1) % r.len()]));
                if (a.1 > p.1) != (b.1 > p.1) {
                    // crossing to the right of p?
                    let c = cr(a, b, p);
                    if (b.1 > a.1) == (c > 0) {
                        odd = !odd;
                    }
                }
            }
        }
        odd
    };
    inside(s.vertices()[0], t) || inside(t.vertices()[0], s)
}
