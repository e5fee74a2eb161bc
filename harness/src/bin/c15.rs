//! C15: how a geometry is wrapped never changes an answer.
use geo::BoundingRect;
use qtmon::routes::*;
use qtmon::sphere::*;
use qtmon::*;
use quadtree::{
    AsGeom, AsPoint, BoundsQuadTree, CalcMethod, Error, Geometry, GeometryRef, PointQuadTree, QuadTree,
    QuadTreeSearch,
};

/// A user's own type, around a bare geometry.
#[allow(dead_code)]
struct Mine<G>(u64, G);
impl<T: Num, G: AsGeom<T>> AsGeom<T> for Mine<G> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        self.1.as_geom()
    }
}
impl<T: Num, G: AsPoint<T>> AsPoint<T> for Mine<G> {
    fn as_point(&self) -> geo::Point<T> {
        self.1.as_point()
    }
}

fn name<T: Num, D: AsGeom<T>>(d: &D) -> String {
    format!("{:?}", d.as_geom())
}

/// What a tree answers, in terms of the geometries alone.
#[derive(PartialEq, Debug)]
struct Seen {
    inserts: Vec<Result<(), Error>>,
    size: usize,
    iter: Vec<String>,
    show: String,
    retrieved: Vec<Vec<String>>,
}

fn build<T: Num, D: AsGeom<T>>(f: &Frame, m: CalcMethod, c: Cfg, data: Vec<D>, asks: &[D]) -> (BoundsQuadTree<D, T>, Seen) {
    lib(|| {
        let mut t = BoundsQuadTree::new(f.rect::<T>(), m, c.depth, c.children);
        let inserts = data.into_iter().map(|d| t.insert(d)).collect();
        let mut iter: Vec<String> = (&t).into_iter().map(|d| name::<T, D>(d)).collect();
        iter.sort();
        let retrieved = asks
            .iter()
            .map(|q| {
                let mut v: Vec<String> = t.retrieve(q).map(|d| name::<T, D>(d)).collect();
                v.sort();
                v
            })
            .collect();
        let s = Seen {
            inserts,
            size: t.size(),
            iter,
            show: t.to_string(),
            retrieved,
        };
        (t, s)
    })
}

type Answer = Result<Vec<f64>, Error>;

fn search<T: Flt, D: AsGeom<T>, X: AsGeom<T>>(t: &BoundsQuadTree<D, T>, x: &X, k: usize, r: T) -> Vec<(&'static str, Answer)> {
    let one = |v: Result<(&D, T), Error>| v.map(|(_, v)| vec![v.f()]);
    let many = |v: Result<Vec<(&D, T)>, Error>| v.map(|v| v.into_iter().map(|(_, v)| v.f()).collect());
    lib(|| {
        vec![
            ("find", one(t.find(x))),
            ("find_r", one(t.find_r(x, r))),
            ("knn", many(t.knn(x, k))),
            ("knn_r", many(t.knn_r(x, k, r))),
            ("sorted", Ok(t.sorted(x).map(|(_, v)| v.f()).collect())),
        ]
    })
}

/// The same searches with the comparator in every wrapping.
fn searches<T: Flt, D: AsGeom<T>>(t: &BoundsQuadTree<D, T>, q: &Shape, k: usize, r: T) -> Vec<(&'static str, Vec<(&'static str, Answer)>)> {
    let g = q.geometry::<T>();
    let mut v = vec![
        ("Geometry", search(t, &g, k, r)),
        ("GeometryRef", search(t, &g.as_geom(), k, r)),
        ("user type around Geometry", search(t, &Mine(1, g.clone()), k, r)),
    ];
    typed!(T, q, b => {
        v.push(("bare", search(t, b, k, r)));
        v.push(("user type around bare", search(t, &Mine(2, b.clone()), k, r)));
    });
    v
}

fn agree(a: &Answer, b: &Answer, tol: &dyn Fn(f64) -> f64, what: &str) -> Res {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            ensure!(a.len() == b.len(), "{what}: {} against {} results", a.len(), b.len());
            for (x, y) in a.iter().zip(b) {
                ensure!((x - y).abs() <= tol(x.max(*y)), "{what}: {x:?} against {y:?}");
            }
            Ok(())
        }
        (Err(a), Err(b)) if a == b => Ok(()),
        (a, b) => Err(Fail(format!("{what}: {a:?} against {b:?}"))),
    }
}

fn same_seen(a: &Seen, b: &Seen, what: &str) -> Res {
    ensure!(a.inserts == b.inserts, "{what}: inserts {:?} against {:?}", a.inserts, b.inserts);
    ensure!(a.size == b.size, "{what}: size {} against {}", a.size, b.size);
    ensure!(a.iter == b.iter, "{what}: holds {:?} against {:?}", a.iter, b.iter);
    ensure!(a.show == b.show, "{what}: displayed as {:?} against {:?}", a.show, b.show);
    ensure!(a.retrieved == b.retrieved, "{what}: retrieved {:?} against {:?}", a.retrieved, b.retrieved);
    Ok(())
}

fn shapes<T: Num>(ctx: &mut Ctx, pl: &mut Places, kinds: &[Kind], n: usize, out: bool) -> Vec<Shape> {
    (0..n)
        .map(|_| {
            let k = *ctx.rng.pick(kinds);
            if k == Kind::Pt && out && ctx.rng.chance(1, 6) {
                return Shape::Pt(pl.outside::<T>(&mut ctx.rng));
            }
            pl.shape::<T>(&mut ctx.rng, k)
        })
        .collect()
}

fn trees<T: Num>(ctx: &mut Ctx) -> Result<(), Fail> {
    let f = any_frame::<T>(&mut ctx.rng, true);
    let mut c = cfg(&mut ctx.rng, 255);
    c.default = false;
    let n = how_many(&mut ctx.rng, c, ctx.small).min(25);
    let mut pl = Places::new(&mut ctx.rng, &f);
    let one = ctx.rng.chance(2, 3);
    let kinds = if one { vec![kind(&mut ctx.rng)] } else { KINDS.to_vec() };
    let data = shapes::<T>(ctx, &mut pl, &kinds, n, true);
    let asks = shapes::<T>(ctx, &mut pl, &kinds, 4, false);
    ctx.desc = format!("{} {f:?} {c:?} {data:?}", T::NAME);
    let m = CalcMethod::Euclidean;
    let owned = |v: &[Shape]| v.iter().map(|s| s.geometry::<T>()).collect::<Vec<_>>();
    let (gd, ga) = (owned(&data), owned(&asks));
    let what = |w: &str| format!("{w}; {} {f:?} {c:?} {} data, e.g. {:?}", T::NAME, data.len(), data.first());
    let (_, base) = build::<T, _>(&f, m, c, gd.clone(), &ga);
    // what is held is what was accepted, kind and coordinates
    let mut accepted: Vec<String> = gd
        .iter()
        .zip(&base.inserts)
        .filter(|(_, r)| r.is_ok())
        .map(|(g, _)| name::<T, _>(g))
        .collect();
    accepted.sort();
    ensure!(accepted == base.iter, "{}", what("held geometries differ from the accepted ones"));
    let (_, r) = build::<T, _>(&f, m, c, gd.iter().map(|g| g.as_geom()).collect(), &ga.iter().map(|g| g.as_geom()).collect::<Vec<_>>());
    same_seen(&base, &r, &what("Geometry and GeometryRef as data"))?;
    let my = |v: &[Geometry<T>]| v.iter().map(|g| Mine(7, g.clone())).collect::<Vec<_>>();
    let (_, r) = build::<T, _>(&f, m, c, my(&gd), &my(&ga));
    same_seen(&base, &r, &what("Geometry and a user type as data"))?;
    ctx.count("trees_compared", 3);
    if one && data.iter().chain(&asks).all(|s| s.kind() == kinds[0]) {
        macro_rules! bare {
            ($($k:ident => $v:ident, $e:expr);*) => {
                match kinds[0] { $(Kind::$k => {
                    let mk = |s: &[Shape]| s.iter().map(|$v| $e).collect::<Vec<_>>();
                    let (_, r) = build::<T, _>(&f, m, c, mk(&data), &mk(&asks));
                    same_seen(&base, &r, &what("Geometry and the bare type as data"))?;
                    ctx.count("bare_trees_compared", 1);
                })* }
            };
        }
        bare!(
            Pt => s, match s { Shape::Pt(p) => point::<T>(*p), _ => unreachable!() };
            Ln => s, s.line::<T>();
            Ls => s, s.linestring::<T>();
            Pg => s, s.polygon::<T>();
            Rc => s, match s { Shape::Rc(a, b) => rect::<T>(*a, *b), _ => unreachable!() }
        );
    }
    ctx.see(base.size as u64);
    ctx.see_str(&base.show);
    ctx.nontrivial |= base.size > 1;
    // bounding boxes
    for s in data.iter().chain(&asks) {
        let g = s.geometry::<T>();
        let want = s.bbox().map(|(a, b)| rect::<T>(a, b));
        let (x, y) = lib(|| (g.bounding_rect(), g.as_geom().bounding_rect()));
        ensure!(x == want && y == want, "bounding box of {} is {x:?} / {y:?}, expected {want:?}", s.show());
        ctx.count("bounding_boxes_checked", 1);
    }
    // point trees
    let pts: Vec<P> = data.iter().chain(&asks).map(|s| s.vertices()[0]).collect();
    let q: Vec<P> = asks.iter().map(|s| s.vertices()[0]).collect();
    let a = point_tree::<T, _>(&f, c, pts.iter().map(|p| point::<T>(*p)).collect(), &q.iter().map(|p| point::<T>(*p)).collect::<Vec<_>>());
    let b = point_tree::<T, _>(&f, c, pts.iter().map(|p| qtmon::c::<T>(*p)).collect(), &q.iter().map(|p| qtmon::c::<T>(*p)).collect::<Vec<_>>());
    same_seen(&a, &b, &what("point trees of Point and of Coord"))?;
    let b = point_tree::<T, _>(&f, c, pts.iter().map(|p| Mine(3, point::<T>(*p))).collect(), &q.iter().map(|p| Mine(4, point::<T>(*p))).collect::<Vec<_>>());
    same_seen(&a, &b, &what("point trees of Point and of a user type"))?;
    ctx.count("point_trees_compared", 2);
    Ok(())
}

fn point_tree<T: Num, D: AsPoint<T>>(f: &Frame, c: Cfg, data: Vec<D>, asks: &[D]) -> Seen {
    let nm = |d: &D| format!("{:?}", d.as_point());
    lib(|| {
        let mut t = PointQuadTree::new(f.rect::<T>(), CalcMethod::None, c.depth, c.children);
        let inserts = data.into_iter().map(|d| t.insert(d)).collect();
        let mut iter: Vec<String> = (&t).into_iter().map(&nm).collect();
        iter.sort();
        let retrieved = asks
            .iter()
            .map(|q| {
                let mut v: Vec<String> = t.retrieve(q).map(&nm).collect();
                v.sort();
                v
            })
            .collect();
        Seen { inserts, size: t.size(), iter, show: t.to_string(), retrieved }
    })
}

/// Searches over differently wrapped data with differently wrapped comparators.
fn search_case<T: Flt>(ctx: &mut Ctx) -> Res {
    let sph = ctx.rng.chance(1, 3);
    let (f, sf) = if sph {
        let s = sframe::<T>(&mut ctx.rng);
        (s.f.clone(), Some(s))
    } else {
        (any_frame::<T>(&mut ctx.rng, true), None)
    };
    let m = if sph { CalcMethod::Spherical } else { CalcMethod::Euclidean };
    let mut c = cfg(&mut ctx.rng, 255);
    c.default = false;
    let n = how_many(&mut ctx.rng, c, ctx.small).min(20);
    let mut pl = Places::new(&mut ctx.rng, &f);
    let one = ctx.rng.chance(1, 2);
    let kinds = if one { vec![kind(&mut ctx.rng)] } else { KINDS.to_vec() };
    let data = shapes::<T>(ctx, &mut pl, &kinds, n, false);
    let gd: Vec<Geometry<T>> = data.iter().map(|s| s.geometry::<T>()).collect();
    ctx.desc = format!("{m:?} {} {f:?} {c:?} {data:?}", T::NAME);
    let (t0, _) = build::<T, _>(&f, m, c, gd.clone(), &[]);
    let (t1, _) = build::<T, _>(&f, m, c, gd.iter().map(|g| g.as_geom()).collect(), &[]);
    let (t2, _) = build::<T, _>(&f, m, c, gd.iter().map(|g| Mine(5, g.clone())).collect(), &[]);
    for _ in 0..4 {
        let q = match &sf {
            Some(s) if ctx.rng.chance(1, 3) => srect::<T>(&mut ctx.rng, s, &mut pl),
            _ => {
                let k = if sph && ctx.rng.chance(2, 3) { Kind::Pt } else { kind(&mut ctx.rng) };
                pl.shape::<T>(&mut ctx.rng, k)
            }
        };
        let k = ctx.rng.below(n + 2);
        // A radius right at a distance would be decided by rounding
        let r = T::of(f.w(0).max(f.w(1)) * ctx.rng.unit() * 0.7);
        let et = 2.0 * etol::<T>(&f);
        let tol = |d: f64| if sph { 64.0 * T::EPS + 2.0 * angle_tol(d.min(3.2), T::EPS) } else { et };
        let base = search(&t0, &q.geometry::<T>(), k, r);
        for (dw, ans) in [("Geometry", searches(&t0, &q, k, r)), ("GeometryRef", searches(&t1, &q, k, r)), ("a user type", searches(&t2, &q, k, r))] {
            for (cw, ans) in ans {
                for ((w, a), (_, b)) in base.iter().zip(&ans) {
                    agree(a, b, &tol, &format!(
                        "{w} over Geometry for a Geometry against over {dw} for a {cw}: {} k = {k} r = {r:?}; {m:?} {} {f:?} {c:?} {data:?}",
                        q.show(), T::NAME
                    ))?;
                    ctx.count("searches_compared", 1);
                    if let Ok(b) = b {
                        ctx.nontrivial |= b.len() > 1;
                    }
                }
            }
        }
        if let Some((_, Ok(v))) = base.last() {
            for x in v.iter().take(8) {
                ctx.see_f(*x);
            }
        }
        // plain distances through every wrapping
        let dk = kind(&mut ctx.rng);
        let d = pl.shape::<T>(&mut ctx.rng, dk);
        let rs = if sph { spherical_routes::<T>(&q, &d) } else { euclid_routes::<T>(&q, &d) };
        let first = rs[0].clone();
        for (w, v) in rs {
            let same = match (&first.1, &v) {
                (Ok(a), Ok(b)) => (a - b).abs() <= tol(a.max(*b)),
                (Err(a), Err(b)) => a == b,
                // a linestring is only measured as the second argument
                (Ok(_), Err(_)) | (Err(_), Ok(_)) => sph && matches!((&q, &d), (Shape::Ls(_), Shape::Pt(_))),
            };
            ensure!(same, "distance by {w} is {v:?}, by {} {:?}: {} to {}", first.0, first.1, q.show(), d.show());
            ctx.count("distance_routes_compared", 1);
        }
    }
    Ok(())
}

fn raw_num<T: Num>(r: &mut Rng) -> T {
    if T::INT {
        return T::of(r.range(-30000, 30000) as f64);
    }
    T::of(*r.pick(&[
        0.0,
        -0.0,
        1.5,
        -7.25,
        1e30,
        -1e-30,
        f64::INFINITY,
        f64::NEG_INFINITY,
        std::f64::consts::PI,
    ]) * if r.chance(1, 2) { 1.0 } else { r.unit() + 0.5 })
}

/// Conversions keep kind and coordinates, and refuse the rest.
fn conversions<T: Num>(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let co = |r: &mut Rng| geo::Coord { x: raw_num::<T>(r), y: raw_num::<T>(r) };
    let ls = |r: &mut Rng| {
        let n = if r.chance(1, 60) { 300 } else { 6 };
        geo::LineString((0..r.below(n)).map(|_| co(r)).collect())
    };
    let pg = |r: &mut Rng| {
        let e = ls(r);
        let n = if r.chance(1, 60) { 20 } else { 3 };
        let n = r.below(n);
        geo::Polygon::new(e, (0..n).map(|_| ls(r)).collect())
    };
    let (p, mut l, mut s, mut g, mut b) = (
        geo::Point(co(r)),
        geo::Line::new(co(r), co(r)),
        ls(r),
        pg(r),
        geo::Rect::new(co(r), co(r)),
    );
    // Some that could just as well be something else: boxes, triangles and
    // rings, lines and rects of no extent, lines along an axis
    let same = geo::Coord { y: l.start.y, ..l.end };
    match r.below(8) {
        0 => l.end = l.start,
        1 => l.end = same,
        2 => b = geo::Rect::new(b.min(), b.min()),
        3 => b = geo::Rect::new(b.min(), geo::Coord { x: b.min().x, ..b.max() }),
        _ => {}
    }
    match r.below(8) {
        0 => s = geo::LineString(vec![l.start, l.end]),
        1 => s = geo::LineString(vec![p.0; r.below(5)]),
        2 => s.close(),
        3 => s = b.to_polygon().into_inner().0,
        4 => s = geo::Triangle(co(r), co(r), co(r)).to_polygon().into_inner().0,
        _ => {}
    }
    let holes = if r.chance(1, 2) { vec![] } else { vec![ls(r)] };
    match r.below(8) {
        0 => {
            g = b.to_polygon();
            for h in holes {
                g.interiors_push(h);
            }
        }
        1 => {
            // the same box, begun elsewhere or the other way round
            let mut v = b.to_polygon().into_inner().0 .0;
            v.pop();
            let n = r.below(4);
            v.rotate_left(n);
            if r.chance(1, 2) {
                v.reverse();
            }
            g = geo::Polygon::new(geo::LineString(v), holes);
        }
        2 => g = geo::Polygon::new(s.clone(), holes),
        3 => g = geo::Polygon::new(geo::LineString(vec![l.start, l.end]), holes),
        4 => g = geo::Polygon::new(geo::LineString(vec![p.0]), holes),
        5 => g = geo::Polygon::new(geo::Triangle(co(r), co(r), co(r)).to_polygon().into_inner().0, holes),
        _ => {}
    }
    macro_rules! keeps {
        ($v:ident, $k:ident, $b:expr) => {{
            let want = format!("{:?}", $v);
            let x: Geometry<T> = lib(|| $v.clone().into());
            let y: Result<Geometry<T>, Error> = lib(|| Geometry::try_from(geo::Geometry::$k($v.clone())));
            for (w, z) in [("From", Some(x)), ("TryFrom<geo::Geometry>", y.clone().ok())] {
                match &z {
                    Some(Geometry::$k(v)) => ensure!(format!("{v:?}") == want, "{w} turned {want} into {v:?}"),
                    z => fail!("{w} turned {want} into {z:?} ({y:?})"),
                }
                // and back as a reference to the same thing
                let z = z.unwrap();
                match (lib(|| z.as_geom()), &z) {
                    (GeometryRef::$k(v), Geometry::$k(o)) => {
                        ensure!(std::ptr::eq(v, o) || format!("{v:?}") == want, "as_geom of {want} is {v:?}")
                    }
                    (v, _) => fail!("as_geom of {want} is {v:?}"),
                }
            }
            match lib(|| $v.as_geom()) {
                GeometryRef::$k(v) => ensure!(format!("{v:?}") == want, "as_geom of {want} is {v:?}"),
                v => fail!("as_geom of {want} is {v:?}"),
            }
            let rf = lib(|| $v.as_geom());
            let rf2 = lib(|| rf.as_geom());
            ensure!(format!("{rf:?}") == format!("{rf2:?}"), "as_geom of {rf:?} is {rf2:?}");
            let _ = $b;
        }};
    }
    keeps!(p, Point, 0);
    keeps!(l, Line, 0);
    keeps!(s, LineString, 0);
    keeps!(g, Polygon, 0);
    keeps!(b, Rect, 0);
    let others: Vec<geo::Geometry<T>> = vec![
        geo::Geometry::MultiPoint(geo::MultiPoint((0..r.below(3)).map(|_| geo::Point(co(r))).collect())),
        geo::Geometry::MultiPoint(geo::MultiPoint(vec![p])),
        geo::Geometry::MultiLineString(geo::MultiLineString((0..r.below(3)).map(|_| ls(r)).collect())),
        geo::Geometry::MultiLineString(geo::MultiLineString(vec![s.clone()])),
        geo::Geometry::MultiPolygon(geo::MultiPolygon((0..r.below(3)).map(|_| pg(r)).collect())),
        geo::Geometry::MultiPolygon(geo::MultiPolygon(vec![g.clone()])),
        geo::Geometry::GeometryCollection(geo::GeometryCollection(vec![])),
        geo::Geometry::GeometryCollection(geo::GeometryCollection(vec![geo::Geometry::Point(p)])),
        geo::Geometry::GeometryCollection(geo::GeometryCollection(vec![geo::Geometry::Rect(b), geo::Geometry::Line(l)])),
        geo::Geometry::Triangle(geo::Triangle(co(r), co(r), co(r))),
    ];
    for o in others {
        let d = format!("{o:?}");
        let v = lib(|| Geometry::try_from(o));
        ensure!(matches!(v, Err(Error::UnsupportedGeometry)), "TryFrom of {d} gave {v:?}");
        ctx.count("refused_conversions", 1);
    }
    // nothing in it, no box
    let e = geo::LineString::<T>(vec![]);
    let ep = geo::Polygon::<T>::new(geo::LineString(vec![]), vec![]);
    for g in [Geometry::LineString(e), Geometry::Polygon(ep)] {
        let (x, y) = lib(|| (g.bounding_rect(), g.as_geom().bounding_rect()));
        ensure!(x.is_none() && y.is_none(), "bounding box of {g:?} is {x:?} / {y:?}");
    }
    ctx.count("kept_conversions", 10);
    ctx.see_str(&format!("{p:?}{l:?}"));
    ctx.nontrivial = true;
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(5) {
        0 => any_num!(ctx, conversions),
        1 | 2 => any_num!(ctx, trees),
        _ => any_flt!(ctx, search_case),
    }
}

fn main() {
    runner::main("C15", case)
}
