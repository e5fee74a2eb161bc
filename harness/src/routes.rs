//! Every public route to a distance.
use crate::num::Flt;
use crate::runner::lib;
use crate::shape::*;
use quadtree::*;

/// Run an expression with the shape as its bare geo type.
#[macro_export]
macro_rules! typed {
    ($t:ty, $s:expr, $v:ident => $e:expr) => {
        match $s {
            $crate::Shape::Pt(p) => {
                let $v = &$crate::point::<$t>(*p);
                $e
            }
            $crate::Shape::Ln(..) => {
                let $v = &$s.line::<$t>();
                $e
            }
            $crate::Shape::Ls(..) => {
                let $v = &$s.linestring::<$t>();
                $e
            }
            $crate::Shape::Pg(..) => {
                let $v = &$s.polygon::<$t>();
                $e
            }
            $crate::Shape::Rc(a, b) => {
                let $v = &$crate::rect::<$t>(*a, *b);
                $e
            }
        }
    };
}

pub type Routes = Vec<(&'static str, Result<f64, Error>)>;

fn f<T: Flt>(r: Result<T, Error>) -> Result<f64, Error> {
    r.map(|v| v.f())
}

/// Distances from s to t by the calculator.
pub fn calc_routes<T: Flt>(s: &Shape, t: &Shape, m: CalcMethod, out: &mut Routes) {
    let (gs, gt) = (s.geometry::<T>(), t.geometry::<T>());
    lib(|| {
        let rt = gt.as_geom();
        out.push(("Geometry.with_calc.dist_geom", f(gs.with_calc(m).dist_geom(&rt))));
        out.push(("GeometryRef.with_calc.dist_geom", f(gs.as_geom().with_calc(m).dist_geom(&rt))));
        out.push(("GeometryRef.into_calc.dist_geom", f(gs.as_geom().into_calc(m).dist_geom(&rt))));
        typed!(T, s, v => out.push(("typed.with_calc.dist_geom", f(v.with_calc(m).dist_geom(&rt)))));
        typed!(T, t, w => out.push(("Geometry.with_calc.dist_geom(typed)", f(gs.with_calc(m).dist_geom(&w.as_geom())))));
    });
}

pub fn euclid_routes<T: Flt>(s: &Shape, t: &Shape) -> Routes {
    let mut out: Routes = vec![];
    let (gs, gt) = (s.geometry::<T>(), t.geometry::<T>());
    lib(|| {
        let (rs, rt) = (gs.as_geom(), gt.as_geom());
        out.push(("Geometry/Geometry", Ok(gs.dist_euclidean(&gt).f())));
        out.push(("Geometry/GeometryRef", Ok(gs.dist_euclidean(&rt).f())));
        out.push(("GeometryRef/Geometry", Ok(rs.dist_euclidean(&gt).f())));
        out.push(("GeometryRef/GeometryRef", Ok(rs.dist_euclidean(&rt).f())));
        typed!(T, s, v => {
            out.push(("typed/GeometryRef", Ok(v.dist_euclidean(&rt).f())));
            out.push(("typed/Geometry", Ok(v.dist_euclidean(&gt).f())));
        });
        if let (Shape::Rc(a, b), Shape::Rc(c, d)) = (s, t) {
            let v = quadtree::euclidean::math::dist_rect_rect(&rect::<T>(*a, *b), &rect::<T>(*c, *d));
            out.push(("euclidean::math::dist_rect_rect", Ok(v.f())));
        }
        if let Shape::Rc(c, d) = t {
            let v = gs.with_calc(CalcMethod::Euclidean).dist_bbox(&rect::<T>(*c, *d));
            out.push(("dist_bbox", v.map(|v| v.f())));
        }
    });
    calc_routes::<T>(s, t, CalcMethod::Euclidean, &mut out);
    out
}

pub fn spherical_routes<T: Flt>(s: &Shape, t: &Shape) -> Routes {
    use quadtree::spherical::math as m;
    let mut out: Routes = vec![];
    let (gs, gt) = (s.geometry::<T>(), t.geometry::<T>());
    lib(|| {
        let (rs, rt) = (gs.as_geom(), gt.as_geom());
        out.push(("Geometry/Geometry", f(gs.dist_haversine(&gt))));
        out.push(("Geometry/GeometryRef", f(gs.dist_haversine(&rt))));
        out.push(("GeometryRef/Geometry", f(rs.dist_haversine(&gt))));
        out.push(("GeometryRef/GeometryRef", f(rs.dist_haversine(&rt))));
        typed!(T, s, v => {
            out.push(("typed/GeometryRef", f(v.dist_haversine(&rt))));
            out.push(("typed/Geometry", f(v.dist_haversine(&gt))));
        });
        if let Shape::Pt(p) = s {
            let p = &point::<T>(*p);
            let v = match t {
                Shape::Pt(q) => m::dist_pt_pt(p, &point(*q)),
                Shape::Ln(..) => m::dist_pt_line(p, &t.line()),
                Shape::Ls(..) => m::dist_pt_linestring(p, &t.linestring()),
                Shape::Pg(..) => m::dist_pt_poly(p, &t.polygon()),
                Shape::Rc(a, b) => m::dist_pt_rect(p, &rect(*a, *b)),
            };
            out.push(("spherical::math", Ok(v.f())));
        }
        if let (Shape::Rc(a, b), Shape::Rc(c, d)) = (s, t) {
            let v = m::dist_rect_rect(&rect::<T>(*a, *b), &rect::<T>(*c, *d));
            out.push(("spherical::math::dist_rect_rect", Ok(v.f())));
        }
    });
    calc_routes::<T>(s, t, CalcMethod::Spherical, &mut out);
    out
}
