//! Workload generation: root bounds ("frames"), tree configurations, positions
//! and shapes. Hostile by design: split lines, edges, neighbouring floats,
//! duplicates, clusters, degenerate boxes, and long tails in every size.
use crate::num::Num;
use crate::rng::Rng;
use crate::shape::*;
use std::f64::consts::PI;
use std::ops::Range;

/// Root bounds, with what is known about their arithmetic.
#[derive(Clone, Debug)]
pub struct Frame {
    pub lo: P,
    pub hi: P,
    /// All positions lie on a grid on which halving is exact down to `max_depth`.
    pub exact: bool,
    /// Grid cells per axis are 2^bits (exact frames).
    pub bits: u32,
    pub max_depth: u8,
    /// Integer coordinates: halves round down.
    pub int: bool,
    pub name: &'static str,
}

impl Frame {
    /// Are the model's cells exactly the library's?
    pub fn modelled(&self) -> bool {
        self.exact || self.int || (self.w(0) == 0.0 && self.w(1) == 0.0)
    }
    /// Slack within which the model does not know on which side of a split
    /// line something lies.
    pub fn blur<T: Num>(&self) -> f64 {
        if self.modelled() { 0.0 } else { 64.0 * T::EPS * self.scale() }
    }
    pub fn w(&self, k: usize) -> f64 {
        self.hi[k] - self.lo[k]
    }
    /// The extent, or one to use for want of one.
    pub fn span(&self, k: usize) -> f64 {
        if self.w(k) > 0.0 {
            self.w(k)
        } else if self.w(1 - k) > 0.0 {
            self.w(1 - k)
        } else {
            1.0
        }
    }
    /// Magnitude of the numbers involved.
    pub fn scale(&self) -> f64 {
        let mut m: f64 = 0.0;
        for p in [self.lo, self.hi] {
            for k in 0..2 {
                m = m.max(p[k].abs());
            }
        }
        m.max(self.span(0)).max(self.span(1))
    }
    pub fn step(&self, k: usize) -> f64 {
        self.span(k) / (1u64 << self.bits) as f64
    }
    pub fn rect<T: Num>(&self) -> geo::Rect<T> {
        rect(self.lo, self.hi)
    }
    pub fn contains(&self, p: P) -> bool {
        (0..2).all(|k| self.lo[k] <= p[k] && p[k] <= self.hi[k])
    }
    pub fn contains_box(&self, b: (P, P)) -> bool {
        self.contains(b.0) && self.contains(b.1)
    }
}

pub fn p2(e: i64) -> f64 {
    2f64.powi(e as i32)
}

/// The type's range, as far as f64 has all its integers.
pub fn limits<T: Num>() -> (f64, f64) {
    match T::NAME {
        "i16" => (-p2(15), p2(15) - 1.0),
        "i32" => (-p2(31), p2(31) - 1.0),
        _ => (-p2(50), p2(50)),
    }
}

/// Now and then no extent in one axis, or in both.
fn flatten(r: &mut Rng, w: &mut P, one_in: usize) {
    if r.chance(1, one_in) {
        match r.below(3) {
            0 => w[0] = 0.0,
            1 => w[1] = 0.0,
            _ => *w = [0.0, 0.0],
        }
    }
}

/// A frame on which the model's arithmetic and the library's are both exact.
pub fn exact_frame<T: Num>(r: &mut Rng) -> Frame {
    if T::INT {
        let top = match T::NAME {
            "i16" => 12,
            "i32" => 28,
            _ => 40,
        };
        let kmax = if r.chance(1, 4) { top } else { top.min(14) };
        let mut w = [0.0; 2];
        let kx = r.range(2, kmax);
        let ky = if r.chance(2, 3) { kx } else { r.range(2, kmax) };
        w[0] = p2(kx);
        w[1] = p2(ky);
        let k = kx.min(ky);
        let (least, most) = limits::<T>();
        let lo = [0, 1].map(|a| match r.below(6) {
            0 => 0.0,
            1 => r.range(-100, 100) as f64,
            2 => -p2(k) + r.range(-1, 1) as f64,
            3 => most - w[a] - r.below(3) as f64,
            4 => least + r.below(3) as f64,
            _ => r.range(-(1 << 13), 1 << 13) as f64,
        });
        flatten(r, &mut w, 12);
        return Frame {
            lo,
            hi: [lo[0] + w[0], lo[1] + w[1]],
            exact: true,
            int: true,
            bits: k as u32,
            max_depth: k as u8,
            name: "exact-int",
        };
    }
    let single = T::NAME == "f32";
    let (kr, mr) = if single { (10, 4) } else { (20, 8) };
    let k = if r.chance(1, 3) { 0 } else { r.range(-kr, kr) };
    let ky = if r.chance(2, 3) { k } else { k + r.range(-2, 2) };
    let mut w = [p2(k), p2(ky)];
    let lo = [0, 1].map(|a| {
        if r.chance(1, 3) {
            0.0
        } else if r.chance(1, 3) {
            -w[a] / 2.0
        } else {
            r.range(-mr, mr) as f64 * w[a] / 2.0
        }
    });
    let bits = if single {
        *r.pick(&[2, 4, 6, 8])
    } else {
        *r.pick(&[2, 4, 6, 10, 16, 20])
    };
    flatten(r, &mut w, 12);
    Frame {
        lo,
        hi: [lo[0] + w[0], lo[1] + w[1]],
        exact: true,
        int: false,
        bits,
        max_depth: if single { 12 } else { 36 },
        name: "exact",
    }
}

/// A frame whose cells the model gives, for some data at least.
pub fn modelled_frame<T: Num>(r: &mut Rng) -> Frame {
    loop {
        let f = if r.chance(3, 5) { exact_frame::<T>(r) } else { any_frame::<T>(r, false) };
        if f.modelled() || !["extreme", "subnormal"].contains(&f.name) {
            return f;
        }
    }
}

/// Any frame; with `dist` only ones whose distances neither over- nor underflow
/// and where the type resolves the frame well enough for shapes.
pub fn any_frame<T: Num>(r: &mut Rng, dist: bool) -> Frame {
    if r.chance(2, 5) {
        return exact_frame::<T>(r);
    }
    let (lo, hi, name): (P, P, &'static str);
    if T::INT {
        let (least, most) = limits::<T>();
        // extents must fit the type
        let widest = most.min(p2(45)) as i64;
        let (name_, mx): (&'static str, i64) = *r.pick(&[
            ("int-point", 0),
            ("int-small", 5),
            ("int-flat", 200),
            ("int-odd", 301),
            ("int-odd", 301),
            ("int-big", if T::NAME == "i16" { 1 << 13 } else { 1 << 28 }),
            ("int-huge", widest),
        ]);
        let mut w = [0, 1].map(|_| r.range((mx / 3).min(1), mx) as f64);
        if mx == widest && r.chance(1, 3) {
            w = w.map(|v| v.max(widest as f64 - r.below(3) as f64));
        }
        if name_ == "int-flat" {
            w[r.below(2)] = 0.0;
        }
        let b = [0, 1].map(|a| {
            let room = most - w[a];
            match r.below(6) {
                0 => room - r.below(4) as f64,
                1 => least + r.below(4) as f64,
                2 => -(w[a] / 2.0).floor() + r.range(-1, 1) as f64,
                3 => r.range(-300, 300) as f64,
                4 => r.range(-(1 << 14), 1 << 14) as f64,
                _ => r.range(least as i64, room as i64) as f64,
            }
            .clamp(least, room)
        });
        (lo, hi, name) = (b, [b[0] + w[0], b[1] + w[1]], name_);
    } else {
        let single = T::NAME == "f32";
        let n = if dist { 8 } else { 10 };
        match r.below(n) {
            0 => (lo, hi, name) = ([0.0, 0.0], [1.0, 1.0], "unit"),
            1 => {
                let a = [r.uniform(-10.0, 10.0), r.uniform(-10.0, 10.0)];
                let w = [r.uniform(0.1, 20.0), r.uniform(0.1, 20.0)];
                (lo, hi, name) = (a, [a[0] + w[0], a[1] + w[1]], "random");
            }
            2 => (lo, hi, name) = ([-180.0, -90.0], [180.0, 90.0], "degrees"),
            3 => {
                let s = if single { r.uniform(1e2, 1e7) } else { 10f64.powf(r.uniform(2.0, 60.0)) };
                (lo, hi, name) = ([-s * 0.3, -s], [s, s * 0.7], "large");
            }
            4 => {
                let s = if single { 10f64.powf(r.uniform(-7.0, -1.0)) } else { 10f64.powf(r.uniform(-60.0, -2.0)) };
                (lo, hi, name) = ([-s * 0.3, -s], [s, s * 0.7], "small");
            }
            5 => {
                let (o, w) = if single {
                    (r.uniform(-50.0, 50.0), r.uniform(1.0, 10.0))
                } else {
                    (r.uniform(-1e6, 1e6), r.uniform(0.5, 100.0))
                };
                (lo, hi, name) = ([o, o * 0.5], [o + w, o * 0.5 + w * 0.9], "offset");
            }
            6 => {
                let a = [r.uniform(-9.0, 9.0), r.uniform(-9.0, 9.0)];
                (lo, hi, name) = (a, a, "point");
            }
            7 => {
                let a = [r.uniform(-9.0, 9.0), r.uniform(-9.0, 9.0)];
                (lo, hi, name) = (a, [a[0], a[1] + 3.0], "flat");
            }
            8 => {
                let s = if single { 1e37 } else { 1e307 };
                (lo, hi, name) = ([-s, -s], [s, s * 0.5], "extreme");
            }
            _ => {
                let s = if single { 1e-44 } else { 1e-321 };
                (lo, hi, name) = ([-s, 0.0], [s * 3.0, s * 7.0], "subnormal");
            }
        }
    }
    let lo = lo.map(|v| T::of(v).f());
    let hi = hi.map(|v| T::of(v).f());
    Frame {
        lo,
        hi,
        exact: false,
        int: T::INT,
        bits: 0,
        max_depth: 255,
        name,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub depth: u8,
    pub children: usize,
    /// Built by `from_bounds`.
    pub default: bool,
}

pub fn cfg(r: &mut Rng, max_depth: u8) -> Cfg {
    if max_depth >= quadtree::DEFAULT_MAX_DEPTH && r.chance(1, 10) {
        return Cfg {
            depth: quadtree::DEFAULT_MAX_DEPTH,
            children: quadtree::DEFAULT_MAX_CHILDREN,
            default: true,
        };
    }
    let depth = *r.pick(&[0u8, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 8, 10, 12, 16, 20, 32, 64, 128, 200, 254, 255]);
    let children = if r.chance(1, 20) {
        // around the limits of narrower integers
        let top = 1u64 << *r.pick(&[7, 8, 8, 15, 16, 16, 31, 32, 32, 63]);
        (top - 1 + r.below(4) as u64) as usize
    } else {
        *r.pick(&[0usize, 1, 1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 8, 8, 10, 16, 16, 33, 64, 100, 300, usize::MAX])
    };
    Cfg {
        depth: depth.min(max_depth),
        children,
        default: false,
    }
}

/// How many data: mostly few, with a long tail. Bounded by what the
/// configuration can blow up to.
pub fn how_many(r: &mut Rng, c: Cfg, small: bool) -> usize {
    let n = match r.below(20) {
        0 => r.below(3),
        1..=9 => r.below(16),
        10..=15 => r.below(50),
        16..=18 => r.below(200),
        _ => r.below(1200),
    };
    let cap = match (c.depth, c.children) {
        (d, 0) if d > 30 => 8,
        (d, 0) if d > 8 => 40,
        (d, _) if d > 100 => 60,
        (d, _) if d > 30 => 300,
        _ => 1200,
    };
    n.min(cap).min(if small { 12 } else { usize::MAX })
}

/// Rarely, far more data than the usual cap, where that stays affordable.
pub fn crowd(r: &mut Rng, c: Cfg, small: bool, n: usize, one_in: usize, most: usize) -> usize {
    if small || c.depth > 20 || (c.children == 0 && c.depth > 6) || !r.chance(1, one_in) {
        return n;
    }
    most / 4 + r.below(most * 3 / 4)
}

/// Very rarely, more data than 16 bits can count, in cells few enough for that
/// to stay affordable.
pub fn throng(r: &mut Rng, c: &mut Cfg, small: bool, n: usize, one_in: usize) -> usize {
    if small || !r.chance(1, one_in) {
        return n;
    }
    *c = Cfg {
        depth: r.below(5) as u8,
        children: *r.pick(&[1, 4, 300, 65_535, 65_536, usize::MAX]),
        default: false,
    };
    65_400 + r.below(2000)
}

/// Positions within a frame, hostile ones preferred, with memory for
/// duplicates and clusters.
pub struct Places {
    pub f: Frame,
    seen: Vec<P>,
    style: usize,
    centre: P,
    /// clusters within this fraction of the width
    spread: f64,
    /// Also neighbours of zero that are too small to be squared. (Distances
    /// need extents whose squares do not underflow.)
    pub raw: bool,
}

impl Places {
    pub fn new(r: &mut Rng, f: &Frame) -> Self {
        let style = r.below(6);
        let mut s = Places {
            f: f.clone(),
            seen: vec![],
            style: 0,
            centre: [0.0; 2],
            spread: *r.pick(&[0.25, 0.05, 0.01, 1e-4]),
            raw: false,
        };
        s.centre = [s.hostile_or_uniform(r, 0), s.hostile_or_uniform(r, 1)];
        s.style = style;
        s
    }

    fn uniform(&self, r: &mut Rng, k: usize) -> f64 {
        let f = &self.f;
        if f.exact {
            (f.lo[k] + f.step(k) * r.below((1usize << f.bits) + 1) as f64).min(f.hi[k])
        } else {
            (f.lo[k] + f.w(k) * r.unit()).clamp(f.lo[k], f.hi[k])
        }
    }

    /// On the border, or on a split line.
    fn special(&self, r: &mut Rng, k: usize) -> f64 {
        let f = &self.f;
        match r.below(8) {
            0 => f.lo[k],
            1 => f.hi[k],
            2 | 3 => f.lo[k] + f.w(k) / 2.0,
            _ => {
                let d = if f.exact { f.bits.min(8) } else { 8 };
                let j = r.range(1, d.max(1) as i64);
                let i = r.below(1 << j) as f64;
                (f.lo[k] + f.w(k) * (i / p2(j))).clamp(f.lo[k], f.hi[k])
            }
        }
    }

    fn hostile_or_uniform(&self, r: &mut Rng, k: usize) -> f64 {
        if r.chance(1, 2) {
            self.uniform(r, k)
        } else {
            self.special(r, k)
        }
    }

    /// v or one of its neighbours
    fn ulp<T: Num>(&self, r: &mut Rng, v: f64) -> f64 {
        let s = self.f.scale();
        if !T::INT && !self.raw && v.abs() < 1e-3 * s {
            return v + T::EPS * s * r.range(-1, 1) as f64;
        }
        *r.pick(&[v, T::up(v), T::down(v)])
    }

    fn near(&self, r: &mut Rng, k: usize, c: f64) -> f64 {
        let f = &self.f;
        let v = if f.exact {
            let m = ((1u64 << f.bits) as f64 * self.spread).max(2.0) as i64;
            c + f.step(k) * r.range(-m, m) as f64
        } else {
            c + f.w(k) * self.spread * (r.unit() - 0.5)
        };
        v.clamp(f.lo[k], f.hi[k])
    }

    /// A position inside the closed frame, as yet unrounded for non-exact
    /// frames, then rounded to T and kept inside.
    pub fn inside<T: Num>(&mut self, r: &mut Rng) -> P {
        let p = self.pick_inside::<T>(r);
        let f = &self.f;
        let p = [0, 1].map(|k| T::of(p[k].clamp(f.lo[k], f.hi[k])).f().clamp(f.lo[k], f.hi[k]));
        // zero has two signs
        let p = p.map(|v| if v == 0.0 && !T::INT && r.chance(1, 4) { -v } else { v });
        if self.seen.len() < 64 {
            self.seen.push(p);
        }
        p
    }

    fn pick_inside<T: Num>(&mut self, r: &mut Rng) -> P {
        if !self.seen.is_empty() && r.chance(1, 7) {
            let p = *r.pick(&self.seen);
            // a duplicate, or a neighbour of one
            if r.chance(2, 3) {
                return p;
            }
            return [0, 1].map(|k| {
                let v = if self.f.exact {
                    p[k] + self.f.step(k) * r.range(-1, 1) as f64
                } else {
                    self.ulp::<T>(r, p[k])
                };
                v.clamp(self.f.lo[k], self.f.hi[k])
            });
        }
        match self.style {
            0 => [self.uniform(r, 0), self.uniform(r, 1)],
            1 => [self.special(r, 0), self.special(r, 1)],
            2 => [self.near(r, 0, self.centre[0]), self.near(r, 1, self.centre[1])],
            3 if r.chance(1, 2) => [self.near(r, 0, self.centre[0]), self.near(r, 1, self.centre[1])],
            4 if r.chance(1, 3) => {
                // a corner of the frame
                let q = [0, 1].map(|k| if r.chance(1, 2) { self.f.lo[k] } else { self.f.hi[k] });
                if r.chance(1, 2) { q } else { [self.near(r, 0, q[0]), self.near(r, 1, q[1])] }
            }
            _ => {
                let p = [self.hostile_or_uniform(r, 0), self.hostile_or_uniform(r, 1)];
                if !self.f.exact && r.chance(1, 4) {
                    return p.map(|v| {
                        let v = T::of(v).f();
                        self.ulp::<T>(r, v)
                    });
                }
                p
            }
        }
    }

    /// A position outside the closed frame.
    pub fn outside<T: Num>(&mut self, r: &mut Rng) -> P {
        loop {
            let mut p = self.inside::<T>(r);
            for _ in 0..1 + r.below(2) {
                let k = r.below(2);
                let f = &self.f;
                let w = f.span(k);
                let below = r.chance(1, 2);
                let e = if below { f.lo[k] } else { f.hi[k] };
                let s = if below { -1.0 } else { 1.0 };
                p[k] = match r.below(4) {
                    0 if self.raw || e.abs() > 1e-3 * f.scale() => if below { T::down(e) } else { T::up(e) },
                    1 => e + s * w * r.unit(),
                    2 => e + s * w * 3.0,
                    _ => if f.exact { e + s * f.step(k) } else { e + s * w * 1e-3 },
                };
                if T::INT {
                    let (least, most) = limits::<T>();
                    p[k] = p[k].clamp(least, most);
                }
                p[k] = T::of(p[k]).f();
            }
            if !self.f.contains(p) {
                return p;
            }
        }
    }

    fn corner_pair<T: Num>(&mut self, r: &mut Rng) -> (P, P) {
        let a = self.inside::<T>(r);
        let small = r.chance(3, 5);
        let frac = *r.pick(&[0.5, 0.2, 0.05, 0.01]);
        let b = if small {
            [0, 1].map(|k| {
                let f = &self.f;
                let v = if f.exact {
                    let m = ((1u64 << f.bits) as f64 * frac).max(1.0) as i64;
                    a[k] + f.step(k) * r.range(-m, m) as f64
                } else {
                    a[k] + f.w(k) * frac * (r.unit() - 0.5)
                };
                T::of(v.clamp(f.lo[k], f.hi[k])).f().clamp(f.lo[k], f.hi[k])
            })
        } else {
            self.inside::<T>(r)
        };
        (a, b)
    }

    /// A box inside the frame.
    pub fn boxed<T: Num>(&mut self, r: &mut Rng) -> (P, P) {
        let (a, mut b) = self.corner_pair::<T>(r);
        for k in 0..2 {
            match r.below(12) {
                0 => b[k] = a[k],
                1 => {
                    // one side on a split line or the border
                    b[k] = T::of(self.special(r, k)).f().clamp(self.f.lo[k], self.f.hi[k]);
                }
                _ => {}
            }
        }
        (
            [a[0].min(b[0]), a[1].min(b[1])],
            [a[0].max(b[0]), a[1].max(b[1])],
        )
    }

    /// A (valid) shape whose vertices all lie in the closed frame.
    pub fn shape<T: Num>(&mut self, r: &mut Rng, kind: Kind) -> Shape {
        match kind {
            Kind::Pt => Shape::Pt(self.inside::<T>(r)),
            Kind::Ln => {
                let (a, b) = self.boxed::<T>(r);
                flip(r, a, b)
            }
            Kind::Rc => {
                let (a, b) = self.boxed::<T>(r);
                Shape::Rc(a, b)
            }
            Kind::Ls => {
                let (a, b) = self.corner_pair::<T>(r);
                let mut v = vec![a, b];
                let n = many(r, 12, 0..5, 8..33);
                for _ in 0..n {
                    let q = if r.chance(2, 3) {
                        [0, 1].map(|k| {
                            let (l, h) = (a[k].min(b[k]), a[k].max(b[k]));
                            let x = if self.f.exact {
                                let s = self.f.step(k);
                                let m = ((h - l) / s).round() as usize;
                                l + s * r.below(m + 1) as f64
                            } else {
                                r.uniform(l, h)
                            };
                            T::of(x.clamp(l, h)).f().clamp(l, h)
                        })
                    } else {
                        self.corner_pair::<T>(r).1
                    };
                    v.push(q);
                }
                Shape::Ls(v)
            }
            Kind::Pg => self.polygon::<T>(r),
        }
    }

    pub fn polygon<T: Num>(&mut self, r: &mut Rng) -> Shape {
        for _ in 0..6 {
            let (a, b) = self.boxed::<T>(r);
            if a[0] >= b[0] || a[1] >= b[1] {
                continue;
            }
            let s = if T::INT { poly_box(r, a, b, false) } else { polygon_in(r, a, b) };
            let f = &self.f;
            let s = s.map(&mut |p| {
                [0, 1].map(|k| {
                    let v = if f.exact {
                        f.lo[k] + ((p[k] - f.lo[k]) / f.step(k)).round() * f.step(k)
                    } else {
                        p[k]
                    };
                    T::of(v.clamp(f.lo[k], f.hi[k])).f().clamp(f.lo[k], f.hi[k])
                })
            });
            if valid_polygon(&s) {
                return redundant::<T>(r, &self.f, s);
            }
        }
        // a plain box of the whole frame, or a degenerate stand-in
        let f = &self.f;
        let s = poly_box(r, f.lo, f.hi, false);
        if valid_polygon(&s) { s } else { Shape::Rc(f.lo, f.hi) }
    }
}

fn flip(r: &mut Rng, a: P, b: P) -> Shape {
    match r.below(4) {
        0 => Shape::Ln(a, b),
        1 => Shape::Ln(b, a),
        2 => Shape::Ln([a[0], b[1]], [b[0], a[1]]),
        _ => Shape::Ln([b[0], a[1]], [a[0], b[1]]),
    }
}

pub fn poly_box(r: &mut Rng, a: P, b: P, holes: bool) -> Shape {
    let mut e = vec![a, [b[0], a[1]], b, [a[0], b[1]]];
    match r.below(4) {
        // cut a corner: pentagon; L shape
        0 => {
            let m = [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0];
            e = vec![a, [b[0], a[1]], [b[0], m[1]], [m[0], b[1]], [a[0], b[1]]];
        }
        1 if !holes => {
            let m = [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0];
            e = vec![a, [b[0], a[1]], [b[0], m[1]], m, [m[0], b[1]], [a[0], b[1]]];
        }
        _ => {}
    }
    if r.chance(1, 2) {
        e.reverse();
    }
    let n = r.below(e.len());
    e.rotate_left(n);
    Shape::Pg(e, vec![])
}

/// Now and then vertices that change nothing: the middles of edges, where
/// they are exactly on the edge, and repetitions.
pub fn redundant<T: Num>(r: &mut Rng, f: &Frame, s: Shape) -> Shape {
    let Shape::Pg(mut e, mut hs) = s else { return s };
    let grid = |m: P| !f.exact || (0..2).all(|k| ((m[k] - f.lo[k]) / f.step(k)).fract() == 0.0);
    if r.chance(1, 8) {
        let twice = r.chance(1, 3);
        for v in std::iter::once(&mut e).chain(hs.iter_mut()) {
            let mut w = vec![];
            for i in 0..v.len() {
                let (a, b) = (v[i], v[(i + 1) % v.len()]);
                w.push(a);
                let m = [0, 1].map(|k| T::of((a[k] + b[k]) / 2.0).f());
                if twice && r.chance(1, 2) {
                    w.push(a);
                } else if r.chance(1, 2) && grid(m) && (0..2).all(|k| m[k] - a[k] == b[k] - m[k] && m[k] - a[k] == (b[k] - a[k]) / 2.0) {
                    w.push(m);
                }
            }
            *v = w;
        }
    }
    Shape::Pg(e, hs)
}

/// How many vertices: few, one in `one_in` times more, and rarely a great many.
pub fn many(r: &mut Rng, one_in: usize, few: Range<usize>, more: Range<usize>) -> usize {
    let v = if r.chance(1, 120) {
        more.end..more.end + 150
    } else if r.chance(1, one_in) {
        more
    } else {
        few
    };
    v.start + r.below(v.len())
}

/// A simple polygon with bounding box about [a, b], possibly with holes.
pub fn polygon_in(r: &mut Rng, a: P, b: P) -> Shape {
    let w = [b[0] - a[0], b[1] - a[1]];
    let at = |u: f64, v: f64| [a[0] + w[0] * u, a[1] + w[1] * v];
    match r.below(6) {
        // box with a grid of holes
        0 | 1 => {
            let e = vec![at(0.0, 0.0), at(1.0, 0.0), at(1.0, 1.0), at(0.0, 1.0)];
            let most = if r.chance(1, 40) { 7 } else { 3 };
            let (nx, ny) = (1 + r.below(most), 1 + r.below(most));
            let mut holes = vec![];
            for i in 0..nx {
                for j in 0..ny {
                    if r.chance(1, 3) && nx * ny > 1 {
                        continue;
                    }
                    let (x0, y0) = (i as f64 / nx as f64, j as f64 / ny as f64);
                    let (dx, dy) = (1.0 / nx as f64, 1.0 / ny as f64);
                    let q = |u: f64, v: f64| at(x0 + dx * u, y0 + dy * v);
                    let mut h = match r.below(3) {
                        0 => vec![q(0.25, 0.25), q(0.75, 0.25), q(0.75, 0.75), q(0.25, 0.75)],
                        1 => vec![q(0.125, 0.125), q(0.875, 0.25), q(0.5, 0.875)],
                        _ => vec![q(0.5, 0.125), q(0.875, 0.5), q(0.5, 0.875), q(0.125, 0.5)],
                    };
                    if r.chance(1, 2) {
                        h.reverse();
                    }
                    holes.push(h);
                }
            }
            Shape::Pg(e, holes)
        }
        2 => poly_box(r, a, b, false),
        // U shape
        3 => {
            let e = vec![
                at(0.0, 0.0),
                at(1.0, 0.0),
                at(1.0, 1.0),
                at(0.75, 1.0),
                at(0.75, 0.25),
                at(0.25, 0.25),
                at(0.25, 1.0),
                at(0.0, 1.0),
            ];
            Shape::Pg(e, vec![])
        }
        // star-shaped around the middle, maybe with a scaled copy as a hole
        _ => {
            let n = many(r, 6, 3..11, 12..32);
            let off = r.unit() * 2.0 * PI;
            let ring: Vec<(f64, f64)> = (0..n)
                .map(|i| {
                    let t = off + 2.0 * PI * (i as f64 + 0.6 * (r.unit() - 0.5)) / n as f64;
                    let q = 0.15 + 0.35 * r.unit();
                    (t.cos() * q, t.sin() * q)
                })
                .collect();
            let e: Vec<P> = ring.iter().map(|(x, y)| at(0.5 + x, 0.5 + y)).collect();
            let mut holes = vec![];
            if n >= 5 && r.chance(1, 2) {
                let s = 0.2 + 0.5 * r.unit();
                holes.push(ring.iter().map(|(x, y)| at(0.5 + x * s, 0.5 + y * s)).collect());
            }
            Shape::Pg(e, holes)
        }
    }
}

/// Simple rings, holes strictly inside the exterior and clear of each other.
pub fn valid_polygon(s: &Shape) -> bool {
    let Shape::Pg(e, hs) = s else { return false };
    let mut rings = vec![e.clone()];
    rings.extend(hs.iter().cloned());
    let seg = |r: &Vec<P>, i: usize| (r[i], r[(i + 1) % r.len()]);
    for r in &rings {
        let n = r.len();
        if n < 3 {
            return false;
        }
        let (mut lo, mut hi) = (r[0], r[0]);
        for p in r {
            for k in 0..2 {
                lo[k] = lo[k].min(p[k]);
                hi[k] = hi[k].max(p[k]);
            }
        }
        let mut area = 0.0;
        for i in 0..n {
            let (a, b) = seg(r, i);
            area += (a[0] - lo[0]) * (b[1] - lo[1]) - (b[0] - lo[0]) * (a[1] - lo[1]);
        }
        if area.abs() < 1e-3 * (hi[0] - lo[0]) * (hi[1] - lo[1]) || area == 0.0 {
            return false;
        }
        let tol = 1e-4 * pt_pt(lo, hi);
        for i in 0..n {
            let (a, b) = seg(r, i);
            if pt_pt(a, b) < tol {
                return false;
            }
            for j in i + 1..n {
                let (c, d) = seg(r, j);
                if j == i + 1 || (i == 0 && j == n - 1) {
                    // neighbours share one vertex and must not fold back
                    let (p, m, q) = if j == i + 1 { (a, b, d) } else { (c, a, b) };
                    if pt_seg(q, p, m) < tol || pt_seg(p, m, q) < tol {
                        return false;
                    }
                } else if seg_seg(a, b, c, d) < tol {
                    return false;
                }
            }
        }
    }
    let ext = Shape::Pg(e.clone(), vec![]);
    for (i, h) in hs.iter().enumerate() {
        if !h.iter().all(|p| ext.area_contains(*p)) {
            return false;
        }
        let hp = Shape::Pg(h.clone(), vec![]);
        let apart = |o: &Vec<P>| {
            (0..h.len()).all(|x| {
                (0..o.len()).all(|y| {
                    let ((a, b), (c, d)) = (seg(h, x), seg(o, y));
                    seg_seg(a, b, c, d) > 0.0
                })
            })
        };
        if !apart(e) {
            return false;
        }
        for o in &hs[i + 1..] {
            let op = Shape::Pg(o.clone(), vec![]);
            if !apart(o) || hp.area_contains(o[0]) || op.area_contains(h[0]) {
                return false;
            }
        }
    }
    true
}

pub fn kind(r: &mut Rng) -> Kind {
    *r.pick(&KINDS)
}
