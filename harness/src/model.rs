//! What the cells of a tree must look like, from the documented rules alone.
//! Exact on frames where halving and centring do not round, and on integers,
//! where halves round down. On other frames it knows when rounding may decide.
use crate::cgen::{Cfg, Frame};
use crate::item::Which;
use crate::num::Num;
use crate::shape::P;

pub type Bx = (P, P);

/// How halves are taken, and the slack within which sides are not known.
#[derive(Clone, Copy)]
pub struct Halve {
    int: bool,
    blur: f64,
}

impl Halve {
    pub fn of<T: Num>(f: &Frame) -> Halve {
        Halve { int: T::INT, blur: f.blur::<T>() }
    }
    fn mid(&self, lo: f64, hi: f64) -> f64 {
        let h = (hi - lo) / 2.0;
        lo + if self.int { h.floor() } else { h }
    }
    fn centre(&self, b: &Bx) -> P {
        [self.mid(b.0[0], b.1[0]), self.mid(b.0[1], b.1[1])]
    }
    /// Might rounding decide between x and y?
    fn close(&self, x: f64, y: f64) -> bool {
        self.blur > 0.0 && (x - y).abs() <= self.blur
    }
}

pub struct Cell {
    h: Halve,
    /// rounding may have decided what some cell holds
    pub unsure: bool,
    pub lo: P,
    pub hi: P,
    pub depth: u8,
    /// data held by this cell itself
    pub own: Vec<u32>,
    /// in order low/low, high/low, high/high, low/high
    pub kids: Option<Box<[Cell; 4]>>,
}

pub fn touches(a: &Bx, b: &Bx) -> bool {
    (0..2).all(|k| a.0[k] <= b.1[k] && b.0[k] <= a.1[k])
}
pub fn inside(outer: &Bx, b: &Bx) -> bool {
    (0..2).all(|k| outer.0[k] <= b.0[k] && b.1[k] <= outer.1[k])
}
/// More than touching: per axis, common interior, or the same degenerate extent.
pub fn overlaps(a: &Bx, b: &Bx) -> bool {
    (0..2).all(|k| {
        let (al, ah, bl, bh) = (a.0[k], a.1[k], b.0[k], b.1[k]);
        if al == bl && ah == bh {
            return true;
        }
        al < bh && bl < ah && {
            let l = al.max(bl);
            let h = ah.min(bh);
            // a degenerate extent has to lie strictly inside the other
            l < h || (al == ah && bl < al && al < bh) || (bl == bh && al < bl && bl < ah)
        }
    })
}

impl Cell {
    fn bx(&self) -> Bx {
        (self.lo, self.hi)
    }

    /// The quarter, and whether rounding may decide.
    fn quarter(h: Halve, lo: P, hi: P, c: P) -> (usize, bool) {
        let m = h.centre(&(lo, hi));
        let q = match (c[0] <= m[0], c[1] <= m[1]) {
            (true, true) => 0,
            (false, true) => 1,
            (false, false) => 2,
            (true, false) => 3,
        };
        (q, h.close(c[0], m[0]) || h.close(c[1], m[1]))
    }

    fn quarters(h: Halve, lo: P, hi: P) -> [Bx; 4] {
        let m = h.centre(&(lo, hi));
        [
            (lo, m),
            ([m[0], lo[1]], [hi[0], m[1]]),
            (m, hi),
            ([lo[0], m[1]], [m[0], hi[1]]),
        ]
    }

    /// Might rounding decide how the box lies to these?
    fn blurred(h: Halve, qs: &[Bx], b: &Bx) -> bool {
        qs.iter().any(|q| {
            (0..2).any(|k| {
                [q.0[k], q.1[k]].iter().any(|e| h.close(*e, b.0[k]) || h.close(*e, b.1[k]))
            })
        })
    }

    fn build(which: Which, h: Halve, lo: P, hi: P, depth: u8, c: &Cfg, data: Vec<(u32, Bx)>) -> Cell {
        if data.len() <= c.children || depth >= c.depth {
            return Cell {
                h,
                unsure: false,
                lo,
                hi,
                depth,
                own: data.iter().map(|d| d.0).collect(),
                kids: None,
            };
        }
        let qs = Self::quarters(h, lo, hi);
        let mut parts: [Vec<(u32, Bx)>; 4] = Default::default();
        let mut own = vec![];
        let mut unsure = false;
        for d in data {
            let (q, u) = Self::quarter(h, lo, hi, h.centre(&d.1));
            unsure |= u;
            if which == Which::Point {
                parts[q].push(d);
                continue;
            }
            unsure |= Self::blurred(h, &qs[q..q + 1], &d.1);
            if inside(&qs[q], &d.1) {
                parts[q].push(d);
            } else {
                own.push(d.0);
            }
        }
        let mut i = 0;
        let kids = parts.map(|p| {
            // (a blurred tree is of no use: stop)
            let c = if unsure { Cfg { depth: 0, ..*c } } else { *c };
            let k = Self::build(which, h, qs[i].0, qs[i].1, depth + 1, &c, p);
            i += 1;
            k
        });
        Cell {
            h,
            unsure: unsure || kids.iter().any(|k| k.unsure),
            lo,
            hi,
            depth,
            own,
            kids: Some(Box::new(kids)),
        }
    }

    /// None when rounding may decide what some cell holds.
    pub fn tree<T: Num>(which: Which, f: &Frame, c: &Cfg, data: &[(u32, Bx)]) -> Option<Cell> {
        if !f.modelled() && (f.w(0).min(f.w(1)) < 1e4 * f.blur::<T>() || ["extreme", "subnormal"].contains(&f.name)) {
            return None;
        }
        let t = Self::build(which, Halve::of::<T>(f), f.lo, f.hi, 0, c, data.to_vec());
        (!t.unsure).then_some(t)
    }

    /// Cells in preorder.
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a Cell>) {
        out.push(self);
        if let Some(k) = &self.kids {
            for c in k.iter() {
                c.walk(out);
            }
        }
    }

    pub fn all(&self, out: &mut Vec<u32>) {
        out.extend(&self.own);
        if let Some(k) = &self.kids {
            for c in k.iter() {
                c.all(out);
            }
        }
    }

    /// What retrieve must give for a query box inside the bounds; false when
    /// rounding may decide.
    pub fn retrieve(&self, which: Which, q: &Bx, out: &mut Vec<u32>) -> bool {
        let Some(k) = &self.kids else {
            out.extend(&self.own);
            return true;
        };
        let (i, u) = Self::quarter(self.h, self.lo, self.hi, self.h.centre(q));
        if which == Which::Point {
            return !u & k[i].retrieve(which, q, out);
        }
        out.extend(&self.own);
        let bs = [0, 1, 2, 3].map(|j| k[j].bx());
        let sure = !u && !Self::blurred(self.h, &bs, q);
        if inside(&bs[i], q) {
            return sure & k[i].retrieve(which, q, out);
        }
        for c in k.iter() {
            if touches(&c.bx(), q) {
                c.all(out);
            }
        }
        sure
    }

    /// The cell holding each datum, as (id, box, depth).
    pub fn homes(&self, out: &mut Vec<(u32, Bx, u8)>) {
        for i in &self.own {
            out.push((*i, self.bx(), self.depth));
        }
        if let Some(k) = &self.kids {
            for c in k.iter() {
                c.homes(out);
            }
        }
    }
}
