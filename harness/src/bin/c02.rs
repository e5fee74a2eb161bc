//! C02: inserts are judged by the closed bounds alone; refusals change nothing.
use qtmon::*;
use quadtree::{CalcMethod, Error};

#[derive(PartialEq, Debug)]
struct Snap {
    size: usize,
    ids: Vec<u32>,
    show: String,
    got: Vec<Vec<u32>>,
    search: Vec<String>,
}

type Search<T> = fn(&Tree<T>, &[Shape]) -> Vec<String>;

fn searches<T: Flt>(t: &Tree<T>, qs: &[Shape]) -> Vec<String> {
    let mut v = vec![];
    for q in qs {
        let g = q.geometry::<T>();
        v.push(format!("{:?}", t.find(&g)));
        v.push(format!("{:?}", t.knn(&g, 3)));
        v.push(format!("{:?}", t.sorted(&g, 50)));
    }
    v
}

fn snap<T: Num>(t: &Tree<T>, qs: &[Shape], search: Option<Search<T>>) -> Snap {
    Snap {
        size: t.size(),
        ids: t.ids(),
        show: t.show(),
        got: qs.iter().map(|q| t.retrieve(&Item::new(0, q))).collect(),
        search: search.map(|f| f(t, qs)).unwrap_or_default(),
    }
}

fn run<T: Num>(ctx: &mut Ctx, search: Option<Search<T>>) -> Res {
    let r = &mut ctx.rng;
    let dist = search.is_some() && r.chance(1, 2);
    let f = any_frame::<T>(r, dist);
    let safe = f.exact || !["extreme", "subnormal"].contains(&f.name);
    let search = if safe { search } else { None };
    let mut c = cfg(r, 255);
    let n = how_many(r, c, ctx.small).min(60);
    let n = if c.depth > 40 {
        if r.chance(1, 6) {
            n.min(8)
        } else {
            c.depth = 6;
            n
        }
    } else {
        n
    };
    let w = which(r);
    let kinds = datum_kinds(r, w);
    let mut s = Scene::<T>::new(f.clone(), c, w, CalcMethod::Euclidean);
    let mut pl = Places::new(r, &f);
    pl.raw = search.is_none();
    let mut wide = {
        let mut g = f.clone();
        for k in 0..2 {
            let m = f.span(k) / 4.0;
            g.lo[k] = T::of(f.lo[k] - m).f();
            g.hi[k] = T::of(f.hi[k] + m).f();
        }
        g.exact = false;
        Places::new(r, &g)
    };
    let mut trace = vec![];
    for step in 0..n + 6 {
        // outside data get likelier once something is stored
        let mode = ctx.rng.below(if step < n { 12 } else { 5 });
        let sh: Option<Shape>; // None: raw non-finite
        let mut raw: Option<Item<T>> = None;
        match mode {
            0 => sh = Some(Shape::Pt(pl.outside::<T>(&mut ctx.rng))),
            1 | 2 => {
                let k = *ctx.rng.pick(&kinds);
                sh = Some(wide.shape::<T>(&mut ctx.rng, k));
            }
            3 if !T::INT => {
                // a non-finite position
                let bad = *ctx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                let mut p = pl.inside::<T>(&mut ctx.rng);
                let k = ctx.rng.below(3);
                if k != 1 {
                    p[0] = bad;
                }
                if k != 0 {
                    p[1] = bad;
                }
                raw = Some(if w == Which::Bounds && ctx.rng.chance(1, 2) {
                    let q = pl.inside::<T>(&mut ctx.rng);
                    let l = if ctx.rng.chance(1, 2) { Shape::Ln(p, q) } else { Shape::Ln(q, p) };
                    Item::new(u32::MAX, &l)
                } else {
                    Item::raw_point(u32::MAX, T::of(p[0]), T::of(p[1]))
                });
                sh = None;
            }
            4 if w == Which::Bounds => {
                sh = Some(if ctx.rng.chance(1, 2) {
                    Shape::Ls(vec![])
                } else {
                    Shape::Pg(vec![], vec![])
                });
            }
            _ => {
                let k = *ctx.rng.pick(&kinds);
                sh = Some(pl.shape::<T>(&mut ctx.rng, k));
            }
        }
        let want = match &sh {
            None => Err(Error::OutOfBounds),
            Some(x) => match x.bbox() {
                None => Err(Error::CannotMakeBbox),
                Some(b) if f.contains_box(b) => Ok(()),
                Some(_) => Err(Error::OutOfBounds),
            },
        };
        let qs: Vec<Shape> = if want.is_err() {
            (0..3)
                .map(|_| {
                    let k = *ctx.rng.pick(&kinds);
                    pl.shape::<T>(&mut ctx.rng, k)
                })
                .collect()
        } else {
            vec![]
        };
        if ctx.want_desc {
            ctx.desc = format!("{} offering {sh:?}, queries {qs:?}", s.describe());
        }
        let before = want.is_err().then(|| snap(&s.tree, &qs, search));
        let size = s.tree.size();
        let id = s.next;
        let got = s.tree.insert(match &sh {
            Some(x) => Item::new(id, x),
            None => raw.unwrap(),
        });
        ensure!(
            got == want,
            "insert of {:?} into {:?}..{:?} gave {got:?}, must give {want:?} ({})",
            sh,
            f.lo,
            f.hi,
            s.describe()
        );
        if let Some(b) = before {
            let after = snap(&s.tree, &qs, search);
            ensure!(b == after, "a refused insert ({want:?}) changed the tree: {b:?} -> {after:?}");
            ctx.count("refusals_checked", 1);
            ctx.see(matches!(want, Err(Error::CannotMakeBbox)) as u64 + 2);
        } else {
            ensure!(s.tree.size() == size + 1, "an accepted insert took size from {size} to {}", s.tree.size());
            s.next += 1;
            s.data.push((id, sh.unwrap()));
            ctx.count("acceptances_checked", 1);
            ctx.see(1);
        }
        if ctx.want_desc {
            trace.push(format!("{want:?}"));
        }
    }
    ctx.see(s.tree.size() as u64);
    for i in s.tree.ids() {
        ctx.see(i as u64);
    }
    ctx.nontrivial = true;
    if ctx.want_desc {
        ctx.desc = format!("{} verdicts {}", s.describe(), trace.join(","));
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(12) {
        0 => run::<i16>(ctx, None),
        1 => run::<i32>(ctx, None),
        2 => {
            num::far(&mut ctx.rng, i64::MIN as i128, i64::MAX as i128);
            run::<i64>(ctx, None)
        }
        3 => {
            num::far(&mut ctx.rng, i128::MIN, i128::MAX);
            run::<i128>(ctx, None)
        }
        4 => {
            num::far(&mut ctx.rng, isize::MIN as i128, isize::MAX as i128);
            run::<isize>(ctx, None)
        }
        5 | 6 | 7 => run::<f32>(ctx, Some(searches)),
        _ => run::<f64>(ctx, Some(searches)),
    }
}

fn main() {
    runner::main("C02", case)
}
