//! C08: sorted yields every datum once in distance order (Euclidean).
use qtmon::*;
use quadtree::{CalcMethod, QuadTreeSearch};

fn hit<T: Flt>(x: (&Item<T>, T)) -> Hit {
    Hit {
        id: x.0.id,
        d: x.1.f(),
    }
}

fn run<T: Flt>(ctx: &mut Ctx) -> Res {
    let (mut s, mut pl) = euclid_scene::<T>(ctx, CalcMethod::Euclidean)?;
    let kinds = datum_kinds(&mut ctx.rng, s.which);
    for phase in 0..2 {
        if phase > 0 {
            let more = ctx.rng.below(if s.c.depth > 100 { 5 } else { 20 });
            fill(ctx, &mut s, &mut pl, &kinds, more)?;
        }
        let n = s.data.len();
        for _ in 0..(if n > 200 { 2 } else { 4 }) {
            let q = comparator::<T>(&mut ctx.rng, &mut pl, &s.data);
            let g = q.geometry::<T>();
            let what = format!("sorted({})", q.show());
            match meets(&s.f, &q) {
                None => continue,
                Some(false) => {
                    let got = s.tree.sorted(&g, 3);
                    ensure!(got.is_empty(), "{what} from outside the bounds yields {got:?}; {}", s.describe());
                    ctx.count("outside_comparators", 1);
                    continue;
                }
                Some(true) => {}
            }
            let scan = s.scan(&q);
            let err = |e: Fail| Fail(format!("{}; {}", e.0, s.describe()));
            // everything, then ended for good
            let (all, after): (Vec<Hit>, bool) = lib(|| {
                macro_rules! go {
                    ($t:expr) => {{
                        let mut it = $t.sorted(&g);
                        let v: Vec<Hit> = it.by_ref().take(n + 1).map(hit).collect();
                        (v, it.next().is_some() || it.next().is_some())
                    }};
                }
                match &s.tree {
                    Tree::P(t) => go!(t),
                    Tree::B(t) => go!(t),
                }
            });
            scan.nearest(&all, usize::MAX, None, false, &what).map_err(err)?;
            ensure!(!after, "{what} yields more after it ended; {}", s.describe());
            ctx.count("full_sequences_checked", 1);
            ctx.count("results_checked", all.len() as u64);
            for h in all.iter().take(30) {
                ctx.see(h.id as u64);
                ctx.see_f(h.d);
            }
            ctx.nontrivial |= n > 1;
            let ds: Vec<f64> = all.iter().map(|h| h.d).collect();
            s.tree.sorted_otherwise(&mut ctx.rng, &g, &ds, &what).map_err(err)?;
            ctx.count("other_ways_of_iterating", 1);
            // a prefix is the start of it, up to ties
            let k = ctx.rng.below(n + 2);
            let pre = s.tree.sorted(&g, k);
            scan.nearest(&pre, k, None, false, &format!("prefix {k} of {what}")).map_err(err)?;
            for (a, b) in pre.iter().zip(&all) {
                ensure!((a.d - b.d).abs() <= scan.tol, "prefix of {what} has distance {:?} where the whole has {:?}", a.d, b.d);
            }
            ctx.count("prefixes_checked", 1);
            // two at once, for different comparators, plus one abandoned half-way
            let q2 = comparator::<T>(&mut ctx.rng, &mut pl, &s.data);
            if meets(&s.f, &q2) != Some(true) {
                continue;
            }
            let g2 = q2.geometry::<T>();
            let steps: Vec<usize> = (0..16).map(|_| ctx.rng.below(3)).collect();
            let (a, b) = lib(|| {
                macro_rules! go {
                    ($t:expr) => {{
                        let (mut x, mut y) = ($t.sorted(&g), $t.sorted(&g2));
                        let mut z = $t.sorted(&g);
                        z.next();
                        let (mut a, mut b) = (vec![], vec![]);
                        let mut i = 0;
                        loop {
                            match steps[i % 16] {
                                0 => a.extend(x.next().map(hit)),
                                1 => b.extend(y.next().map(hit)),
                                _ => {
                                    let (ea, eb) = (a.len(), b.len());
                                    a.extend(x.next().map(hit));
                                    b.extend(y.next().map(hit));
                                    if ea == a.len() && eb == b.len() || a.len() > n || b.len() > n {
                                        break;
                                    }
                                }
                            }
                            i += 1;
                            if i > 4 * n + 64 {
                                break;
                            }
                            if i == 5 {
                                z = $t.sorted(&g2);
                            }
                        }
                        drop(z);
                        a.extend(x.take(n + 1).map(hit));
                        b.extend(y.take(n + 1).map(hit));
                        (a, b)
                    }};
                }
                match &s.tree {
                    Tree::P(t) => go!(t),
                    Tree::B(t) => go!(t),
                }
            });
            scan.nearest(&a, usize::MAX, None, false, &format!("interleaved {what}")).map_err(err)?;
            let scan2 = s.scan(&q2);
            scan2
                .nearest(&b, usize::MAX, None, false, &format!("interleaved sorted({})", q2.show()))
                .map_err(err)?;
            ctx.count("interleavings_checked", 1);
        }
    }
    if ctx.want_desc {
        ctx.desc = s.describe();
    }
    Ok(())
}

/// Down to the smallest numbers.
fn deep<T: Flt>(ctx: &mut Ctx) -> Res {
    let (s, qs) = abyss::<T>(ctx, CalcMethod::Euclidean)?;
    for q in qs {
        let q = Shape::Pt(q);
        let what = format!("sorted({})", q.show());
        let got = s.tree.sorted(&q.geometry::<T>(), usize::MAX);
        s.scan(&q)
            .nearest(&got, usize::MAX, None, false, &what)
            .map_err(|e| Fail(format!("{}; {}", e.0, s.describe())))?;
        ctx.count("full_sequences_checked", 1);
        ctx.see(got.len() as u64);
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(60) {
        0 => return sizeless(ctx, Ask::Sorted),
        1..=4 => return any_flt!(ctx, deep),
        _ => {}
    }
    any_flt!(ctx, run)
}

fn main() {
    runner::main("C08", case)
}
