//! C01: every accepted datum is stored exactly once.
use qtmon::*;
use quadtree::{CalcMethod, QuadTree};

fn check<T: Num>(s: &Scene<T>, twice: bool) -> Res {
    let n = s.data.len();
    ensure!(s.tree.size() == n, "size() = {} after {n} accepted inserts", s.tree.size());
    // (one more than could be there, so that a surplus shows)
    let items: Vec<&Item<T>> = lib(|| match &s.tree {
        Tree::P(q) => q.into_iter().take(n + 1).collect(),
        Tree::B(q) => q.into_iter().take(n + 1).collect(),
    });
    ensure!(items.len() == n, "iteration yields {} data ({}), {n} were accepted", items.len(), if items.len() > n { "or more" } else { "all" });
    let mut seen = vec![false; s.next as usize];
    for i in &items {
        ensure!((i.id as usize) < seen.len(), "iteration yields datum {} that was never accepted", i.id);
        ensure!(!seen[i.id as usize], "iteration yields datum {} twice", i.id);
        seen[i.id as usize] = true;
    }
    for (i, sh) in &s.data {
        ensure!(seen[*i as usize], "datum {i} was accepted but is not iterated");
        let _ = sh;
    }
    if !twice {
        return Ok(());
    }
    let first: Vec<u32> = items.iter().map(|i| i.id).collect();
    ensure!(s.tree.ids_cap(n + 1) == first, "a second iteration differs");
    // two iterators, advanced alternately and out of step
    let (a, b): (Vec<u32>, Vec<u32>) = lib(|| {
        macro_rules! mix {
            ($q:expr) => {{
                let (mut x, mut y) = ($q.into_iter(), $q.into_iter());
                let (mut a, mut b) = (vec![], vec![]);
                let mut turn = 0usize;
                loop {
                    let k = turn % 3;
                    turn += 1;
                    let (ex, ey) = (a.len(), b.len());
                    if k != 0 {
                        a.extend(x.next().map(|i| i.id));
                    }
                    b.extend(y.next().map(|i| i.id));
                    if a.len() == ex && b.len() == ey && k != 0 || a.len() > n || b.len() > n {
                        break;
                    }
                }
                // once it has ended it stays ended
                a.extend(x.next().map(|i| i.id));
                b.extend(y.next().map(|i| i.id));
                (a, b)
            }};
        }
        match &s.tree {
            Tree::P(q) => mix!(q),
            Tree::B(q) => mix!(q),
        }
    });
    ensure!(a == first && b == first, "interleaved iterators differ from a single one: {a:?} / {b:?} / {first:?}");
    Ok(())
}

fn run<T: Num>(ctx: &mut Ctx) -> Res {
    let f = any_frame::<T>(&mut ctx.rng, false);
    let c = cfg(&mut ctx.rng, 255);
    let w = which(&mut ctx.rng);
    let mut n = how_many(&mut ctx.rng, c, ctx.small);
    if !ctx.small && c.depth <= 20 && c.children > 0 && ctx.rng.chance(1, 150) {
        n = 3000 + ctx.rng.below(12000);
        if ctx.rng.chance(1, 25) {
            // beyond what 16 bits can count
            n = 65_500 + ctx.rng.below(3000);
        }
    }
    let kinds = datum_kinds(&mut ctx.rng, w);
    let m = *ctx.rng.pick(&[CalcMethod::None, CalcMethod::Euclidean, CalcMethod::Spherical]);
    let mut s = Scene::<T>::new(f.clone(), c, w, m);
    let mut pl = Places::new(&mut ctx.rng, &f);
    pl.raw = true;
    check(&s, true)?;
    let each = n <= 30;
    let mut left = n;
    while left > 0 {
        let step = if each { 1 } else { (1 + ctx.rng.below(n)).min(left) };
        left -= step;
        for _ in 0..step {
            let k = *ctx.rng.pick(&kinds);
            let sh = pl.shape::<T>(&mut ctx.rng, k);
            s.add(sh)?;
            ctx.count("inserts", 1);
        }
        if ctx.rng.chance(1, 8) {
            let p = pl.outside::<T>(&mut ctx.rng);
            s.offer_outside(Shape::Pt(p))?;
            ctx.count("refused", 1);
        }
        let twice = left == 0 || ctx.rng.chance(1, 4);
        check(&s, twice)?;
        ctx.count("full_iterations_checked", 1);
        if twice {
            let ids = s.tree.ids();
            s.tree.iterate_otherwise(&mut ctx.rng, &ids, "iteration").map_err(|e| Fail(format!("{}; {}", e.0, s.describe())))?;
            ctx.count("other_ways_of_iterating", 1);
        }
    }
    // the data come back as they went in
    for i in s.tree.items() {
        let want = &s.data.iter().find(|d| d.0 == i.id);
        if s.data.len() > 300 {
            break;
        }
        let sh = &want.unwrap().1;
        ensure!(
            format!("{:?}", i.geom) == format!("{:?}", sh.geometry::<T>()),
            "datum {} came back changed",
            i.id
        );
    }
    // cells actually made, for the record
    if n <= 200 && c.depth < 60 {
        let cells = parse_display(&s.tree.show()).map(|v| v.len()).unwrap_or(0);
        ctx.see(cells as u64);
        ctx.count("cells_built", cells as u64);
        if cells > 1 {
            ctx.count("divided_trees", 1);
        }
    }
    ctx.nontrivial = n > 0;
    for i in s.tree.ids() {
        ctx.see(i as u64);
    }
    for (_, d) in s.data.iter().take(50) {
        if let Some(b) = d.bbox() {
            ctx.see_f(b.0[0]);
            ctx.see_f(b.1[1]);
        }
    }
    if ctx.want_desc {
        ctx.desc = s.describe();
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 60) {
        return sizeless(ctx, Ask::Iterate);
    }
    any_num!(ctx, run)
}

fn main() {
    let _ = |q: &quadtree::PointQuadTree<Item<f64>, f64>| q.size();
    runner::main("C01", case)
}
