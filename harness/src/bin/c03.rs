//! C03: point-tree retrieve returns exactly the contents of the query's cell.
use qtmon::model::*;
use qtmon::*;
use quadtree::CalcMethod;

fn exact<T: Num>(ctx: &mut Ctx) -> Res {
    let f = modelled_frame::<T>(&mut ctx.rng);
    let mut c = cfg(&mut ctx.rng, f.max_depth);
    if c.depth > 60 && !f.exact {
        c.depth = 60;
    }
    let n = how_many(&mut ctx.rng, c, ctx.small);
    let n = crowd(&mut ctx.rng, c, ctx.small, n, 2000, 6000);
    let n = throng(&mut ctx.rng, &mut c, ctx.small, n, 60_000);
    c.depth = c.depth.min(f.max_depth);
    let mut s = Scene::<T>::new(f.clone(), c, Which::Point, CalcMethod::None);
    let mut pl = Places::new(&mut ctx.rng, &f);
    pl.raw = true;
    let phases = 1 + ctx.rng.below(3);
    for _ in 0..phases {
        fill(ctx, &mut s, &mut pl, &[Kind::Pt], n / phases + 1)?;
        queries(ctx, &s, &mut pl)?;
    }
    Ok(())
}

/// Deep trees whose cells are exact because every deep cell is at one corner.
fn corner<T: Num>(ctx: &mut Ctx) -> Res {
    let w = 64.0;
    let f = Frame {
        lo: [0.0, 0.0],
        hi: [w, w],
        exact: true,
        int: T::INT,
        bits: 3,
        max_depth: 255,
        name: "deep-corner",
    };
    let mut c = cfg(&mut ctx.rng, 255);
    c.default = false;
    c.depth = if T::INT { 5 } else { *ctx.rng.pick(&[30u8, 64, 128, 200, 254, 255]) };
    c.children = *ctx.rng.pick(&[1usize, 2, 3, 4]);
    let mut s = Scene::<T>::new(f.clone(), c, Which::Point, CalcMethod::None);
    let mut pl = Places::new(&mut ctx.rng, &f);
    pl.raw = true;
    let mut spots: Vec<P> = (0..64).map(|i| [(i % 8) as f64 * 8.0, (i / 8) as f64 * 8.0]).collect();
    ctx.rng.shuffle(&mut spots);
    spots.truncate(1 + ctx.rng.below(if ctx.small { 6 } else { 40 }));
    let dups = c.children + 1 + ctx.rng.below(4);
    spots.extend(std::iter::repeat_n([0.0, 0.0], dups));
    ctx.rng.shuffle(&mut spots);
    for p in spots {
        s.add(Shape::Pt(p))?;
    }
    ctx.count("deep_corner_trees", 1);
    queries(ctx, &s, &mut pl)
}

fn queries<T: Num>(ctx: &mut Ctx, s: &Scene<T>, pl: &mut Places) -> Res {
    let data: Vec<(u32, Bx)> = s.data.iter().map(|(i, d)| (*i, d.bbox().unwrap())).collect();
    let Some(model) = Cell::tree::<T>(Which::Point, &s.f, &s.c, &data) else {
        ctx.count("left_out_as_rounding_may_decide", 1);
        return Ok(());
    };
    let mut qs: Vec<P> = vec![];
    for _ in 0..12 {
        qs.push(pl.inside::<T>(&mut ctx.rng));
        if let Some(d) = (!s.data.is_empty()).then(|| ctx.rng.pick(&s.data)) {
            qs.push(d.1.bbox().unwrap().0);
        }
    }
    for _ in 0..3 {
        qs.push(pl.outside::<T>(&mut ctx.rng));
    }
    for q in qs {
        let ask = Item::new(7, &Shape::Pt(q));
        let mut got = s.tree.retrieve(&ask);
        let n = got.len();
        if ctx.rng.chance(1, 8) {
            s.tree
                .retrieve_otherwise(&mut ctx.rng, &ask, &got, &format!("retrieve({q:?})"))
                .map_err(|e| Fail(format!("{}; {}", e.0, s.describe())))?;
            ctx.count("other_ways_of_iterating", 1);
        }
        got.sort();
        got.dedup();
        ensure!(n == got.len(), "retrieve({q:?}) yields a datum twice; {}", s.describe());
        let mut want = vec![];
        if s.f.contains(q) {
            if !model.retrieve(Which::Point, &(q, q), &mut want) {
                continue;
            }
            want.sort();
        }
        ensure!(
            got == want,
            "retrieve({q:?}) gave {got:?}, the query's cell holds {want:?}; {}",
            s.describe()
        );
        ctx.count("retrievals_checked", 1);
        if !s.f.modelled() {
            ctx.count("retrievals_checked_on_rounding_frames", 1);
        }
        ctx.count("data_retrieved", n as u64);
        if n > 0 && n < s.data.len() {
            ctx.count("partial_retrievals", 1);
        }
        ctx.see_f(q[0]);
        ctx.see(n as u64);
    }
    ctx.nontrivial |= !s.data.is_empty();
    if ctx.want_desc {
        ctx.desc = s.describe();
    }
    Ok(())
}

/// Frames where the type rounds: what does not depend on where exactly the cells end.
fn rough<T: Num>(ctx: &mut Ctx) -> Res {
    let f = any_frame::<T>(&mut ctx.rng, false);
    let c = cfg(&mut ctx.rng, 255);
    let n = how_many(&mut ctx.rng, c, ctx.small).min(200);
    let mut s = Scene::<T>::new(f.clone(), c, Which::Point, CalcMethod::None);
    let mut pl = Places::new(&mut ctx.rng, &f);
    pl.raw = true;
    fill(ctx, &mut s, &mut pl, &[Kind::Pt], n)?;
    let cells = if c.depth < 60 || n < 40 { parse_display(&s.tree.show()) } else { None };
    for _ in 0..20 {
        let q = if s.data.is_empty() || ctx.rng.chance(1, 3) {
            pl.inside::<T>(&mut ctx.rng)
        } else {
            ctx.rng.pick(&s.data).1.bbox().unwrap().0
        };
        let mut got = s.tree.retrieve(&Item::new(7, &Shape::Pt(q)));
        let n = got.len();
        got.sort();
        got.dedup();
        ensure!(n == got.len(), "retrieve({q:?}) yields a datum twice; {}", s.describe());
        for (i, d) in &s.data {
            if d.bbox().unwrap().0 == q {
                ensure!(
                    got.binary_search(i).is_ok(),
                    "retrieve({q:?}) misses datum {i} at the same position; {}",
                    s.describe()
                );
            }
        }
        ensure!(
            got.iter().all(|g| (*g as usize) < s.data.len()),
            "retrieve yields something not stored: {got:?}"
        );
        if let Some(cs) = &cells {
            ensure!(
                cs.iter().any(|l| l.count == n && (n <= c.children || l.depth == c.depth as usize)),
                "retrieve({q:?}) yields {n} data, but no cell (at max depth, if above max_children) holds that many; {}",
                s.describe()
            );
        }
        ctx.count("rough_retrievals_checked", 1);
        ctx.see(n as u64);
    }
    let q = pl.outside::<T>(&mut ctx.rng);
    let got = s.tree.retrieve(&Item::new(7, &Shape::Pt(q)));
    ensure!(got.is_empty(), "retrieve({q:?}) outside the bounds gave {got:?}");
    ctx.nontrivial |= n > 0;
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 60) {
        return sizeless(ctx, Ask::Retrieve);
    }
    match ctx.rng.below(10) {
        0 | 1 => any_num!(ctx, rough),
        2 => any_num!(ctx, corner),
        _ => any_num!(ctx, exact),
    }
}

fn main() {
    runner::main("C03", case)
}
