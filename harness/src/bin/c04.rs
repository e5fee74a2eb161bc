//! C04: bounds-tree retrieve never misses an overlapping datum.
use qtmon::model::*;
use qtmon::*;
use quadtree::CalcMethod;

fn run<T: Num>(ctx: &mut Ctx) -> Res {
    let exact = ctx.rng.chance(3, 4);
    let f = if exact {
        modelled_frame::<T>(&mut ctx.rng)
    } else {
        any_frame::<T>(&mut ctx.rng, false)
    };
    let mut c = cfg(&mut ctx.rng, f.max_depth);
    let n = how_many(&mut ctx.rng, c, ctx.small).min(400);
    let n = crowd(&mut ctx.rng, c, ctx.small, n, 1500, 3000);
    let n = throng(&mut ctx.rng, &mut c, ctx.small, n, 60_000);
    c.depth = c.depth.min(f.max_depth);
    let mut s = Scene::<T>::new(f.clone(), c, Which::Bounds, CalcMethod::None);
    let mut pl = Places::new(&mut ctx.rng, &f);
    pl.raw = true;
    let kinds = datum_kinds(&mut ctx.rng, Which::Bounds);
    let phases = 1 + ctx.rng.below(3);
    for _ in 0..phases {
        fill(ctx, &mut s, &mut pl, &kinds, n / phases + 1)?;
        let data: Vec<(u32, Bx)> = s.data.iter().map(|(i, d)| (*i, d.bbox().unwrap())).collect();
        let model = Cell::tree::<T>(Which::Bounds, &f, &c, &data);
        let mut outside = Places::new(&mut ctx.rng, &wider(&f));
        for j in 0..24 {
            let k = if T::INT && ctx.rng.chance(1, 2) { Kind::Rc } else { *ctx.rng.pick(&KINDS) };
            let q = match j % 8 {
                0 | 1 => ctx.rng.pick(&s.data).1.clone(),
                7 => outside.shape::<T>(&mut ctx.rng, k).round::<T>(),
                6 if ctx.rng.chance(1, 4) => Shape::Ls(vec![]),
                _ => pl.shape::<T>(&mut ctx.rng, k),
            };
            let ask = Item::new(9, &q);
            let mut got = s.tree.retrieve(&ask);
            let m = got.len();
            if ctx.rng.chance(1, 8) {
                s.tree
                    .retrieve_otherwise(&mut ctx.rng, &ask, &got, &format!("retrieve({})", q.show()))
                    .map_err(|e| Fail(format!("{}; {}", e.0, s.describe())))?;
                ctx.count("other_ways_of_iterating", 1);
            }
            got.sort();
            got.dedup();
            let qb = q.bbox();
            let show = |s: &Scene<T>| format!("query {} with box {qb:?}; {}", q.show(), s.describe());
            ensure!(m == got.len(), "retrieve yields a datum twice; {}", show(&s));
            ensure!(
                got.iter().all(|g| (*g as usize) < data.len()),
                "retrieve yields something not stored: {got:?}"
            );
            ctx.count("retrievals_checked", 1);
            ctx.see(m as u64);
            let Some(b) = qb.filter(|b| f.contains_box(*b)) else {
                ensure!(m == 0, "retrieve gave {got:?} for a query not within the bounds; {}", show(&s));
                ctx.count("outside_queries", 1);
                continue;
            };
            for (i, d) in &data {
                if overlaps(d, &b) {
                    ctx.count("overlapping_pairs", 1);
                    ensure!(
                        got.binary_search(i).is_ok(),
                        "retrieve misses datum {i} whose box {d:?} overlaps; got {got:?}; {}",
                        show(&s)
                    );
                }
            }
            if m < data.len() {
                ctx.count("partial_retrievals", 1);
            }
            if let Some(model) = &model {
                let mut want = vec![];
                if !model.retrieve(Which::Bounds, &b, &mut want) {
                    continue;
                }
                want.sort();
                ensure!(got == want, "retrieve gave {got:?}, the query's cells hold {want:?}; {}", show(&s));
                ctx.count("compared_with_model", 1);
                if !f.modelled() {
                    ctx.count("compared_with_model_on_rounding_frames", 1);
                }
            }
        }
    }
    ctx.nontrivial = true;
    if ctx.want_desc {
        ctx.desc = s.describe();
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    any_num!(ctx, run)
}

fn main() {
    runner::main("C04", case)
}
