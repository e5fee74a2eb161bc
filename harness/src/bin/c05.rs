//! C05: cells quarter the bounds, respect both limits and are walked in preorder.
use qtmon::model::*;
use qtmon::*;
use quadtree::CalcMethod;

fn run<T: Num>(ctx: &mut Ctx) -> Res {
    let f = if ctx.rng.chance(4, 5) {
        modelled_frame::<T>(&mut ctx.rng)
    } else {
        any_frame::<T>(&mut ctx.rng, false)
    };
    let mut c = cfg(&mut ctx.rng, f.max_depth);
    let n = how_many(&mut ctx.rng, c, ctx.small).min(500);
    let n = crowd(&mut ctx.rng, c, ctx.small, n, 1500, 6000);
    let n = throng(&mut ctx.rng, &mut c, ctx.small, n, 30_000);
    c.depth = c.depth.min(f.max_depth);
    if c.depth > 60 && n > 20 {
        c.depth = 60;
    }
    let w = which(&mut ctx.rng);
    let mut s = Scene::<T>::new(f.clone(), c, w, CalcMethod::None);
    let mut pl = Places::new(&mut ctx.rng, &f);
    pl.raw = true;
    let kinds = datum_kinds(&mut ctx.rng, w);
    let phases = 1 + ctx.rng.below(4);
    for _ in 0..phases {
        fill(ctx, &mut s, &mut pl, &kinds, n / phases + 1)?;
        check(ctx, &s)?;
    }
    // another insertion order gives the same cells with the same data
    let mut t = Scene::<T>::new(f.clone(), c, w, CalcMethod::None);
    let mut order: Vec<usize> = (0..s.data.len()).collect();
    ctx.rng.shuffle(&mut order);
    for i in order {
        let r = t.tree.insert(Item::new(s.data[i].0, &s.data[i].1));
        ensure!(r.is_ok(), "insert refused in another order: {r:?}");
    }
    let (a, b) = (s.tree.show(), t.tree.show());
    ensure!(a == b, "insertion order changes the tree: {} versus {b}", a);
    let lines = parse_display(&a);
    if let Some(lines) = lines {
        let (ia, ib) = (s.tree.ids(), t.tree.ids());
        ensure!(groups(&lines, &ia) == groups(&lines, &ib), "insertion order changes what cells hold");
    }
    ctx.count("orders_compared", 1);
    ctx.nontrivial = true;
    if ctx.want_desc {
        ctx.desc = s.describe();
    }
    Ok(())
}

/// Takes so many bytes, then refuses one piece, or all that follow.
struct Limited {
    got: String,
    room: usize,
    once: bool,
    refused: bool,
    after: usize,
}

impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.refused {
            self.after += s.len();
            return if self.once { Ok(()) } else { Err(std::fmt::Error) };
        }
        if self.got.len() + s.len() > self.room {
            self.refused = true;
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// Display into a writer that fails somewhere ends there, with its error.
fn failing_writer<T: Num>(ctx: &mut Ctx, s: &Scene<T>, show: &str) -> Res {
    let room = ctx.rng.below(show.len() + 2);
    let mut w = Limited {
        got: String::new(),
        room,
        once: ctx.rng.chance(1, 2),
        refused: false,
        after: 0,
    };
    let r = s.tree.show_into(&mut w);
    ensure!(show.starts_with(&w.got), "display wrote {:?}, but {show:?} before", w.got);
    ensure!(
        r.is_err() == w.refused && (w.refused || w.got == show),
        "display gave {r:?} to a writer that takes {room} of {} bytes, got {} and then {} more",
        show.len(),
        w.got.len(),
        w.after
    );
    ensure!(w.after == 0, "display went on after an error of the writer");
    ctx.count("failing_writers", w.refused as u64);
    Ok(())
}

/// The data of each cell, by the counts displayed.
fn groups(lines: &[CellLine], ids: &[u32]) -> Option<Vec<Vec<u32>>> {
    let mut at = 0;
    let mut v = vec![];
    for l in lines {
        let g = ids.get(at..at + l.count)?;
        at += l.count;
        let mut g = g.to_vec();
        g.sort();
        v.push(g);
    }
    (at == ids.len()).then_some(v)
}

/// Is the displayed corner this, up to two decimals and rounding?
fn near(shown: &str, p: P, f: &Frame) -> bool {
    let v: Option<Vec<f64>> = shown.split(", ").map(|s| s.parse().ok()).collect();
    let slack = 0.006 + 1e-5 * f.scale();
    v.is_some_and(|v| v.len() == 2 && (0..2).all(|k| (v[k] - p[k]).abs() <= slack))
}

fn check<T: Num>(ctx: &mut Ctx, s: &Scene<T>) -> Res {
    let (f, c, w) = (&s.f, &s.c, s.which);
    let show = s.tree.show();
    let Some(lines) = parse_display(&show) else {
        fail!("display is not one line per cell: {show}")
    };
    // word by word
    let mut text = match w {
        Which::Point => "Point Quadtree Root:\n".to_string(),
        Which::Bounds => "Bounds Quadtree Root:\n".to_string(),
    };
    for l in &lines {
        let held = match l.count {
            0 => String::new(),
            1 => " 1 child".to_string(),
            n => format!(" {n} children"),
        };
        text += &format!("{}({}):{held}\n", " ".repeat(4 * l.depth), l.corner);
    }
    ensure!(show == text, "display shows {show:?}, the format is {text:?}");
    if ctx.rng.chance(1, 3) {
        failing_writer(ctx, s, &show)?;
    }
    let ids = s.tree.ids();
    ensure!(!lines.is_empty() && lines[0].depth == 0, "display does not start at the root: {show}");
    let total: usize = lines.iter().map(|l| l.count).sum();
    ensure!(total == s.data.len(), "cells display {total} data, {} are stored", s.data.len());
    // both limits, and four quarters per divided cell
    let mut kids = vec![0usize; lines.len()];
    let mut path: Vec<usize> = vec![];
    for (i, l) in lines.iter().enumerate() {
        ensure!(l.depth <= c.depth as usize, "a cell at depth {} with max_depth {}", l.depth, c.depth);
        ensure!(l.depth <= path.len(), "display jumps to depth {}: {show}", l.depth);
        path.truncate(l.depth);
        if let Some(p) = path.last() {
            kids[*p] += 1;
        } else {
            ensure!(i == 0, "more than one root: {show}");
        }
        path.push(i);
    }
    for (l, k) in lines.iter().zip(&kids) {
        ensure!(*k == 0 || *k == 4, "a cell with {k} quarters: {show}");
        if *k == 0 {
            ensure!(
                l.count <= c.children || l.depth == c.depth as usize,
                "an undivided cell at depth {} holds {} data (max_children {}, max_depth {}); {}",
                l.depth,
                l.count,
                c.children,
                c.depth,
                s.describe()
            );
        } else if w == Which::Point {
            ensure!(l.count == 0, "a divided cell of a point tree holds data");
        }
    }
    ctx.count("displays_checked", 1);
    ctx.count("cells_checked", lines.len() as u64);
    ctx.see(lines.len() as u64);
    for l in lines.iter().take(400) {
        ctx.see(l.count as u64 * 256 + l.depth as u64);
    }
    // every cell: place in preorder, depth, corner, and the set of its data
    let data: Vec<(u32, Bx)> = s.data.iter().map(|(i, d)| (*i, d.bbox().unwrap())).collect();
    let Some(model) = Cell::tree::<T>(w, f, c, &data) else {
        ctx.count("left_out_as_rounding_may_decide", 1);
        return Ok(());
    };
    let mut cells = vec![];
    model.walk(&mut cells);
    ensure!(
        cells.len() == lines.len(),
        "{} cells displayed, the rules make {}; {}",
        lines.len(),
        cells.len(),
        s.describe()
    );
    let Some(g) = groups(&lines, &ids) else {
        fail!("display and iteration disagree: {show}")
    };
    for ((m, l), g) in cells.iter().zip(&lines).zip(&g) {
        let mut own = m.own.clone();
        own.sort();
        let (x, y) = (T::of(m.lo[0]), T::of(m.lo[1]));
        let corner = format!("{x:.2}, {y:.2}");
        ensure!(
            l.depth == m.depth as usize && (l.corner == corner || !f.modelled() && near(&l.corner, m.lo, f)) && *g == own,
            "cell ({}) at depth {} holds {g:?}, the rules put ({corner}) at depth {} with {own:?} there; {}",
            l.corner,
            l.depth,
            m.depth,
            s.describe()
        );
    }
    ctx.count("compared_with_model", 1);
    if !f.modelled() {
        ctx.count("compared_with_model_on_rounding_frames", 1);
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    any_num!(ctx, run)
}

fn main() {
    runner::main("C05", case)
}
