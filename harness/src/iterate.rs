//! Every way of consuming an iterator has to give the same sequence.
use crate::rng::Rng;
use crate::runner::{Res, lib};
use crate::ensure;

/// Consume the iterator that `make` gives in some other way than collecting it,
/// and compare with the sequence it is known to have.
pub fn consume<X, I: Iterator<Item = X>, K: PartialEq + std::fmt::Debug + Clone>(
    r: &mut Rng,
    make: impl Fn() -> I,
    key: impl Fn(X) -> K,
    want: &[K],
    what: &str,
) -> Res {
    let n = want.len();
    match r.below(6) {
        0 => {
            // the size hint brackets what is left, at every point
            let stride = 1 + n / 64;
            let (got, bad) = lib(|| {
                let mut it = make();
                let (mut got, mut bad) = (vec![], None);
                for i in 0..=n {
                    if i % stride == 0 || i == n {
                        let (lo, hi) = it.size_hint();
                        if bad.is_none() && (lo > n - i || hi.is_some_and(|h| h < n - i)) {
                            bad = Some((i, lo, hi));
                        }
                    }
                    match it.next() {
                        Some(x) => got.push(key(x)),
                        None => break,
                    }
                }
                (got, bad)
            });
            ensure!(bad.is_none(), "{what}: size_hint (after, low, high) {bad:?} with {n} in all");
            ensure!(got == want, "{what}: a second pass by next() differs: {got:?}, not {want:?}");
        }
        1 => {
            let k = r.below(n + 3);
            let (c, skipped) = lib(|| {
                let mut it = make();
                let mut s = 0;
                for _ in 0..k {
                    if it.next().is_some() {
                        s += 1;
                    }
                }
                (it.count(), s)
            });
            ensure!(skipped == k.min(n) && c == n - skipped, "{what}: count() after {k} steps gives {c}, of {n}");
        }
        2 => {
            let k = r.below(n + 2);
            let l = lib(|| {
                let mut it = make();
                for _ in 0..k {
                    it.next();
                }
                it.last().map(&key)
            });
            let w = if k < n { want.last().cloned() } else { None };
            ensure!(l == w, "{what}: last() after {k} steps gives {l:?}, not {w:?}");
        }
        3 => {
            let steps: Vec<usize> = (0..12).map(|_| *r.pick(&[0, 0, 1, 1, 2, 3, 5, n / 3])).collect();
            let mut at = 0;
            let mut trace = vec![];
            let got: Vec<Option<K>> = lib(|| {
                let mut it = make();
                steps.iter().map(|k| it.nth(*k).map(&key)).collect()
            });
            for (k, g) in steps.iter().zip(got) {
                let w = want.get(at + k).cloned();
                trace.push(*k);
                ensure!(g == w, "{what}: nth{trace:?} gives {g:?}, not {w:?}");
                at = (at + k + 1).min(n);
            }
        }
        4 => {
            let k = r.below(n + 1);
            let got: Vec<K> = lib(|| {
                let mut it = make();
                let mut v: Vec<K> = it.by_ref().take(k).map(&key).collect();
                // internal iteration
                it.for_each(|x| v.push(key(x)));
                v
            });
            ensure!(got == want, "{what}: {k} steps and for_each give {got:?}, not {want:?}");
        }
        _ => {
            let more = lib(|| {
                let mut it = make();
                while it.next().is_some() {}
                (0..4).filter(|_| it.next().is_some()).count() + it.count()
            });
            ensure!(more == 0, "{what}: {more} more after the end");
        }
    }
    Ok(())
}
