//! Checks of search answers against a linear scan.
use crate::item::Hit;
use crate::runner::Res;
use crate::{ensure, fail};
use quadtree::Error;
use std::collections::{HashMap, HashSet};

/// The scan: per stored datum the accepted range of its distance (None when
/// the method cannot measure it).
pub struct Scan {
    pub d: HashMap<u32, (f64, f64)>,
    /// slack for comparisons between distances
    pub tol: f64,
    /// round-off of spherical distances, whose slack depends on the distance
    /// (0: not spherical)
    pub sph: f64,
}

impl Scan {
    pub fn new(d: impl IntoIterator<Item = (u32, (f64, f64))>, tol: f64) -> Self {
        Scan {
            d: d.into_iter().collect(),
            tol,
            sph: 0.0,
        }
    }
    pub fn spherical(d: impl IntoIterator<Item = (u32, (f64, f64))>, eps: f64) -> Self {
        Scan {
            d: d.into_iter().collect(),
            tol: 64.0 * eps,
            sph: eps,
        }
    }
    /// Slack at a distance.
    pub fn at(&self, d: f64) -> f64 {
        if self.sph > 0.0 && d.is_finite() {
            self.tol + 2.0 * crate::shape::angle_tol(d, self.sph)
        } else {
            self.tol
        }
    }
    pub fn min(&self) -> Option<(f64, f64)> {
        if self.d.is_empty() {
            return None;
        }
        Some(self.d.values().fold((f64::INFINITY, f64::INFINITY), |a, b| {
            (a.0.min(b.0), a.1.min(b.1))
        }))
    }
    fn true_distance(&self, h: &Hit, what: &str) -> Res {
        let Some(r) = self.d.get(&h.id) else {
            fail!("{what}: returned datum {} which is not stored", h.id)
        };
        ensure!(
            h.d >= r.0 - self.at(r.0) && h.d <= r.1 + self.at(r.1),
            "{what}: datum {} reported at distance {:?}, but it is at {:?}",
            h.id,
            h.d,
            r
        );
        Ok(())
    }

    /// find / find_r (r = None: without a limit). Only for a comparator that
    /// meets the bounds.
    pub fn find(&self, got: &Result<Hit, Error>, r: Option<f64>, exact_r: bool, what: &str) -> Res {
        let lim = r.unwrap_or(f64::INFINITY);
        let tr = if exact_r { 0.0 } else { self.at(lim) };
        match (self.min(), got) {
            (None, Err(Error::Empty)) => Ok(()),
            (None, x) => fail!("{what} on an empty tree gave {x:?}"),
            (Some(m), Ok(h)) => {
                self.true_distance(h, what)?;
                ensure!(
                    h.d <= m.1 + self.at(m.1),
                    "{what}: found datum {} at {:?}, but one is at {:?}",
                    h.id,
                    h.d,
                    m
                );
                ensure!(h.d <= lim, "{what}: found at {:?}, beyond r = {lim:?}", h.d);
                ensure!(m.0 <= lim + tr, "{what}: found at {:?} though the nearest is at {m:?}, r = {lim:?}", h.d);
                Ok(())
            }
            (Some(m), Err(Error::NoneInRadius)) => {
                ensure!(
                    m.1 > lim - tr,
                    "{what}: NoneInRadius for r = {lim:?}, but a datum is at {m:?}"
                );
                Ok(())
            }
            (Some(_), Err(e)) => fail!("{what}: unexpected error {e:?}"),
        }
    }

    /// knn / knn_r / a (complete when k is huge) prefix of sorted.
    pub fn nearest(&self, got: &[Hit], k: usize, r: Option<f64>, exact_r: bool, what: &str) -> Res {
        let lim = r.unwrap_or(f64::INFINITY);
        let tr = if exact_r { 0.0 } else { self.at(lim) };
        let mut ids = HashSet::new();
        let mut prev = f64::NEG_INFINITY;
        let mut last = f64::NEG_INFINITY;
        for h in got {
            self.true_distance(h, what)?;
            ensure!(ids.insert(h.id), "{what}: datum {} returned twice", h.id);
            ensure!(
                h.d >= prev - self.at(h.d),
                "{what}: distance {:?} after {:?}",
                h.d,
                prev
            );
            ensure!(h.d <= lim, "{what}: returned {:?}, beyond r = {lim:?}", h.d);
            prev = h.d;
            last = last.max(h.d);
        }
        let sure = self.d.values().filter(|d| d.1 + tr <= lim).count();
        let maybe = self.d.values().filter(|d| d.0 - tr <= lim).count();
        ensure!(
            got.len() >= k.min(sure) && got.len() <= k.min(maybe),
            "{what}: {} results, expected between {} and {} (k = {k}, r = {lim:?}, {} stored)",
            got.len(),
            k.min(sure),
            k.min(maybe),
            self.d.len()
        );
        if k == 0 {
            return Ok(());
        }
        if got.len() < k {
            for (i, d) in &self.d {
                ensure!(
                    ids.contains(i) || d.1 + tr > lim,
                    "{what}: datum {i} at {d:?} left out, r = {lim:?}, though fewer than k = {k} were returned"
                );
            }
        }
        if got.len() == k {
            for (i, d) in &self.d {
                ensure!(
                    ids.contains(i) || d.1 >= last - self.at(d.1),
                    "{what}: datum {i} at {d:?} left out, though one at {last:?} was returned"
                );
            }
        }
        Ok(())
    }
}
