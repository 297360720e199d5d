//! Drives iterators in every mixture of their methods and compares with the plain sequence.

use crate::rng::Rng;
use std::fmt::Debug;

fn hint<I: Iterator>(it: &I, left: usize, name: &str) {
    let (lo, hi) = it.size_hint();
    ensure!(lo <= left && hi.is_none_or(|h| h >= left), format!("iter:{name}:size_hint"), "{name}: size_hint {:?} with {left} items left", (lo, hi));
}

/// The plain sequence, checking the size estimate at every point and that the end stays the end.
pub fn seq<I: Iterator>(it: I, name: &str) -> Vec<I::Item>
where
    I::Item: PartialEq + Debug,
{
    let mut it = it;
    let mut out = vec![];
    let mut hints = vec![it.size_hint()];
    while let Some(x) = it.next() {
        out.push(x);
        hints.push(it.size_hint());
        if out.len() > 5_000_000 {
            crate::run::vio(format!("iter:{name}:endless"), format!("{name} does not end"));
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), format!("iter:{name}:fused"), "{name} yields again after its end");
        hints.push(it.size_hint());
    }
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let left = out.len().saturating_sub(i);
        ensure!(
            *lo <= left && hi.is_none_or(|h| h >= left),
            format!("iter:{name}:size_hint"),
            "{name}: size_hint ({lo}, {hi:?}) with {left} of {} items left",
            out.len()
        );
    }
    out
}

/// Iterators that only move forwards: next, nth, count, last, skip, step_by, fold.
pub fn fwd<I: Iterator>(rng: &mut Rng, mk: impl Fn() -> I, name: &str) -> Vec<I::Item>
where
    I::Item: PartialEq + Debug,
{
    let want = seq(mk(), name);
    if crate::run::lean_skip() {
        return want;
    }
    let n = want.len();
    ensure_eq!(mk().count(), n, format!("iter:{name}:count"), "{name}: count");
    let folded = mk().fold(vec![], |mut v, x| {
        v.push(x);
        v
    });
    ensure_eq!(folded, want, format!("iter:{name}:fold"), "{name}: fold");
    let last = mk().last();
    ensure_eq!(last.as_ref(), want.last(), format!("iter:{name}:last"), "{name}: last");
    for _ in 0..3 {
        let mut it = mk();
        let mut i = 0;
        let mut steps = vec![];
        loop {
            let k = match rng.below(3) {
                0 => 0,
                1 => rng.below(3),
                _ => rng.below(n + 2),
            };
            steps.push(k);
            let got = it.nth(k);
            i += k;
            ensure_eq!(got.as_ref(), want.get(i), format!("iter:{name}:nth"), "{name}: nth after skips {steps:?} of {want:?}");
            i += 1;
            hint(&it, n.saturating_sub(i), name);
            if rng.chance(1, 6) {
                ensure_eq!(it.count(), n.saturating_sub(i), format!("iter:{name}:count-mid"), "{name}: count after nth's {steps:?} of {want:?}");
                break;
            }
            if i > n + 2 {
                break;
            }
        }
    }
    // every way of using up an iterator that has already been advanced, perhaps past its end
    for how in 0..5 {
        let mut it = mk();
        let k = if rng.bool() { n - rng.below(n.min(2) + 1) + rng.below(2) } else { rng.below(n + 2) };
        for _ in 0..k {
            it.next();
        }
        let rest = &want[k.min(n)..];
        match how {
            0 => {
                let last = it.last();
                ensure_eq!(last.as_ref(), rest.last(), format!("iter:{name}:last-mid"), "{name}: last after {k} of {n} items");
            }
            1 => {
                let got = it.fold(vec![], |mut v, x| {
                    v.push(x);
                    v
                });
                ensure_eq!(got[..], *rest, format!("iter:{name}:fold-mid"), "{name}: fold after {k} of {n} items");
            }
            2 => ensure_eq!(it.count(), rest.len(), format!("iter:{name}:count-mid"), "{name}: count after {k} of {n} items"),
            3 => {
                let got: Vec<_> = it.collect();
                ensure_eq!(got[..], *rest, format!("iter:{name}:collect-mid"), "{name}: collected after {k} of {n} items");
            }
            _ => {
                let m = rng.below(rest.len() + 2);
                let mut i = 0;
                let at = it.position(|_| {
                    i += 1;
                    i > m
                });
                ensure_eq!(at, (m < rest.len()).then_some(m), format!("iter:{name}:position"), "{name}: position after {k} of {n} items");
                let next = it.next();
                ensure_eq!(next.as_ref(), rest.get(m + 1), format!("iter:{name}:position-next"), "{name}: the item after a position found after {k} of {n} items");
            }
        }
    }
    let k = rng.below(n + 2);
    let got: Vec<_> = mk().skip(k).collect();
    ensure_eq!(got[..], want[k.min(n)..], format!("iter:{name}:skip"), "{name}: skip({k})");
    let s = 1 + rng.below(3);
    let got: Vec<_> = mk().step_by(s).collect();
    let exp: Vec<_> = want.iter().step_by(s).collect();
    ensure!(got.iter().eq(exp.iter().copied()), format!("iter:{name}:step_by"), "{name}: step_by({s}) gives {got:?} of {want:?}");
    want
}

pub fn cloned<I: Iterator + Clone>(rng: &mut Rng, mk: impl Fn() -> I, name: &str)
where
    I::Item: PartialEq + Debug,
{
    if crate::run::lean_skip() {
        return;
    }
    let want: Vec<_> = mk().collect();
    let mut it = mk();
    let k = rng.below(want.len() + 2);
    for _ in 0..k {
        it.next();
    }
    let mut c = it.clone();
    if rng.bool() {
        it.next();
        let rest: Vec<_> = c.collect();
        ensure_eq!(rest[..], want[k.min(want.len())..], format!("iter:{name}:clone"), "{name}: clone after {k} items");
    } else {
        c.next();
        let rest: Vec<_> = it.collect();
        ensure_eq!(rest[..], want[k.min(want.len())..], format!("iter:{name}:clone"), "{name}: original after advancing a clone at {k}");
    }
}

/// Double-ended iterators: arbitrary mixtures from both ends.
pub fn dei<I: DoubleEndedIterator>(rng: &mut Rng, mk: impl Fn() -> I, name: &str)
where
    I::Item: PartialEq + Debug,
{
    if crate::run::lean_skip() {
        return;
    }
    let want: Vec<_> = mk().collect();
    let n = want.len();
    let rev: Vec<_> = mk().rev().collect();
    ensure!(rev.iter().eq(want.iter().rev()), format!("iter:{name}:rev"), "{name}: reversed gives {rev:?} of {want:?}");
    for _ in 0..3 {
        let mut it = mk();
        let (mut lo, mut hi) = (0, n);
        let mut steps = vec![];
        for _ in 0..n + 4 {
            let back = rng.bool();
            let k = if rng.chance(2, 3) { 0 } else { rng.below(3) };
            steps.push((back, k));
            let got = match (back, k) {
                (false, 0) => it.next(),
                (true, 0) => it.next_back(),
                (false, k) => it.nth(k),
                (true, k) => it.nth_back(k),
            };
            let exp = if lo + k >= hi {
                lo = hi;
                None
            } else if back {
                hi -= k + 1;
                Some(&want[hi])
            } else {
                lo += k + 1;
                Some(&want[lo - 1])
            };
            ensure_eq!(got.as_ref(), exp, format!("iter:{name}:both-ends"), "{name}: after (back, nth) steps {steps:?} of {want:?}");
            hint(&it, hi - lo, name);
        }
    }
    for how in 0..6 {
        let mut it = mk();
        let (mut lo, mut hi) = (0, n);
        for _ in 0..if rng.bool() { n + rng.below(3) } else { rng.below(n + 1) } {
            if rng.bool() {
                it.next();
                lo = (lo + 1).min(hi);
            } else {
                it.next_back();
                hi = hi.saturating_sub(1).max(lo);
            }
        }
        let rest = &want[lo..hi];
        match how {
            0 => {
                let got: Vec<_> = it.rev().collect();
                ensure!(got.iter().eq(rest.iter().rev()), format!("iter:{name}:rev-mid"), "{name}: items {lo}..{hi} reversed give {got:?} of {want:?}");
            }
            1 => {
                let last = it.last();
                ensure_eq!(last.as_ref(), rest.last(), format!("iter:{name}:last-ends"), "{name}: last of the items {lo}..{hi} of {want:?}");
            }
            2 => {
                let last = it.rev().last();
                ensure_eq!(last.as_ref(), rest.first(), format!("iter:{name}:rev-last"), "{name}: last of the reversed items {lo}..{hi} of {want:?}");
            }
            3 => ensure_eq!(it.count(), rest.len(), format!("iter:{name}:count-ends"), "{name}: count of the items {lo}..{hi} of {n}"),
            4 => {
                let got = it.rfold(vec![], |mut v, x| {
                    v.push(x);
                    v
                });
                ensure!(got.iter().eq(rest.iter().rev()), format!("iter:{name}:rfold"), "{name}: items {lo}..{hi} folded from the back give {got:?} of {want:?}");
            }
            _ => {
                let m = rng.below(rest.len() + 2);
                let mut i = 0;
                let at = it.rfind(|_| {
                    i += 1;
                    i > m
                });
                let exp = (m < rest.len()).then(|| &rest[rest.len() - 1 - m]);
                ensure_eq!(at.as_ref(), exp, format!("iter:{name}:rfind"), "{name}: rfind among the items {lo}..{hi} of {want:?}");
            }
        }
    }
}

pub fn exact<I: ExactSizeIterator>(mk: impl Fn() -> I, name: &str) {
    if crate::run::lean_skip() {
        return;
    }
    let mut it = mk();
    let n = mk().count();
    for i in 0..=n + 1 {
        let left = n.saturating_sub(i);
        ensure_eq!(it.len(), left, format!("iter:{name}:len"), "{name}: len after {i} of {n} items");
        ensure_eq!(it.size_hint(), (left, Some(left)), format!("iter:{name}:exact"), "{name}: size_hint after {i} of {n} items");
        it.next();
    }
}

pub fn exact_dei<I: ExactSizeIterator + DoubleEndedIterator>(rng: &mut Rng, mk: impl Fn() -> I, name: &str) {
    if crate::run::lean_skip() {
        return;
    }
    let mut it = mk();
    let n = mk().count();
    for i in 0..=n + 1 {
        let left = n.saturating_sub(i);
        ensure_eq!(it.len(), left, format!("iter:{name}:len"), "{name}: len after {i} of {n} items from both ends");
        if rng.bool() {
            it.next();
        } else {
            it.next_back();
        }
    }
}
