//! Iterators handed out by the library (C04): abandoned, resumed after crashes, used by shared and mutable
//! reference and by value, and the flattening iterator over scripted sequences of sequences.

use crate::elems::*;
use crate::sim::*;
use crate::util::*;
use std::collections::VecDeque;
use vecmat::matrix::FlatIter;
use vecmat::{Matrix, Vector};

const S: u32 = C04;

/// An iterator behind a pointer, without losing the methods that its type may implement by itself.
trait It<T>: Iterator<Item = T> {
    /// Stops where `f` returns false.
    fn try_each(&mut self, f: &mut dyn FnMut(T) -> bool);
    fn all_of(self: Box<Self>, how: usize, f: &mut dyn FnMut(T));
    fn number(self: Box<Self>) -> usize;
    fn final_one(self: Box<Self>) -> Option<T>;
}
impl<T, I: Iterator<Item = T>> It<T> for I {
    fn try_each(&mut self, f: &mut dyn FnMut(T) -> bool) {
        let _ = self.try_fold((), |_, x| if f(x) { Ok(()) } else { Err(()) });
    }
    fn all_of(self: Box<Self>, how: usize, f: &mut dyn FnMut(T)) {
        match how {
            0 => (*self).fold((), |_, x| f(x)),
            1 => (*self).for_each(f),
            2 => {
                let k = (*self).map(|x| f(x)).count();
                let _ = k;
            }
            3 => {
                for x in *self {
                    f(x)
                }
            }
            _ => (*self).skip(0).enumerate().for_each(|(_, x)| f(x)),
        }
    }
    fn number(self: Box<Self>) -> usize {
        (*self).count()
    }
    fn final_one(self: Box<Self>) -> Option<T> {
        (*self).last()
    }
}
/// One owning iterator with the values it still has to yield.
struct Owned {
    it: Box<dyn It<Tok>>,
    left: VecDeque<u64>,
    name: &'static str,
}

fn make_owned() -> Owned {
    fn v<const N: usize>() -> (Box<dyn It<Tok>>, Vec<u64>) {
        let m = fresh(N);
        (Box::new(Vector::<Tok, N>::from(arr(&m)).into_iter()), m)
    }
    fn a<const M: usize, const N: usize>() -> (Box<dyn It<Tok>>, Vec<u64>) {
        let m = fresh(M * N);
        (Box::new(Matrix::<Tok, M, N>::from(arr2(&m)).into_iter()), m)
    }
    let k = pick(21);
    let (it, m) = match k {
        16 => a::<4, 4>(),
        17 => v::<8>(),
        18 if chance(1, 6) => v::<300>(),
        18 => v::<40>(),
        19 => a::<8, 3>(),
        20 => v::<6>(),
        0 => a::<2, 3>(),
        1 => v::<3>(),
        2 => a::<3, 1>(),
        3 => a::<1, 4>(),
        4 => a::<3, 3>(),
        5 => a::<0, 3>(),
        6 => a::<3, 0>(),
        7 => a::<0, 0>(),
        8 => v::<0>(),
        9 => v::<5>(),
        10 => a::<1, 1>(),
        11 => v::<17>(),
        12 => a::<5, 7>(),
        13 => a::<17, 1>(),
        14 => a::<1, 18>(),
        _ => a::<4, 2>(),
    };
    if m.is_empty() {
        extra(X::ZeroDim);
    }
    let name = if [1, 8, 9, 11, 17, 18, 20].contains(&k) { "Vector::into_iter" } else { "Matrix::into_iter" };
    trace(|| format!("{} over {:?}", name, m));
    Owned { it, left: m.into(), name }
}

fn hint_ok(name: &str, hint: (usize, Option<usize>), left: usize) {
    if hint.0 > left || hint.1.map_or(false, |u| u < left) {
        violation(S, format!("size-hint:{}", name), format!("{}: size hint {:?} with {} elements left", name, hint, left));
    }
}

fn expect(name: &str, got: Option<u64>, want: Option<u64>) {
    if got != want {
        violation(S, format!("yield:{}", name), format!("{} yielded {:?}, expected {:?}", name, got, want));
    }
}

/// One drawn way of consuming an owning iterator. Returns true if the iterator is gone.
fn consume(o: &mut Owned, kept: &mut Vec<Tok>) {
    let name = o.name;
    hint_ok(name, o.it.size_hint(), o.left.len());
    match pick(8) {
        0 | 1 => {
            let r = exec(name, S, ALL_SEAMS, || o.it.next());
            if let Ok(x) = r {
                expect(name, x.as_ref().map(Tok::get), o.left.pop_front());
                kept.extend(x);
            }
        }
        2 | 3 => {
            // a loop whose body may crash; the iterator survives
            let mut seen = vec![];
            let limit = 2 * o.left.len() + 4;
            let it = &mut o.it;
            let stop = if chance(1, 3) { pick(o.left.len() + 1) } else { usize::MAX };
            let r = exec(name, S, ALL_SEAMS, || {
                for x in it.by_ref() {
                    seen.push(x.get());
                    if seen.len() > limit {
                        break;
                    }
                    seam(Seam::Body, x.get());
                    kept.push(x);
                    if seen.len() >= stop {
                        break;
                    }
                }
            });
            if r.is_err() {
                extra(X::Resume);
            }
            let done = r.is_ok() && stop == usize::MAX;
            let want: Vec<u64> = o.left.iter().copied().take(if done { usize::MAX } else { seen.len() }).collect();
            if seen != want {
                violation(S, format!("yield:{}", name), format!("{} (loop) yielded {:?}, expected {:?}", name, seen, want));
            }
            for _ in 0..want.len() {
                o.left.pop_front();
            }
        }
        4 => {
            let k = pick(4);
            let r = exec(name, S, ALL_SEAMS, || o.it.nth(k));
            match r {
                Ok(x) => {
                    for _ in 0..k {
                        o.left.pop_front();
                    }
                    expect(name, x.as_ref().map(Tok::get), o.left.pop_front());
                    kept.extend(x);
                }
                // how many of the skipped elements were dropped before the crash is free, so stop using it
                Err(_) => o.left = remaining(&mut o.it, name, std::mem::take(&mut o.left)),
            }
        }
        5 => {
            let n = pick(3);
            let r = exec(name, S, ALL_SEAMS, || o.it.by_ref().take(n).map(|x| { seam(Seam::Body, 1); x }).collect::<Vec<_>>());
            match r {
                Ok(xs) => {
                    let got: Vec<u64> = xs.iter().map(Tok::get).collect();
                    let want: Vec<u64> = (0..n).filter_map(|_| o.left.pop_front()).collect();
                    if got != want {
                        violation(S, format!("yield:{}", name), format!("{} (take) yielded {:?}, expected {:?}", name, got, want));
                    }
                    kept.extend(xs);
                }
                Err(_) => o.left = remaining(&mut o.it, name, std::mem::take(&mut o.left)),
            }
        }
        6 => {
            // past the end
            if o.left.is_empty() {
                for _ in 0..3 {
                    let r = exec(name, S, ALL_SEAMS, || o.it.next());
                    if let Ok(x) = r {
                        expect(name, x.as_ref().map(Tok::get), None);
                    }
                }
            }
        }
        _ => {
            let r = exec(name, S, ALL_SEAMS, || {
                let mut seen = vec![];
                o.it.try_each(&mut |x| {
                    seen.push(x.get());
                    seen.len() < 2
                });
                seen
            });
            match r {
                Ok(seen) => {
                    let want: Vec<u64> = (0..2).filter_map(|_| o.left.pop_front()).collect();
                    if seen != want {
                        violation(S, format!("yield:{}", name), format!("{} (try_for_each) yielded {:?}, expected {:?}", name, seen, want));
                    }
                }
                Err(_) => o.left = remaining(&mut o.it, name, std::mem::take(&mut o.left)),
            }
        }
    }
}
/// After an interrupted skip: whatever is still yielded must be a suffix of what was left.
fn remaining(it: &mut Box<dyn It<Tok>>, name: &str, left: VecDeque<u64>) -> VecDeque<u64> {
    let mut seen = vec![];
    while let Some(x) = it.next() {
        seen.push(x.get());
        if seen.len() > left.len() + 2 {
            break;
        }
    }
    let l: Vec<u64> = left.into();
    if seen.len() > l.len() || seen[..] != l[l.len() - seen.len()..] {
        violation(S, format!("yield:{}", name), format!("{} after a crash yielded {:?}, expected a suffix of {:?}", name, seen, l));
    }
    extra(X::Resume);
    VecDeque::new()
}

fn owned_history() {
    let n = 1 + pick(3);
    let mut its: Vec<Owned> = (0..n).map(|_| make_owned()).collect();
    let mut kept = vec![];
    let steps = 1 + pick(12);
    let mut base = 0;
    for _ in 0..steps {
        if its.is_empty() {
            break;
        }
        let i = pick(its.len());
        let name = its[i].name;
        if chance(1, 6) {
            let o = its.swap_remove(i);
            if !o.left.is_empty() {
                extra(X::Abandon);
            }
            let r = match pick(6) {
                0 | 1 => exec("drop iterator", C01 | S, ALL_SEAMS, move || drop(o.it)),
                2 => {
                    let want = o.left.len();
                    exec("count", S, ALL_SEAMS, move || o.it.number()).map(|c| if c != want {
                        violation(S, format!("yield:{}", name), format!("{}.count() is {} instead of {}", name, c, want));
                    })
                }
                3 | 4 => {
                    let how = pick(5);
                    let mut seen = vec![];
                    let want: Vec<u64> = o.left.iter().copied().collect();
                    let it = o.it;
                    let r = exec("consume iterator", S, ALL_SEAMS, || it.all_of(how, &mut |x| {
                        seen.push(x.get());
                        seam(Seam::Body, x.get());
                    }));
                    if seen.len() > want.len() || seen[..] != want[..seen.len()] || (r.is_ok() && seen.len() < want.len()) {
                        violation(S, format!("yield:{}", name), format!("{} (consumed) yielded {:?}, expected {:?}", name, seen, want));
                    }
                    r
                }
                _ => {
                    let want = o.left.back().copied();
                    exec("last", S, ALL_SEAMS, move || o.it.final_one()).map(|x| expect(name, x.as_ref().map(Tok::get), want))
                }
            };
            let _ = r;
        } else {
            consume(&mut its[i], &mut kept);
        }
        let want = its.iter().map(|o| o.left.len()).sum::<usize>() as i64 + kept.len() as i64 + base;
        if compiler_leak(live(), want) {
            base += live() - want;
        } else if live() != want {
            violation(C01 | S, format!("{}:{}", if live() > want { "leaked" } else { "lost" }, name),
                format!("{}: {} elements alive, {} reachable", name, live(), want));
            base += live() - want;
        }
        if !sim().viol.is_empty() {
            break;
        }
    }
    drop(its);
    drop(kept);
    if live() != base {
        violation(C01 | S, "leaked:end", format!("{} elements alive after everything was dropped", live() - base));
    }
}

// ---------------------------------------------------------------- by reference

macro_rules! by_ref_history {
    ($name:expr, $c:expr, $m:expr, $read:expr) => {{
        let mut c = $c;
        let mut m: Vec<u64> = $m;
        let mut total = m.len() as i64;
        let rounds = 1 + pick(4);
        for _ in 0..rounds {
            let limit = m.len() + 3;
            if chance(1, 4) {
                // consumed at once
                let muta = chance(1, 2);
                let name = if muta { concat!($name, "::iter_mut") } else { concat!($name, "::iter") };
                let two = chance(1, 2);
                let (how, k, what) = (pick(5), pick(m.len() + 2), pick(4));
                let mut seen: Vec<u64> = vec![];
                macro_rules! eat {
                    ($T:ty, $it:expr, $get:expr) => {{
                        let mut it: Box<dyn It<$T>> = $it;
                        exec(name, S, ALL_SEAMS, || match what {
                            0 => {
                                it.all_of(how, &mut |x| {
                                    let v = $get(x);
                                    seen.push(v);
                                    seam(Seam::Body, v);
                                });
                                m.len()
                            }
                            1 => it.number(),
                            2 => {
                                seen.extend(it.final_one().map($get));
                                m.len()
                            }
                            _ => {
                                seen.extend(it.nth(k).map($get));
                                it.try_each(&mut |x| {
                                    seen.push($get(x));
                                    true
                                });
                                m.len()
                            }
                        })
                    }};
                }
                let r = match (muta, two) {
                    (false, false) => eat!(&Tok, Box::new(c.iter()), Tok::get),
                    (false, true) => eat!(&Tok, Box::new((&c).into_iter()), Tok::get),
                    (true, false) => eat!(&mut Tok, Box::new(c.iter_mut()), |x: &mut Tok| x.get()),
                    (true, true) => eat!(&mut Tok, Box::new((&mut c).into_iter()), |x: &mut Tok| x.get()),
                };
                let want: Vec<u64> = match what {
                    0 => m.clone(),
                    1 => vec![],
                    2 => m.last().copied().into_iter().collect(),
                    _ => m.iter().skip(k).copied().collect(),
                };
                let ok = match r {
                    Ok(n) => n == m.len() && seen == want,
                    Err(_) => seen.len() <= want.len() && seen[..] == want[..seen.len()],
                };
                if !ok {
                    violation(S, format!("yield:{}", name), format!("{} (consumed) yielded {:?} ({:?}), expected {:?}", name, seen, r.ok(), want));
                }
            } else if chance(1, 2) {
                let name = concat!($name, "::iter");
                let mut seen: Vec<u64> = vec![];
                let stop = if chance(1, 3) { pick(m.len() + 1) } else { usize::MAX };
                let two = chance(1, 2);
                let mut resumed = vec![];
                {
                    let mut it: Box<dyn Iterator<Item = &Tok>> = if two { Box::new(c.iter()) } else { Box::new((&c).into_iter()) };
                    hint_ok(name, it.size_hint(), m.len());
                    let r = exec(name, S, ALL_SEAMS, || {
                        for x in it.by_ref() {
                            seen.push(x.get());
                            if seen.len() > limit { break; }
                            seam(Seam::Body, x.get());
                            if seen.len() >= stop { break; }
                        }
                    });
                    if r.is_err() || stop != usize::MAX {
                        extra(if r.is_err() { X::Resume } else { X::Abandon });
                        if chance(1, 2) {
                            resumed.extend(it.by_ref().take(limit).map(Tok::get));
                            let rest = it.by_ref().take(3).count();
                            if rest != 0 {
                                violation(S, format!("yield:{}", name), format!("{} yielded {} more elements after its end", name, rest));
                            }
                            let mut all = seen.clone();
                            all.extend(&resumed);
                            if all != m {
                                violation(S, format!("yield:{}", name), format!("{} yielded {:?} and after the interruption {:?}, expected {:?}", name, seen, resumed, m));
                            }
                        } else if seen.len() > m.len() || seen[..] != m[..seen.len()] {
                            violation(S, format!("yield:{}", name), format!("{} yielded {:?}, expected a prefix of {:?}", name, seen, m));
                        }
                    } else {
                        if seen != m {
                            violation(S, format!("yield:{}", name), format!("{} yielded {:?}, expected {:?}", name, seen, m));
                        }
                        for _ in 0..2 {
                            expect(name, it.next().map(Tok::get), None);
                        }
                    }
                }
            } else {
                let name = concat!($name, "::iter_mut");
                let mut pos = 0;
                let stop = if chance(1, 3) { pick(m.len() + 1) } else { usize::MAX };
                let two = chance(1, 2);
                let news = fresh(m.len() + 4);
                let writes = draw(0);
                let old = m.clone();
                let mm = &mut m;
                let mut bad: Option<(usize, u64)> = None;
                {
                    let mut it: Box<dyn Iterator<Item = &mut Tok>> = if two { Box::new(c.iter_mut()) } else { Box::new((&mut c).into_iter()) };
                    hint_ok(name, it.size_hint(), old.len());
                    let mut body = |x: &mut Tok, pos: &mut usize, crash: bool| {
                        if old.get(*pos) != Some(&x.get()) && bad.is_none() {
                            bad = Some((*pos, x.get()));
                        }
                        let p = *pos;
                        *pos += 1;
                        if crash {
                            seam(Seam::Body, x.get());
                        }
                        if writes >> (p % 61) & 1 == 1 && p < mm.len() {
                            mm[p] = news[p];
                            // the old element's destructor may crash after the new value is in place
                            *x = Tok::new(news[p]);
                        }
                    };
                    let r = exec(name, S, ALL_SEAMS, || {
                        for x in it.by_ref() {
                            body(x, &mut pos, true);
                            if pos >= limit || pos >= stop { break; }
                        }
                    });
                    if r.is_err() || stop != usize::MAX {
                        extra(if r.is_err() { X::Resume } else { X::Abandon });
                        if chance(1, 2) {
                            for x in it.by_ref().take(limit) {
                                body(x, &mut pos, false);
                            }
                            if pos != old.len() && bad.is_none() {
                                violation(S, format!("yield:{}", name), format!("{} yielded {} elements of {}", name, pos, old.len()));
                            }
                        }
                    } else {
                        if pos != old.len() {
                            violation(S, format!("yield:{}", name), format!("{} yielded {} elements of {}", name, pos, old.len()));
                        }
                        for _ in 0..2 {
                            expect(name, it.next().map(|x| x.get()), None);
                        }
                    }
                }
                if let Some((p, v)) = bad {
                    violation(S, format!("yield:{}", name), format!("{} yielded {} at position {} of {:?}", name, v, p, old));
                }
            }
            let got: Vec<u64> = $read(&c);
            if got != m {
                violation(S, format!("writes:{}", $name), format!("after iterating the {} holds {:?}, expected {:?}", $name, got, m));
            }
            if compiler_leak(live(), total) {
                total = live();
            } else if live() != total {
                violation(C01 | S, format!("{}:{}", if live() > total { "leaked" } else { "lost" }, $name), format!("{} elements alive, {} reachable", live(), total));
                break;
            }
            if !sim().viol.is_empty() { break; }
        }
        drop(c);
    }};
}
fn vec_refs<const N: usize>() {
    let m = fresh(N);
    trace(|| format!("by reference over vector {:?}", m));
    by_ref_history!("Vector", Vector::<Tok, N>::from(arr(&m)), m, vread)
}
fn mat_refs<const M: usize, const N: usize>() {
    let m = fresh(M * N);
    if M * N == 0 {
        extra(X::ZeroDim);
    }
    trace(|| format!("by reference over {}x{} matrix {:?}", M, N, m));
    by_ref_history!("Matrix", Matrix::<Tok, M, N>::from(arr2(&m)), m, mread)
}

// ---------------------------------------------------------------- FlatIter over scripted sequences

/// What a sequence that has `n` items left says about their number: nothing, all, or some true bounds.
fn hint_of(style: usize, n: usize) -> (usize, Option<usize>) {
    match style {
        0 => (0, None),
        1 => (n, Some(n)),
        2 => (n / 2, None),
        3 => (0, Some(n)),
        _ => (n.min(1), Some(n + 2)),
    }
}
struct Sub {
    id: u64,
    hint: usize,
    items: VecDeque<Tok>,
}
struct SubIter {
    hint: usize,
    items: VecDeque<Tok>,
}
impl Iterator for SubIter {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        seam(Seam::Pull, 0x7100 + self.items.len() as u64);
        let r = self.items.pop_front();
        if r.is_some() {
            call(YIELD);
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint_of(self.hint, self.items.len())
    }
}
const ENTER: u64 = 1 << 40;
const LEAVE: u64 = 2 << 40;
const YIELD: u64 = 3 << 40;
impl IntoIterator for Sub {
    type Item = Tok;
    type IntoIter = SubIter;
    fn into_iter(self) -> SubIter {
        call(ENTER | self.id);
        seam(Seam::IntoIter, self.id);
        call(LEAVE | self.id);
        SubIter { hint: self.hint, items: self.items }
    }
}
struct Outer {
    hint: usize,
    subs: VecDeque<Sub>,
    polls_after_end: u32,
    ended: bool,
}
impl Iterator for Outer {
    type Item = Sub;
    fn next(&mut self) -> Option<Sub> {
        seam(Seam::Pull, 0x7200 + self.subs.len() as u64);
        let r = self.subs.pop_front();
        if r.is_none() {
            if self.ended {
                self.polls_after_end += 1;
            }
            self.ended = true;
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint_of(self.hint, self.subs.len())
    }
}

fn flat() {
    let name = "FlatIter";
    let n = pick(6);
    let style = pick(3);
    let mixed = chance(1, 3);
    let (hint, hints) = (pick(5), pick(5));
    let mut model: Vec<VecDeque<u64>> = vec![];
    let mut subs = VecDeque::new();
    for id in 0..n {
        let len = match style {
            0 => pick(4),
            1 => if chance(1, 2) { 0 } else { pick(3) },
            _ => 1 + pick(3),
        };
        if len == 0 {
            extra(X::EmptySub);
        }
        let vals = fresh(len);
        subs.push_back(Sub { id: id as u64, hint: if mixed { pick(5) } else { hints }, items: vals.iter().map(|v| Tok::new(*v)).collect() });
        model.push(vals.into());
    }
    trace(|| format!("FlatIter over {:?}", model));
    let outer = Outer { hint, subs, polls_after_end: 0, ended: false };
    calls_clear();
    let r = exec("FlatIter::new", S, ALL_SEAMS, move || FlatIter::new(outer));
    let mut it = match r {
        Ok(Some(it)) => it,
        Ok(None) => {
            if n != 0 {
                violation(S, "yield:FlatIter::new", format!("FlatIter::new refused a sequence of {} subsequences", n));
            }
            return;
        }
        Err(_) => return,
    };
    if n == 0 {
        violation(S, "yield:FlatIter::new", "FlatIter::new accepted an empty sequence".to_string());
    }
    let mut kept: Vec<Tok> = vec![];
    let steps = 1 + pick(16);
    let mut ends = 0;
    let finish = if chance(1, 3) { pick(steps) } else { usize::MAX };
    for t in 0..steps {
        let left: usize = model.iter().map(|m| m.len()).sum();
        hint_ok(name, it.size_hint(), left);
        if t == finish {
            let want: Vec<u64> = model.iter().flatten().copied().collect();
            let mut seen = vec![];
            let (what, how, k) = (pick(4), pick(5), pick(want.len() + 2));
            let mut it: Box<dyn It<Tok>> = Box::new(it);
            let r = exec(name, S, 0, || match what {
                0 => {
                    it.all_of(how, &mut |x| seen.push(x.get()));
                    want.len()
                }
                1 => it.number(),
                2 => {
                    seen.extend(it.final_one().map(|x| x.get()));
                    want.len()
                }
                _ => {
                    seen.extend(it.nth(k).map(|x| x.get()));
                    it.try_each(&mut |x| {
                        seen.push(x.get());
                        true
                    });
                    want.len()
                }
            });
            let n = want.len();
            let want: Vec<u64> = match what {
                0 => want,
                1 => vec![],
                2 => want.last().copied().into_iter().collect(),
                _ => want.into_iter().skip(k).collect(),
            };
            if let Ok(c) = r {
                if c != n || seen != want {
                    violation(S, "yield:FlatIter", format!("FlatIter (consumed) yielded {:?} ({}), expected {:?} ({})", seen, c, want, n));
                }
            }
            drop(kept);
            if live() != sim().lost && sim().viol.is_empty() {
                violation(C01 | S, "leaked:end", format!("{} elements alive after everything was dropped", live()));
            }
            return;
        }
        calls_clear();
        let r = exec(name, S, ALL_SEAMS, || it.next());
        // a subsequence that crashed while it was turned into an iterator is gone with its elements
        let log = sim().calls.clone();
        let mut lost: Option<u64> = None;
        for c in &log {
            if c & ENTER == ENTER && c & LEAVE == 0 {
                lost = Some(c & 0xffff);
            } else if c & LEAVE == LEAVE && c & ENTER == 0 {
                lost = None;
            }
        }
        match r {
            Ok(x) => {
                let want = model.iter_mut().find_map(|m| m.pop_front());
                expect(name, x.as_ref().map(Tok::get), want);
                if x.is_none() {
                    ends += 1;
                    if ends > 3 {
                        break;
                    }
                }
                kept.extend(x);
            }
            Err(_) => {
                extra(X::Resume);
                if let Some(id) = lost {
                    model[id as usize].clear();
                }
                // an element handed over by its subsequence right before the crash would be lost
                if log.last() == Some(&YIELD) {
                    violation(S, "lost:FlatIter", "FlatIter dropped an element it had already pulled".to_string());
                }
            }
        }
        let left: i64 = model.iter().map(|m| m.len() as i64).sum::<i64>() + kept.len() as i64 + sim().lost;
        if live() != left && !compiler_leak_of(live(), left, 1) {
            violation(C01 | S, format!("{}:FlatIter", if live() > left { "leaked" } else { "lost" }),
                format!("{} elements alive, {} reachable", live(), left));
        }
        if !sim().viol.is_empty() {
            break;
        }
        if chance(1, 24) {
            extra(X::Abandon);
            break;
        }
    }
    let _ = exec("drop FlatIter", C01 | S, ALL_SEAMS, move || drop(it));
    drop(kept);
    if live() != sim().lost && sim().viol.is_empty() {
        violation(C01 | S, "leaked:end", format!("{} elements alive after everything was dropped", live()));
    }
}

// ---------------------------------------------------------------- elements without a size

fn sizeless() {
    fn of<T, C: IntoIterator<Item = T>>(name: &'static str, n: usize, mk: impl Fn() -> C, by_ref: impl Fn(&mut C, usize) -> (usize, bool)) {
        let how = pick(6);
        let mut c = mk();
        let mut count = 0;
        let r = exec(name, S, ALL_SEAMS, || {
            if how < 3 {
                let (k, ok) = by_ref(&mut c, how);
                count = k;
                ok
            } else {
                for x in c {
                    drop(x);
                    count += 1;
                    if count > n + 3 {
                        break;
                    }
                }
                true
            }
        });
        match r {
            Ok(ok) if count != n || !ok => {
                violation(S, format!("yield:{}", name), format!("{} over {} elements without a size yielded {} (end respected: {})", name, n, count, ok))
            }
            Err(_) if count > n => violation(S, format!("yield:{}", name), format!("{} over {} elements without a size yielded {}", name, n, count)),
            _ => {}
        }
    }
    macro_rules! refs {
        ($C:ty, $n:expr) => {
            |c: &mut $C, how: usize| match how {
                0 => {
                    let mut it = c.iter();
                    (it.by_ref().take($n + 3).count(), it.next().is_none())
                }
                1 => {
                    let mut it = c.iter_mut();
                    (it.by_ref().take($n + 3).count(), it.next().is_none())
                }
                _ => {
                    let mut it = (&mut *c).into_iter();
                    (it.by_ref().take($n + 3).count(), it.next().is_none())
                }
            }
        };
    }
    fn v<const N: usize>() {
        match pick(2) {
            0 => of("Vector<()>", N, || Vector::<(), N>::default(), refs!(Vector<(), N>, N)),
            _ => of("Vector<Zst>", N, || Vector::<Zst, N>::from(core::array::from_fn::<Zst, N, _>(|_| Zst::new())), refs!(Vector<Zst, N>, N)),
        }
    }
    fn m<const M: usize, const N: usize>() {
        match pick(2) {
            0 => of("Matrix<()>", M * N, || Matrix::<(), M, N>::default(), refs!(Matrix<(), M, N>, M * N)),
            _ => of("Matrix<Zst>", M * N, || Matrix::<Zst, M, N>::from(core::array::from_fn::<[Zst; N], M, _>(|_| core::array::from_fn(|_| Zst::new()))),
                refs!(Matrix<Zst, M, N>, M * N)),
        }
    }
    match pick(8) {
        0 => v::<0>(),
        1 => v::<1>(),
        2 => v::<4>(),
        3 => v::<20>(),
        4 => m::<2, 3>(),
        5 => m::<5, 7>(),
        6 => m::<3, 0>(),
        _ => m::<2, 140>(),
    }
    if sim().ledger.zst_live != 0 && sim().viol.is_empty() {
        violation(C01 | S, "leaked:zst", format!("{} elements without a size alive after everything was dropped", sim().ledger.zst_live));
    }
}

pub fn machine() {
    uniq_reset();
    swarm();
    match pick(20) {
        14 | 15 => return sizeless(),
        16 => return match pick(7) {
            0 => vec_refs::<19>(),
            3 => vec_refs::<8>(),
            4 => mat_refs::<4, 4>(),
            5 => mat_refs::<3, 7>(),
            6 => vec_refs::<35>(),
            1 => mat_refs::<4, 9>(),
            _ => mat_refs::<9, 2>(),
        },
        0..=3 => owned_history(),
        4 => mat_refs::<2, 3>(),
        5 => vec_refs::<4>(),
        6 => mat_refs::<3, 2>(),
        7 => mat_refs::<1, 1>(),
        8 => match pick(4) {
            0 => mat_refs::<0, 2>(),
            1 => mat_refs::<2, 0>(),
            2 => vec_refs::<0>(),
            _ => mat_refs::<0, 0>(),
        },
        9 => mat_refs::<1, 5>(),
        _ => flat(),
    }
    if live() != sim().lost && sim().viol.is_empty() {
        violation(C01 | S, "leaked:end", format!("{} elements alive after everything was dropped", live()));
    }
}
