//! Building containers from scripted streams (C03): sources that end early, resume, never end, panic or lie
//! about their size, consumed by a history of builders that share the source.

use crate::elems::*;
use crate::sim::*;
use crate::util::*;
use std::collections::VecDeque;
use vecmat::vector::GroupIter;
use vecmat::{Complex, Matrix, Quaternion, Vector};

const S: u32 = C03;

/// A source that follows a script. `None` in the queue is an end; what follows comes after a resume.
struct Src<T> {
    queue: VecDeque<Option<T>>,
    /// Makes further items after the script (an endless source).
    endless: Option<fn() -> T>,
    hint: (usize, Option<usize>),
    calls: usize,
    ends: usize,
    yielded: usize,
    tag: u64,
}
impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.calls += 1;
        seam(Seam::Pull, self.tag + self.calls as u64);
        let r = match self.queue.pop_front() {
            Some(x) => x,
            None => self.endless.map(|f| f()),
        };
        match &r {
            Some(_) => self.yielded += 1,
            None => {
                if self.ends > 0 || !self.queue.is_empty() {
                    extra(X::SrcResume);
                }
                self.ends += 1
            }
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
fn hint() -> (usize, Option<usize>) {
    match draw(6) {
        0 => (0, None),
        h => {
            extra(X::SrcHint);
            [(0, Some(0)), (usize::MAX, None), (usize::MAX, Some(usize::MAX)), (7, Some(2)), (1, Some(1))][h as usize - 1]
        }
    }
}
/// Script over values; `None` = end. Ends are placed at drawn positions.
fn script(n: usize) -> Vec<Option<u64>> {
    let mut r: Vec<Option<u64>> = vec![];
    let style = draw(4);
    for _ in 0..n {
        if style > 0 && chance(1, [8, 4, 2][style as usize - 1]) {
            r.push(None);
        }
        r.push(Some(uniq()));
    }
    r
}
fn src(values: &[Option<u64>]) -> Src<Tok> {
    Src {
        queue: values.iter().map(|v| v.map(Tok::new)).collect(),
        endless: None,
        hint: hint(),
        calls: 0,
        ends: 0,
        yielded: 0,
        tag: 0x5000,
    }
}
fn endless_tok() -> Tok {
    extra(X::SrcInf);
    Tok::new(uniq())
}

/// What a build of `need` items from `script` must do: (values on success, polls).
fn model(script: &[Option<u64>], need: usize) -> (Option<Vec<u64>>, usize) {
    let mut vals = vec![];
    for k in 0..need {
        match script.get(k) {
            Some(Some(v)) => vals.push(*v),
            _ => return (None, k + 1),
        }
    }
    (Some(vals), need)
}

struct H {
    /// What is left of the script, in step with the source.
    left: Vec<Option<u64>>,
    endless: bool,
    src: Option<Src<Tok>>,
    vals: i64,
    kept: Vec<Vec<Tok>>,
    /// Elements that the last operation had to return.
    result: i64,
}
impl H {
    fn kept_count(&self) -> i64 {
        self.kept.iter().map(|k| k.len() as i64).sum()
    }
    fn balance(&mut self, name: &str) {
        let waiting = self.src.as_ref().map_or(0, |s| s.queue.iter().filter(|x| x.is_some()).count()) as i64;
        let want = waiting + self.kept_count() + self.vals;
        if compiler_leak_of(live(), want, self.result) {
            self.vals += live() - want;
        } else if live() != want {
            violation(C01 | S, format!("{}:{}", if live() > want { "leaked" } else { "lost" }, name),
                format!("after {}: {} elements alive, {} reachable (source {}, built {})", name, live(), want, waiting, self.kept_count()));
            self.vals += live() - want;
        }
        // nothing behind the pulled part of the source was touched
        let s = self.src.as_ref().map(|s| s.queue.iter().map(|x| x.as_ref().map(Tok::get)).collect::<Vec<_>>());
        if let Some(s) = s {
            let from = self.left.len().saturating_sub(s.len());
            if s[..] != self.left[from..] {
                violation(S, format!("leftover:{}", name), format!("after {}: the source holds {:?}, expected {:?}", name, s, &self.left[from..]));
            }
            self.left.drain(..from);
        }
        for k in &self.kept {
            for t in k {
                t.get();
            }
        }
    }
    /// Judge one build from the shared source.
    fn built(&mut self, name: &str, need: usize, polls: usize, r: Result<Option<Vec<Tok>>, Stop>) -> bool {
        let mut script = self.left.clone();
        if self.endless {
            // endless values are not known in advance; only their number matters below
            while script.len() < need {
                script.push(Some(u64::MAX));
            }
        }
        let (want, want_polls) = model(&script, need);
        self.result = want.as_ref().map_or(0, |w| w.len() as i64);
        let ok = match r {
            Ok(got) => {
                let g: Option<Vec<u64>> = got.as_ref().map(|k| k.iter().map(Tok::get).collect());
                let eq = match (&g, &want) {
                    (Some(g), Some(w)) => g.len() == w.len() && g.iter().zip(w).all(|(g, w)| *w == u64::MAX || g == w),
                    (None, None) => true,
                    _ => false,
                };
                if !eq {
                    violation(S, format!("value:{}", name), format!("{} from source {:?}: built {:?}, expected {:?}", name, self.left, g, want));
                }
                if polls != want_polls {
                    violation(S, format!("polls:{}", name),
                        format!("{} from source {:?} needing {} items polled the source {} times instead of {}", name, self.left, need, polls, want_polls));
                }
                if want.is_none() {
                    extra(X::SrcShort);
                }
                let some = got.is_some();
                if let Some(k) = got {
                    trace(|| format!("  = {:?}", k.iter().map(Tok::get).collect::<Vec<_>>()));
                    self.kept.push(k)
                } else {
                    trace(|| "  = None".into());
                }
                some
            }
            Err(_) => {
                if polls > want_polls {
                    violation(S, format!("polls:{}", name), format!("{} (interrupted) polled the source {} times, at most {} are allowed", name, polls, want_polls));
                }
                false
            }
        };
        // an element that came out of the endless tail is not in `left`
        ok
    }
}

fn vec_of<const N: usize>(v: Vector<Tok, N>) -> Vec<Tok> {
    v.into_iter().collect()
}
fn mat_of<const M: usize, const N: usize>(m: Matrix<Tok, M, N>) -> Vec<Tok> {
    m.into_array_of_arrays().into_iter().flatten().collect()
}

fn build_vec<const N: usize>(h: &mut H) {
    let name = "Vector::try_from_iter";
    let s = h.src.as_mut().unwrap();
    let before = s.calls;
    let r = exec(name, S, ALL_SEAMS, || Vector::<Tok, N>::try_from_iter(&mut *s));
    let polls = s.calls - before;
    h.built(name, N, polls, r.map(|o| o.map(vec_of)));
}
fn build_vec_owned<const N: usize>(h: &mut H) {
    let name = "Vector::try_from_iter (whole source)";
    let s = h.src.take().unwrap();
    let mut polls = 0;
    let p = &mut polls;
    // count the polls although the source is moved away
    let mut s = s;
    let r = exec(name, S, ALL_SEAMS, move || {
        Vector::<Tok, N>::try_from_iter(std::iter::from_fn(move || {
            *p += 1;
            s.next()
        }))
    });
    h.built(name, N, polls, r.map(|o| o.map(vec_of)));
    h.left.clear();
}
fn build_mat<const M: usize, const N: usize>(h: &mut H) {
    let name = "Matrix::try_from_iter";
    let s = h.src.as_mut().unwrap();
    let before = s.calls;
    let r = exec(name, S, ALL_SEAMS, || Matrix::<Tok, M, N>::try_from_iter(&mut *s));
    let polls = s.calls - before;
    h.built(name, M * N, polls, r.map(|o| o.map(mat_of)));
}
/// Rows come from the shared source, `N` items each; a short row ends the sequence of rows.
fn build_mat_rows<const M: usize, const N: usize>(h: &mut H) {
    let name = "Matrix::try_from_iter_of_vectors";
    let s = h.src.as_mut().unwrap();
    let mut outer = 0;
    let mut ended = false;
    let mut after_end = false;
    let o = &mut outer;
    let e = &mut ended;
    let ae = &mut after_end;
    let before = s.calls;
    let r = exec(name, S, ALL_SEAMS, || {
        Matrix::<Tok, M, N>::try_from_iter_of_vectors(std::iter::from_fn(|| {
            *o += 1;
            *ae |= *e;
            let mut row = Vec::with_capacity(N);
            for _ in 0..N {
                match s.next() {
                    Some(x) => row.push(x),
                    None => {
                        *e = true;
                        return None;
                    }
                }
            }
            let a: [Tok; N] = row.try_into().unwrap();
            Some(Vector::from(a))
        }))
    });
    let polls = s.calls - before;
    if after_end {
        violation(S, format!("polls:{}", name), format!("{} polled the source of rows again after its end", name));
    }
    if r.is_ok() && !ended && outer != M {
        violation(S, format!("polls:{}", name), format!("{} pulled {} rows for {}", name, outer, M));
    }
    h.built(name, M * N, polls, r.map(|o| o.map(mat_of)));
}
fn group<const N: usize>(h: &mut H) {
    let name = "GroupIter::next";
    let mut s = h.src.take().unwrap();
    let base = s.calls;
    let mut g = GroupIter::<_, N>::new(&mut s);
    let n = 1 + pick(4);
    // the source is borrowed by the grouping iterator: watch it through its own counters afterwards
    let mut outcomes = vec![];
    for _ in 0..n {
        let r = exec(name, S, ALL_SEAMS, || g.next());
        let stop = !matches!(&r, Ok(Some(_)));
        outcomes.push(r.map(|o| o.map(vec_of)));
        if stop {
            break;
        }
    }
    drop(g);
    // replay the outcomes against the model
    h.src = Some(s);
    let mut script = h.left.clone();
    let mut want_polls = 0;
    let mut crashed = false;
    for r in outcomes {
        let mut sc = script.clone();
        if h.endless {
            while sc.len() < N {
                sc.push(Some(u64::MAX));
            }
        }
        let (want, p) = model(&sc, N);
        match r {
            Ok(got) => {
                let g: Option<Vec<u64>> = got.as_ref().map(|k| k.iter().map(Tok::get).collect());
                let eq = match (&g, &want) {
                    (Some(g), Some(w)) => g.len() == w.len() && g.iter().zip(w).all(|(g, w)| *w == u64::MAX || g == w),
                    (None, None) => true,
                    _ => false,
                };
                if !eq {
                    violation(S, format!("value:{}", name), format!("grouping {:?} by {}: got {:?}, expected {:?}", script, N, g, want));
                }
                want_polls += p;
                script.drain(..p.min(script.len()));
                if let Some(k) = got {
                    h.kept.push(k)
                }
            }
            Err(_) => {
                crashed = true;
                h.result = want.map_or(0, |w| w.len() as i64);
                want_polls += p;
            }
        }
    }
    let polls = h.src.as_ref().unwrap().calls - base;
    if polls > want_polls || (!crashed && polls != want_polls) {
        violation(S, format!("polls:{}", name), format!("grouping {:?} by {} polled the source {} times instead of {}", h.left, N, polls, want_polls));
    }
}
fn step(h: &mut H) -> &'static str {
    if h.src.is_none() {
        return "nothing";
    }
    match pick(28) {
        0 => build_vec::<3>(h),
        1 => build_vec::<1>(h),
        2 => build_vec::<2>(h),
        3 => build_vec::<5>(h),
        4 => build_vec::<0>(h),
        5 => build_mat::<2, 2>(h),
        6 => build_mat::<2, 3>(h),
        7 => build_mat::<3, 1>(h),
        8 => build_mat::<1, 3>(h),
        9 => build_mat::<0, 3>(h),
        10 => build_mat::<3, 0>(h),
        11 => build_mat_rows::<2, 2>(h),
        12 => build_mat_rows::<3, 2>(h),
        13 => build_mat_rows::<1, 3>(h),
        14 => build_mat_rows::<0, 2>(h),
        15 => build_mat_rows::<2, 0>(h),
        16 => group::<2>(h),
        17 => group::<3>(h),
        18 => group::<1>(h),
        22 => match pick(4) {
            0 => build_vec::<6>(h),
            1 => build_vec::<7>(h),
            2 => build_vec::<300>(h),
            _ => build_vec::<8>(h),
        },
        23 => build_vec::<17>(h),
        24 => match pick(4) {
            0 => build_mat::<8, 2>(h),
            1 => build_mat::<3, 5>(h),
            2 => build_mat::<5, 4>(h),
            _ => build_mat::<4, 8>(h),
        },
        25 => build_mat::<6, 6>(h),
        26 => build_mat_rows::<9, 2>(h),
        27 => match pick(3) {
            0 => group::<4>(h),
            1 => group::<7>(h),
            _ => group::<9>(h),
        },
        19 => {
            build_vec_owned::<3>(h);
            return "Vector::try_from_iter (whole source)";
        }
        20 => {
            build_vec_owned::<2>(h);
            return "Vector::try_from_iter (whole source)";
        }
        _ => {
            if !h.kept.is_empty() {
                let i = pick(h.kept.len());
                let k = h.kept.swap_remove(i);
                drop(k);
            }
            return "drop";
        }
    }
    "a build"
}

// ---------------------------------------------------------------- totals

fn fsrc<T>(items: Vec<Option<T>>) -> Src<T> {
    Src { queue: items.into_iter().collect(), endless: None, hint: hint(), calls: 0, ends: 0, yielded: 0, tag: 0x6000 }
}
fn total<T>(name: &str, script: Vec<Option<Vec<u64>>>, make: fn(&[u64]) -> T, run: fn(&mut Src<T>) -> Vec<u64>, zero: Vec<u64>, add: fn(&[u64], &[u64]) -> Vec<u64>) {
    let mut s = fsrc(script.iter().map(|x| x.as_ref().map(|v| make(v))).collect());
    let r = exec(name, S, ALL_SEAMS, || run(&mut s));
    let mut want = zero;
    let mut polls = 1;
    for x in &script {
        match x {
            Some(v) => want = add(&want, v),
            None => break,
        }
        polls += 1;
    }
    match r {
        Ok(got) => {
            same(S, name, &got, &want);
            if s.calls != polls {
                violation(S, format!("polls:{}", name), format!("{} over {:?} polled {} times instead of {}", name, script, s.calls, polls));
            }
        }
        Err(_) => {
            if s.calls > polls {
                violation(S, format!("polls:{}", name), format!("{} over {:?} (interrupted) polled {} times, at most {} allowed", name, script, s.calls, polls));
            }
        }
    }
}
fn adds(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(a, b)| addm(*a, *b)).collect()
}
fn muls(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(a, b)| mulm(*a, *b)).collect()
}
fn cmuls(a: &[u64], b: &[u64]) -> Vec<u64> {
    cmul([a[0], a[1]], [b[0], b[1]]).to_vec()
}
fn qmuls(a: &[u64], b: &[u64]) -> Vec<u64> {
    qmul([a[0], a[1], a[2], a[3]], [b[0], b[1], b[2], b[3]]).to_vec()
}
fn mv<const N: usize>(v: &[u64]) -> Vector<Fp, N> {
    core::array::from_fn::<Fp, N, _>(|i| Fp(v[i])).into()
}
fn mm<const M: usize, const N: usize>(v: &[u64]) -> Matrix<Fp, M, N> {
    core::array::from_fn::<[Fp; N], M, _>(|i| core::array::from_fn(|j| Fp(v[i * N + j]))).into()
}
fn mc(v: &[u64]) -> Complex<Fp> {
    Complex::new(Fp(v[0]), Fp(v[1]))
}
fn mq(v: &[u64]) -> Quaternion<Fp> {
    Quaternion::new(Fp(v[0]), Fp(v[1]), Fp(v[2]), Fp(v[3]))
}
fn mvq(v: &[u64]) -> Vector<Quaternion<Fp>, 2> {
    [mq(&v[..4]), mq(&v[4..])].into()
}
fn mmq(v: &[u64]) -> Matrix<Quaternion<Fp>, 2, 1> {
    [[mq(&v[..4])], [mq(&v[4..])]].into()
}
fn vqmuls(a: &[u64], b: &[u64]) -> Vec<u64> {
    [qmuls(&a[..4], &b[..4]), qmuls(&a[4..], &b[4..])].concat()
}
fn totals() {
    let n = if chance(1, 4) { pick(40) } else { pick(6) };
    let mut script = vec![];
    for _ in 0..n {
        if chance(1, 6) {
            script.push(None);
        }
        script.push(Some((0..9).map(|_| arg()).collect::<Vec<u64>>()));
    }
    if chance(1, 3) {
        script.push(None);
        script.push(Some(vec![1, 2, 3, 4, 5, 6, 7, 8, 9]));
    }
    let cut = |k: usize| script.iter().map(|x| x.as_ref().map(|v| v[..k].to_vec())).collect::<Vec<_>>();
    match pick(12) {
        8 => total("sum of vectors", cut(9), mv, |s| (*s.sum::<Vector<Fp, 9>>().as_array()).map(|x| x.0).to_vec(), vec![0; 9], adds),
        9 => total("sum of matrices", cut(9), mm, |s| s.sum::<Matrix<Fp, 3, 3>>().into_array_of_arrays().iter().flatten().map(|x| x.0).collect(), vec![0; 9], adds),
        0 => total("sum of vectors", cut(3), mv, |s| (*s.sum::<Vector<Fp, 3>>().as_array()).map(|x| x.0).to_vec(), vec![0; 3], adds),
        1 => total("product of vectors", cut(3), mv, |s| (*s.product::<Vector<Fp, 3>>().as_array()).map(|x| x.0).to_vec(), vec![1; 3], muls),
        2 => total("sum of matrices", cut(4), mm, |s| s.sum::<Matrix<Fp, 2, 2>>().into_array_of_arrays().iter().flatten().map(|x| x.0).collect(), vec![0; 4], adds),
        3 => total("product of matrices", cut(4), mm, |s| s.product::<Matrix<Fp, 2, 2>>().into_array_of_arrays().iter().flatten().map(|x| x.0).collect(), vec![1; 4], muls),
        4 => total("sum of complex numbers", cut(2), mc, |s| s.sum::<Complex<Fp>>().into_array().map(|x| x.0).to_vec(), vec![0; 2], adds),
        5 => total("product of complex numbers", cut(2), mc, |s| s.product::<Complex<Fp>>().into_array().map(|x| x.0).to_vec(), vec![1, 0], cmuls),
        6 => total("sum of quaternions", cut(4), mq, |s| s.sum::<Quaternion<Fp>>().into_array().map(|x| x.0).to_vec(), vec![0; 4], adds),
        7 => total("product of vectors of quaternions", cut(8), mvq, |s| s.product::<Vector<Quaternion<Fp>, 2>>().as_array().iter().flat_map(|q| q.into_array().map(|x| x.0)).collect(), vec![1, 0, 0, 0, 1, 0, 0, 0], vqmuls),
        10 => total("product of matrices of quaternions", cut(8), mmq, |s| s.product::<Matrix<Quaternion<Fp>, 2, 1>>().as_array_of_arrays().iter().flatten().flat_map(|q| q.into_array().map(|x| x.0)).collect(), vec![1, 0, 0, 0, 1, 0, 0, 0], vqmuls),
        _ => total("product of quaternions", cut(4), mq, |s| s.product::<Quaternion<Fp>>().into_array().map(|x| x.0).to_vec(), vec![1, 0, 0, 0], qmuls),
    }
}

fn slices_of<const M: usize, const N: usize>() {
    let name = "TryFrom slice";
    let all: Vec<Fp> = fresh(M * N + 24).into_iter().map(Fp).collect();
    let check = |what: &str, len: usize, need: usize, got: Option<Vec<u64>>| {
        let want = if len == need { Some(all[..need].iter().map(|x| x.0).collect::<Vec<_>>()) } else { None };
        if got != want {
            violation(S, format!("value:{}", name), format!("{} of length {} into {} elements: got {:?}, expected {:?}", what, len, need, got, want));
        }
    };
    let len = |need: usize| match pick(4) {
        0 => need,
        1 => need + 1,
        2 => need.saturating_sub(1),
        _ => pick(20),
    };
    trace(|| format!("slices into {}x{}", M, N));
    let n = len(N);
    let r = exec(name, S, ALL_SEAMS, || Vector::<Fp, N>::try_from(&all[..n]));
    if let Ok(r) = r {
        check("slice into vector", n, N, r.ok().map(|v| v.into_array().map(|x| x.0).to_vec()));
    }
    let n = len(M * N);
    let r = exec(name, S, ALL_SEAMS, || Matrix::<Fp, M, N>::try_from(&all[..n]));
    if let Ok(r) = r {
        check("slice into matrix", n, M * N, r.ok().map(|v| v.into_array_of_arrays().iter().flatten().map(|x| x.0).collect()));
    }
    let rows: Vec<Vector<Fp, N>> = (0..M + 8).map(|i| Vector::from(core::array::from_fn::<Fp, N, _>(|j| Fp(1000 + (i * N + j) as u64)))).collect();
    let n = len(M).min(M + 8);
    let r = exec(name, S, ALL_SEAMS, || Matrix::<Fp, M, N>::try_from(&rows[..n]));
    if let Ok(r) = r {
        let got: Option<Vec<u64>> = r.ok().map(|v| v.into_array_of_arrays().iter().flatten().map(|x| x.0).collect());
        let want = if n == M { Some((0..M * N).map(|x| 1000 + x as u64).collect::<Vec<_>>()) } else { None };
        if got != want {
            violation(S, format!("value:{}", name), format!("{} rows into {}x{}: got {:?}, expected {:?}", n, M, N, got, want));
        }
    }
}

pub fn machine() {
    uniq_reset();
    swarm();
    if chance(1, 5) {
        totals();
        if live() != 0 && !compiler_leak(live(), 0) {
            violation(C01, "leaked:totals", format!("{} elements alive after a total", live()));
        }
        return;
    }
    if chance(1, 12) {
        match pick(8) {
            0 => slices_of::<2, 3>(),
            1 => slices_of::<1, 1>(),
            2 => slices_of::<3, 3>(),
            3 => slices_of::<0, 2>(),
            4 => slices_of::<2, 0>(),
            5 => match pick(6) {
                2 => slices_of::<6, 5>(),
                3 => slices_of::<1, 6>(),
                4 => slices_of::<5, 7>(),
                0 => slices_of::<2, 8>(),
                1 => slices_of::<7, 4>(),
                _ => slices_of::<3, 9>(),
            },
            6 => slices_of::<17, 2>(),
            _ => slices_of::<4, 2>(),
        }
        return;
    }
    let n = if chance(1, 4) { pick(90) } else { pick(14) };
    let left = script(n);
    let endless = chance(1, 6);
    let mut s = src(&left);
    if endless {
        s.endless = Some(endless_tok);
    }
    trace(|| format!("source {:?}{}, size hint {:?}", left, if endless { " then endless" } else { "" }, s.hint));
    let mut h = H { left, endless, src: Some(s), vals: 0, kept: vec![], result: 0 };
    let steps = 1 + pick(7);
    for _ in 0..steps {
        let name = step(&mut h);
        h.balance(name);
        if !sim().viol.is_empty() {
            break;
        }
    }
    h.kept.clear();
    h.src = None;
    if live() - h.vals != 0 {
        violation(C01 | S, "leaked:end", format!("{} elements alive after everything was dropped", live() - h.vals));
    }
}
