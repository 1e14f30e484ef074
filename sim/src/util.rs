//! Helpers shared by the machines.
#![allow(dead_code)]

use crate::elems::*;
use crate::sim::*;
use std::cell::Cell;
use vecmat::{Matrix, Vector};

thread_local!(static UNIQ: Cell<u64> = const { Cell::new(10) });
pub fn uniq() -> u64 {
    UNIQ.with(|c| {
        let v = c.get();
        c.set(v + 1);
        v
    })
}
pub fn uniq_reset() {
    UNIQ.with(|c| c.set(10))
}

pub fn call(v: u64) {
    sim().calls.push(v)
}
pub fn calls_clear() {
    sim().calls.clear()
}
/// After success the closure saw exactly `want`, after a crash a prefix of it.
pub fn check_calls<R>(props: u32, name: &str, r: &Result<R, Stop>, want: &[u64]) {
    let got = sim().calls.clone();
    let ok = match r {
        Ok(_) => got == want,
        Err(_) => got.len() <= want.len() && got[..] == want[..got.len()],
    };
    if !ok {
        violation(props, format!("call-order:{}", name),
            format!("{}: closure saw {:?}, expected {}{:?}", name, got, if r.is_ok() { "" } else { "a prefix of " }, want));
    }
}
pub fn same(props: u32, name: &str, got: &[u64], want: &[u64]) -> bool {
    if got != want {
        violation(props, format!("value:{}", name), format!("{}: got {:?}, expected {:?}", name, got, want));
        false
    } else {
        true
    }
}

pub fn vread<const N: usize>(v: &Vector<Tok, N>) -> Vec<u64> {
    (0..N).map(|i| v[i].get()).collect()
}
pub fn mread<const M: usize, const N: usize>(m: &Matrix<Tok, M, N>) -> Vec<u64> {
    let mut r = vec![];
    for i in 0..M {
        for j in 0..N {
            r.push(m[(i, j)].get());
        }
    }
    r
}
pub fn arr<const N: usize>(vals: &[u64]) -> [Tok; N] {
    core::array::from_fn(|i| Tok::new(vals[i]))
}
pub fn arr2<const M: usize, const N: usize>(vals: &[u64]) -> [[Tok; N]; M] {
    core::array::from_fn(|i| arr(&vals[i * N..(i + 1) * N]))
}
pub fn fresh(n: usize) -> Vec<u64> {
    (0..n).map(|_| uniq()).collect()
}
pub fn zipm(a: &[u64], b: &[u64], f: impl Fn(u64, u64) -> Option<u64>) -> Option<Vec<u64>> {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}
/// Is a surplus of live elements after the last operation the doing of the compiler? (see `exec_armed`)
pub fn compiler_leak(live: i64, want: i64) -> bool {
    compiler_leak_of(live, want, i64::MAX)
}
/// The same for an operation whose result owns at most `result` elements.
pub fn compiler_leak_of(live: i64, want: i64, result: i64) -> bool {
    if live > want && live - want <= result && sim().lossy {
        extra(X::CompilerLeak);
        sim().lost += live - want;
        return true;
    }
    false
}
pub fn b2u(b: bool) -> u64 {
    b as u64
}

// ---------------------------------------------------------------- reference arithmetic on tuples

pub fn cmul(a: [u64; 2], b: [u64; 2]) -> [u64; 2] {
    [subm(mulm(a[0], b[0]), mulm(a[1], b[1])), addm(mulm(a[0], b[1]), mulm(a[1], b[0]))]
}
/// Product of quaternions from the multiplication table of the units.
pub fn qmul(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
    // TABLE[i][j] = (sign, k) with e_i e_j = sign e_k
    const T: [[(bool, usize); 4]; 4] = [
        [(false, 0), (false, 1), (false, 2), (false, 3)],
        [(false, 1), (true, 0), (false, 3), (true, 2)],
        [(false, 2), (true, 3), (true, 0), (false, 1)],
        [(false, 3), (false, 2), (true, 1), (true, 0)],
    ];
    let mut r = [0; 4];
    for i in 0..4 {
        for j in 0..4 {
            let (neg, k) = T[i][j];
            let p = mulm(a[i], b[j]);
            r[k] = if neg { subm(r[k], p) } else { addm(r[k], p) };
        }
    }
    r
}
pub fn cinv(a: [u64; 2]) -> Option<[u64; 2]> {
    let i = invm(addm(mulm(a[0], a[0]), mulm(a[1], a[1])))?;
    Some([mulm(a[0], i), mulm(negm(a[1]), i)])
}
pub fn qinv(a: [u64; 4]) -> Option<[u64; 4]> {
    let i = invm(a.iter().fold(0, |s, x| addm(s, mulm(*x, *x))))?;
    Some([mulm(a[0], i), mulm(negm(a[1]), i), mulm(negm(a[2]), i), mulm(negm(a[3]), i)])
}
