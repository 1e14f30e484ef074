//! Compound assignment interrupted at any scalar operation (C05): histories of assignments to a few targets,
//! each judged component by component against old, new and torn values.

use crate::elems::*;
use crate::sim::*;
use crate::util::*;
use std::ops::*;
use vecmat::{Complex, Matrix, Quaternion, Vector};

const S: u32 = C05;

type Bin = fn(u64, u64) -> Option<u64>;
pub const BIN: [(&str, Bin); 8] = [
    ("+=", |a, b| Some(addm(a, b))),
    ("-=", |a, b| Some(subm(a, b))),
    ("*=", |a, b| Some(mulm(a, b))),
    ("/=", divm),
    ("%=", |a, b| if b == 0 { None } else { Some(a % b) }),
    ("&=", |a, b| Some(andm(a, b))),
    ("|=", |a, b| Some(orm(a, b))),
    ("^=", |a, b| Some(xorm(a, b))),
];

/// Judge a finished or interrupted assignment; `new[i] = None` where the scalar operation is undefined.
/// Returns the values the target holds now.
fn judge(name: &str, r: &Result<(), Stop>, old: &[u64], new: &[Option<u64>], got: &[u64]) -> Vec<u64> {
    let torn_ok = r.is_err();
    let mut torn = 0;
    for i in 0..old.len() {
        let ok = match r {
            Ok(_) => new[i].map_or(true, |n| got[i] == n),
            Err(_) => got[i] == old[i] || Some(got[i]) == new[i] || (torn_ok && got[i] == TORN && { torn += 1; true }),
        };
        if !ok {
            violation(S, format!("component:{}", name),
                format!("{}: component {} holds {} (old {}, new {:?}) after {}; all: {:?}, old {:?}", name, i, got[i], old[i], new[i],
                    if r.is_ok() { "completion" } else { "an interruption" }, got, old));
            break;
        }
    }
    if torn > 1 {
        violation(S, format!("component:{}", name), format!("{}: {} components are torn by one interrupted operator", name, torn));
    }
    trace(|| format!("  = {:?}", got));
    got.to_vec()
}
/// Keep torn values out of the following operations.
fn val() -> u64 {
    arg()
}
fn vals(n: usize) -> Vec<u64> {
    (0..n).map(|_| val()).collect()
}
fn balance(name: &str, want: i64) {
    if live() != want {
        violation(C01 | S, format!("{}:{}", if live() > want { "leaked" } else { "lost" }, name),
            format!("after {} {} elements are alive, {} are reachable", name, live(), want));
    }
}

macro_rules! by_op {
    ($k:expr, $t:expr, $r:expr) => {
        match $k {
            0 => $t += $r,
            1 => $t -= $r,
            2 => $t *= $r,
            3 => $t /= $r,
            4 => $t %= $r,
            5 => $t &= $r,
            6 => $t |= $r,
            _ => $t ^= $r,
        }
    };
}

fn vec_tok<const N: usize>() {
    let mut m = vals(N);
    let mut t = Vector::<Tok, N>::from(arr(&m));
    trace(|| format!("target Vector<Tok> {:?}", m));
    for _ in 0..1 + pick(6) {
        let k = pick(8);
        let rm = vals(N);
        let rhs = Vector::<Tok, N>::from(arr(&rm));
        let name = format!("Vector {}", BIN[k].0);
        trace(|| format!("rhs {:?}", rm));
        let r = exec(&name, S, ALL_SEAMS, || by_op!(k, t, rhs));
        let new: Vec<_> = m.iter().zip(&rm).map(|(a, b)| BIN[k].1(*a, *b)).collect();
        m = judge(&name, &r, &m, &new, &vread(&t));
        balance(&name, N as i64);
        if r.is_err() && chance(1, 2) {
            extra(X::Retry);
            m = vals(N);
            for i in 0..N {
                t[i] = Tok::new(m[i]);
            }
        }
        if !sim().viol.is_empty() {
            break;
        }
    }
    drop(t);
    balance("drop", 0);
}
fn mat_tok<const M: usize, const N: usize>() {
    let mut m = vals(M * N);
    let mut t = Matrix::<Tok, M, N>::from(arr2(&m));
    trace(|| format!("target Matrix<Tok> {:?}", m));
    for _ in 0..1 + pick(6) {
        let k = pick(8);
        let rm = vals(M * N);
        let rhs = Matrix::<Tok, M, N>::from(arr2(&rm));
        let name = format!("Matrix {}", BIN[k].0);
        trace(|| format!("rhs {:?}", rm));
        let r = exec(&name, S, ALL_SEAMS, || by_op!(k, t, rhs));
        let new: Vec<_> = m.iter().zip(&rm).map(|(a, b)| BIN[k].1(*a, *b)).collect();
        m = judge(&name, &r, &m, &new, &mread(&t));
        balance(&name, (M * N) as i64);
        if !sim().viol.is_empty() {
            break;
        }
    }
    drop(t);
    balance("drop", 0);
}
fn scalar<const M: usize, const N: usize>() {
    let mut m = vals(M * N);
    let mut t = Matrix::<Fp, M, N>::from(core::array::from_fn::<[Fp; N], M, _>(|i| core::array::from_fn(|j| Fp(m[i * N + j]))));
    let mut vm = vals(N);
    let mut v = Vector::<Fp, N>::from(core::array::from_fn::<Fp, N, _>(|i| Fp(vm[i])));
    trace(|| format!("targets Matrix<Fp> {:?}, Vector<Fp> {:?}", m, vm));
    for _ in 0..1 + pick(6) {
        let k = 2 + pick(3);
        let x = val();
        if chance(1, 2) {
            let name = format!("Matrix {} scalar", BIN[k].0);
            let r = exec(&name, S, ALL_SEAMS, || match k {
                2 => t *= Fp(x),
                3 => t /= Fp(x),
                _ => t %= Fp(x),
            });
            let new: Vec<_> = m.iter().map(|a| BIN[k].1(*a, x)).collect();
            let got: Vec<u64> = t.into_array_of_arrays().iter().flatten().map(|x| x.0).collect();
            m = judge(&name, &r, &m, &new, &got);
        } else {
            let name = format!("Vector {} scalar", BIN[k].0);
            let r = exec(&name, S, ALL_SEAMS, || match k {
                2 => v *= Fp(x),
                3 => v /= Fp(x),
                _ => v %= Fp(x),
            });
            let new: Vec<_> = vm.iter().map(|a| BIN[k].1(*a, x)).collect();
            let got: Vec<u64> = v.into_array().iter().map(|x| x.0).collect();
            vm = judge(&name, &r, &vm, &new, &got);
        }
        if !sim().viol.is_empty() {
            break;
        }
    }
}
/// Containers of Copy scalars with container right-hand sides (the right-hand side must stay intact too).
fn copy_rhs<const M: usize, const N: usize>() {
    let mk = |m: &[u64]| Matrix::<Fp, M, N>::from(core::array::from_fn::<[Fp; N], M, _>(|i| core::array::from_fn(|j| Fp(m[i * N + j]))));
    let rd = |t: &Matrix<Fp, M, N>| -> Vec<u64> { t.into_array_of_arrays().iter().flatten().map(|x| x.0).collect() };
    let mut m = vals(M * N);
    let mut t = mk(&m);
    for _ in 0..1 + pick(5) {
        let k = pick(8);
        // aliasing: sometimes the target itself is the right-hand side
        let own = chance(1, 4);
        let rm = if own { m.clone() } else { vals(M * N) };
        let rhs = if own { t } else { mk(&rm) };
        let name = format!("Matrix<Copy> {}", BIN[k].0);
        trace(|| format!("target {:?} rhs {:?}", m, rm));
        let r = exec(&name, S, ALL_SEAMS, || by_op!(k, t, rhs));
        let new: Vec<_> = m.iter().zip(&rm).map(|(a, b)| BIN[k].1(*a, *b)).collect();
        m = judge(&name, &r, &m, &new, &rd(&t));
        if rd(&rhs) != rm {
            violation(S, format!("rhs:{}", name), format!("{} changed its right-hand side", name));
        }
        if !sim().viol.is_empty() {
            break;
        }
    }
}

fn some<const N: usize>(a: [u64; N]) -> Vec<Option<u64>> {
    a.iter().map(|x| Some(*x)).collect()
}
fn cx(a: [u64; 2]) -> Complex<Fp> {
    Complex::new(Fp(a[0]), Fp(a[1]))
}
fn qx(a: [u64; 4]) -> Quaternion<Fp> {
    Quaternion::new(Fp(a[0]), Fp(a[1]), Fp(a[2]), Fp(a[3]))
}

fn complex() {
    let mut m = [val(), val()];
    let mut t = cx(m);
    for _ in 0..1 + pick(7) {
        let k = pick(4);
        let c = [val(), val()];
        let sc = chance(1, 2);
        let b = if sc { [c[0], 0] } else { c };
        let name = format!("Complex {} {}", BIN[k].0, if sc { "scalar" } else { "complex" });
        trace(|| format!("target {:?} rhs {:?}", m, b));
        let r = exec(&name, S, ALL_SEAMS, || match (k, sc) {
            (0, true) => t += Fp(c[0]),
            (1, true) => t -= Fp(c[0]),
            (2, true) => t *= Fp(c[0]),
            (_, true) => t /= Fp(c[0]),
            (0, _) => t += cx(c),
            (1, _) => t -= cx(c),
            (2, _) => t *= cx(c),
            (_, _) => t /= cx(c),
        });
        let new = match k {
            0 => some([addm(m[0], b[0]), addm(m[1], b[1])]),
            1 => some([subm(m[0], b[0]), subm(m[1], b[1])]),
            2 => some(cmul(m, b)),
            _ => match cinv(b) {
                Some(i) => some(cmul(m, i)),
                None => vec![None; 2],
            },
        };
        let got = t.into_array().map(|x| x.0);
        let g = judge(&name, &r, &m, &new, &got);
        m = [g[0], g[1]];
        if r.is_err() && m.contains(&TORN) {
            m = [val(), val()];
            t = cx(m);
            extra(X::Retry);
        }
        if !sim().viol.is_empty() {
            break;
        }
    }
}
fn quaternion() {
    let mut m = [val(), val(), val(), val()];
    let mut t = qx(m);
    for _ in 0..1 + pick(7) {
        let k = pick(4);
        let c = [val(), val(), val(), val()];
        let kind = pick(3);
        let b = match kind {
            0 => c,
            1 => [c[0], c[1], 0, 0],
            _ => [c[0], 0, 0, 0],
        };
        let name = format!("Quaternion {} {}", BIN[k].0, ["quaternion", "complex", "scalar"][kind]);
        trace(|| format!("target {:?} rhs {:?}", m, b));
        let z = cx([c[0], c[1]]);
        let r = exec(&name, S, ALL_SEAMS, || match (k, kind) {
            (0, 0) => t += qx(c),
            (1, 0) => t -= qx(c),
            (2, 0) => t *= qx(c),
            (_, 0) => t /= qx(c),
            (0, 1) => t += z,
            (1, 1) => t -= z,
            (2, 1) => t *= z,
            (_, 1) => t /= z,
            (0, _) => t += Fp(c[0]),
            (1, _) => t -= Fp(c[0]),
            (2, _) => t *= Fp(c[0]),
            (_, _) => t /= Fp(c[0]),
        });
        let new = match k {
            0 => some(core::array::from_fn::<_, 4, _>(|i| addm(m[i], b[i]))),
            1 => some(core::array::from_fn::<_, 4, _>(|i| subm(m[i], b[i]))),
            2 => some(qmul(m, b)),
            _ => match qinv(b) {
                Some(i) => some(qmul(m, i)),
                None => vec![None; 4],
            },
        };
        let got = t.into_array().map(|x| x.0);
        let g = judge(&name, &r, &m, &new, &got);
        m = [g[0], g[1], g[2], g[3]];
        if r.is_err() && m.contains(&TORN) {
            m = [val(), val(), val(), val()];
            t = qx(m);
            extra(X::Retry);
        }
        if !sim().viol.is_empty() {
            break;
        }
    }
}
/// += and -= need no Copy, so tracked elements work there.
fn complex_tok() {
    let mut m = vals(4);
    let mut t = Complex::new(Tok::new(m[0]), Tok::new(m[1]));
    let mut m2 = m.split_off(2);
    m2.extend(vals(2));
    let mut q = Quaternion::new(Tok::new(m2[0]), Tok::new(m2[1]), Tok::new(m2[2]), Tok::new(m2[3]));
    for _ in 0..1 + pick(6) {
        let k = pick(2);
        let c = vals(4);
        let on_q = chance(1, 2);
        let kind = pick(3);
        let (name, used) = match (on_q, kind) {
            (false, 0) => ("Complex<Tok> scalar", 1),
            (false, _) => ("Complex<Tok> complex", 2),
            (true, 0) => ("Quaternion<Tok> scalar", 1),
            (true, 1) => ("Quaternion<Tok> complex", 2),
            (true, _) => ("Quaternion<Tok> quaternion", 4),
        };
        let name = format!("{} {}", name, BIN[k].0);
        let n = |i: usize| Tok::new(c[i]);
        trace(|| format!("targets {:?} {:?}, rhs {:?}", m, m2, &c[..used]));
        let r = exec(&name, S, ALL_SEAMS, || match (on_q, kind, k) {
            (false, 0, 0) => t.add_assign(n(0)),
            (false, 0, _) => t.sub_assign(n(0)),
            (false, _, 0) => t.add_assign(Complex::new(n(0), n(1))),
            (false, _, _) => t.sub_assign(Complex::new(n(0), n(1))),
            (true, 0, 0) => q.add_assign(n(0)),
            (true, 0, _) => q.sub_assign(n(0)),
            (true, 1, 0) => q.add_assign(Complex::new(n(0), n(1))),
            (true, 1, _) => q.sub_assign(Complex::new(n(0), n(1))),
            (true, _, 0) => q.add_assign(Quaternion::new(n(0), n(1), n(2), n(3))),
            (true, _, _) => q.sub_assign(Quaternion::new(n(0), n(1), n(2), n(3))),
        });
        let target = if on_q { &mut m2 } else { &mut m };
        let new: Vec<_> = target.iter().enumerate().map(|(i, a)| if i < used { BIN[k].1(*a, c[i]) } else { Some(*a) }).collect();
        let got: Vec<u64> = if on_q {
            vec![q.w_ref().get(), q.x_ref().get(), q.y_ref().get(), q.z_ref().get()]
        } else {
            vec![t.re_ref().get(), t.im_ref().get()]
        };
        *target = judge(&name, &r, target, &new, &got);
        balance(&name, 6);
        if !sim().viol.is_empty() {
            break;
        }
    }
    drop(t);
    drop(q);
    balance("drop", 0);
}

pub fn machine() {
    uniq_reset();
    swarm();
    match pick(18) {
        0 => vec_tok::<3>(),
        1 => vec_tok::<2>(),
        2 => vec_tok::<4>(),
        3 => vec_tok::<1>(),
        4 => mat_tok::<2, 3>(),
        5 => mat_tok::<3, 2>(),
        6 => mat_tok::<1, 4>(),
        7 => mat_tok::<3, 3>(),
        8 => scalar::<2, 3>(),
        9 => scalar::<3, 2>(),
        10 => copy_rhs::<2, 2>(),
        11 => complex(),
        12 => quaternion(),
        13 => complex_tok(),
        14 => match pick(3) {
            0 => mat_tok::<0, 2>(),
            1 => match pick(2) {
                0 => mat_tok::<2, 0>(),
                _ => vec_tok::<0>(),
            },
            _ => scalar::<0, 0>(),
        },
        15 => copy_rhs::<3, 4>(),
        16 => match pick(3) {
            0 => match pick(5) {
                0 => vec_tok::<5>(),
                1 => vec_tok::<6>(),
                2 => vec_tok::<7>(),
                3 => vec_tok::<8>(),
                4 if chance(1, 4) => vec_tok::<300>(),
                _ => vec_tok::<12>(),
            },
            1 => vec_tok::<9>(),
            _ => vec_tok::<17>(),
        },
        _ => match pick(5) {
            0 => match pick(4) {
                0 => mat_tok::<5, 2>(),
                1 => mat_tok::<7, 3>(),
                2 => mat_tok::<2, 8>(),
                _ => mat_tok::<8, 1>(),
            },
            1 => match pick(3) {
                0 => match pick(4) {
                    0 => mat_tok::<1, 1>(),
                    1 => mat_tok::<9, 4>(),
                    2 => mat_tok::<7, 7>(),
                    _ => mat_tok::<4, 7>(),
                },
                1 => mat_tok::<4, 4>(),
                _ => mat_tok::<3, 6>(),
            },
            2 => mat_tok::<6, 6>(),
            3 => match pick(9) {
                3 => scalar::<1, 1>(),
                4 => scalar::<8, 6>(),
                5 => scalar::<5, 12>(),
                6 => scalar::<9, 17>(),
                7 => scalar::<3, 3>(),
                0 => scalar::<7, 5>(),
                1 => scalar::<4, 4>(),
                2 => scalar::<6, 8>(),
                _ => scalar::<4, 9>(),
            },
            _ => copy_rhs::<5, 5>(),
        },
    }
}
