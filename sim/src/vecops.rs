//! Vector and matrix computations and their definitions (C06).

use crate::assign::BIN;
use crate::conc::*;
use crate::elems::*;
use crate::sim::*;
use crate::util::*;
use num_traits::{Float, Inv, One, Zero};
use vecmat::traits::{Conj, Dot, NormL1, NormL2, NormLInf, Normalize, Outer};
use vecmat::{Matrix, Vector};

const S: u32 = C06;

pub fn program() {
    for _ in 0..1 + pick(4) {
        op();
        if !sim().viol.is_empty() {
            return;
        }
    }
}
pub fn op() {
    match pick(70) {
        0..=9 => square_any(),
        10..=15 => match pick(12) {
            0 => vec_ops::<1>(),
            1 => vec_ops::<2>(),
            2 | 3 => vec_ops::<3>(),
            4 | 5 => vec_ops::<4>(),
            6 => match pick(4) {
                0 => vec_ops::<6>(),
                1 => vec_ops::<9>(),
                2 if chance(1, 3) => vec_elementwise::<300>(),
                2 => vec_ops::<12>(),
                _ => vec_ops::<5>(),
            },
            7 => vec_ops::<7>(),
            8 => vec_ops::<8>(),
            9 => vec_ops::<16>(),
            10 => vec_ops::<19>(),
            _ => vec_elementwise::<0>(),
        },
        16..=23 => match pick(13) {
            0 => mat_ops::<2, 2>(),
            1 => mat_ops::<2, 3>(),
            2 => mat_ops::<3, 2>(),
            3 => mat_ops::<1, 4>(),
            4 => mat_ops::<4, 1>(),
            5 => mat_ops::<3, 4>(),
            6 => mat_ops::<4, 4>(),
            7 => match pick(4) {
                0 => mat_ops::<2, 8>(),
                1 => mat_ops::<8, 2>(),
                2 => mat_ops::<5, 3>(),
                _ => mat_ops::<5, 5>(),
            },
            8 => mat_ops::<6, 6>(),
            9 => mat_ops::<7, 11>(),
            10 => mat_ops::<9, 3>(),
            11 => mat_elementwise::<0, 3>(),
            _ => mat_elementwise::<3, 0>(),
        },
        24..=31 => match pick(14) {
            0 => products::<2, 2, 2>(),
            1 => products::<2, 3, 4>(),
            2 => products::<4, 3, 2>(),
            3 | 4 => products::<3, 3, 3>(),
            5 => products::<1, 4, 2>(),
            6 => products::<3, 1, 3>(),
            7 | 8 => products::<4, 4, 4>(),
            9 => match pick(4) {
                0 => products::<2, 8, 2>(),
                1 => products::<7, 2, 5>(),
                2 => products::<6, 5, 1>(),
                _ => products::<5, 3, 6>(),
            },
            10 => products::<3, 6, 5>(),
            11 => products::<6, 7, 2>(),
            12 => products::<8, 8, 8>(),
            _ => products::<1, 9, 1>(),
        },
        32..=36 => cross(),
        37..=44 => match pick(7) {
            0 => vec_float::<1>(),
            1 => vec_float::<2>(),
            2 => vec_float::<3>(),
            3 => vec_float::<4>(),
            4 => match pick(5) {
                0 => vec_float::<0>(),
                1 => vec_float::<6>(),
                2 => vec_float::<7>(),
                3 => vec_float::<8>(),
                _ => vec_float::<17>(),
            },
            5 => vec_float::<5>(),
            _ => vec_float::<9>(),
        },
        45..=52 => match pick(9) {
            7 => match pick(4) {
                0 => mat_float::<1, 1>(),
                1 => mat_float::<0, 2>(),
                2 => mat_float::<3, 0>(),
                _ => mat_float::<1, 6>(),
            },
            8 => match pick(4) {
                0 => mat_float::<5, 2>(),
                1 => mat_float::<6, 6>(),
                2 => mat_float::<8, 1>(),
                _ => mat_float::<2, 7>(),
            },
            5 => mat_float::<3, 3>(),
            6 => mat_float::<4, 4>(),
            0 => mat_float::<2, 2>(),
            1 => mat_float::<2, 3>(),
            2 => mat_float::<3, 2>(),
            3 => mat_float::<4, 1>(),
            _ => mat_float::<3, 5>(),
        },
        53..=55 => prim(),
        56..=59 => match pick(5) {
            4 => match pick(6) {
                0 => float_norms::<5, 6>(),
                1 => float_norms::<4, 1>(),
                2 => float_norms::<3, 5>(),
                3 => float_norms::<8, 7>(),
                4 => float_norms::<9, 8>(),
                _ => float_norms::<1, 17>(),
            },
            0 => float_norms::<1, 3>(),
            1 => float_norms::<2, 2>(),
            2 => float_norms::<3, 2>(),
            _ => float_norms::<2, 4>(),
        },
        60 => match pick(4) {
            0 => unit_sized::<9>(),
            1 => unit_sized::<12>(),
            2 => unit_sized::<17>(),
            _ => unit_sized::<33>(),
        },
        61..=65 => match pick(7) {
            0 => vec_any_float::<1>(),
            1 => vec_any_float::<2>(),
            2 => vec_any_float::<3>(),
            3 => vec_any_float::<4>(),
            4 => match pick(2) {
                0 => vec_any_float::<7>(),
                _ => vec_any_float::<8>(),
            },
            5 => mat_any_float::<2, 3>(),
            _ => mat_any_float::<3, 2>(),
        },
        _ => crate::rings::op(),
    }
}

// ---------------------------------------------------------------- element-wise

macro_rules! by_bin {
    ($k:expr, $a:expr, $b:expr) => {
        match $k {
            0 => $a + $b,
            1 => $a - $b,
            2 => $a * $b,
            3 => $a / $b,
            4 => $a % $b,
            5 => $a & $b,
            6 => $a | $b,
            _ => $a ^ $b,
        }
    };
}
type Cmp = fn(u64, u64) -> bool;
const CMP: [(&str, Cmp); 6] = [
    ("veq", |a, b| a == b),
    ("vne", |a, b| a != b),
    ("vlt", |a, b| a < b),
    ("vle", |a, b| a <= b),
    ("vgt", |a, b| a > b),
    ("vge", |a, b| a >= b),
];
/// Second operand that often equals the first.
fn near(a: &[u64]) -> Vec<u64> {
    let b: Vec<u64> = a.iter().map(|x| match draw(4) {
        0 => *x,
        1 => (x + 1) % P,
        _ => arg(),
    }).collect();
    trace(|| format!("data {:?}", b));
    b
}
fn divrem(a: &[u64], b: &[u64]) -> (Option<Vec<u64>>, Option<Vec<u64>>) {
    (zipm(a, b, |x, y| x.checked_div(y)), zipm(a, b, |x, y| x.checked_rem(y)))
}
fn cat(a: Option<Vec<u64>>, b: Option<Vec<u64>>) -> Option<Vec<u64>> {
    let mut a = a?;
    a.extend(b?);
    Some(a)
}
fn sum(a: &[u64]) -> u64 {
    a.iter().fold(0, |s, x| addm(s, *x))
}
fn dotm(a: &[u64], b: &[u64]) -> u64 {
    a.iter().zip(b).fold(0, |s, (x, y)| addm(s, mulm(*x, *y)))
}

macro_rules! elementwise {
    ($what:expr, $mk:expr, $rd:expr, $n:expr, $bools:expr) => {{
        let n = $n;
        let a = ints(n);
        match pick(7) {
            0 => {
                let k = pick(8);
                let b = ints(n);
                let want = zipm(&a, &b, BIN[k].1);
                let (x, y) = ($mk(&a), $mk(&b));
                run(&format!("{} {}", $what, &BIN[k].0[..1]), S, want, || $rd(by_bin!(k, x, y)));
            }
            1 => {
                let x = $mk(&a);
                if chance(1, 2) {
                    run(&format!("{} neg", $what), S, Some(a.iter().map(|x| negm(*x)).collect()), || $rd(-x));
                } else {
                    run(&format!("{} not", $what), S, Some(a.iter().map(|x| notm(*x)).collect()), || $rd(!x));
                }
            }
            2 => {
                let k = 2 + pick(3);
                let s = ints(1)[0];
                let x = $mk(&a);
                let want = a.iter().map(|x| BIN[k].1(*x, s)).collect();
                run(&format!("{} {} scalar", $what, &BIN[k].0[..1]), S, want, || $rd(match k {
                    2 => x * Fp(s),
                    3 => x / Fp(s),
                    _ => x % Fp(s),
                }));
            }
            3 => {
                let k = pick(6);
                let b = near(&a);
                let want = a.iter().zip(&b).map(|(x, y)| b2u(CMP[k].1(*x, *y))).collect();
                let (x, y) = ($mk(&a), $mk(&b));
                run(&format!("{} {}", $what, CMP[k].0), S, Some(want), || $bools(match k {
                    0 => x.veq(y),
                    1 => x.vne(y),
                    2 => x.vlt(y),
                    3 => x.vle(y),
                    4 => x.vgt(y),
                    _ => x.vge(y),
                }));
            }
            4 => {
                let b = ints(n);
                let (d, r) = divrem(&a, &b);
                let (x, y) = ($mk(&a), $mk(&b));
                match pick(3) {
                    0 => run(&format!("{} div_floor", $what), S, d, || $rd(x.div_floor(y))),
                    1 => run(&format!("{} mod_floor", $what), S, r, || $rd(x.mod_floor(y))),
                    _ => run(&format!("{} div_mod_floor", $what), S, cat(d, r), || {
                        let (p, q) = x.div_mod_floor(y);
                        let mut o = $rd(p);
                        o.extend($rd(q));
                        o
                    }),
                }
            }
            5 => {
                // sparse, so that every position is tried as the only non-zero one
                let a: Vec<u64> = match pick(3) {
                    0 => vec![0; n],
                    1 => {
                        let k = if n > 0 { pick(n) } else { 0 };
                        (0..n).map(|i| if i == k { garg() } else { 0 }).collect()
                    }
                    _ => a,
                };
                let x = $mk(&a);
                run(&format!("{} is_zero", $what), S, Some(vec![b2u(a.iter().all(|x| *x == 0))]), || vec![b2u(x.is_zero())]);
            }
            _ => {
                let mut b = near(&a);
                if n > 0 && chance(1, 2) {
                    // equal or different at one position only
                    let (k, same) = (pick(n), chance(1, 2));
                    b = (0..n).map(|i| if (i == k) == same { a[i] } else { addm(a[i], 1) }).collect();
                    trace(|| format!("data {:?}", b));
                }
                let (x, y) = ($mk(&a), $mk(&b));
                let e: Vec<bool> = a.iter().zip(&b).map(|(x, y)| x == y).collect();
                run(&format!("{} any/all/eq", $what), S,
                    Some(vec![b2u(e.iter().any(|x| *x)), b2u(e.iter().all(|x| *x)), b2u(e.iter().all(|x| *x))]),
                    || vec![b2u(x.veq(y).any()), b2u(x.veq(y).all()), b2u(x == y)]);
            }
        }
    }};
}
fn vec_elementwise<const N: usize>() {
    elementwise!("Vector", |a: &[u64]| v::<N>(a), |x: Vector<Fp, N>| vo(x), N,
        |b: Vector<bool, N>| b.as_array().iter().map(|x| b2u(*x)).collect::<Vec<u64>>());
}
fn mat_elementwise<const M: usize, const N: usize>() {
    elementwise!("Matrix", |a: &[u64]| m::<M, N>(a), |x: Matrix<Fp, M, N>| mo(x), M * N,
        |b: Matrix<bool, M, N>| b.as_array_of_arrays().iter().flatten().map(|x| b2u(*x)).collect::<Vec<u64>>());
}
fn vec_ops<const N: usize>() {
    if chance(1, 2) {
        return vec_elementwise::<N>();
    }
    let a = ints(N);
    let x = v::<N>(&a);
    let l1 = |a: &[u64]| a.iter().fold(0, |s, x| addm(s, l1m(*x)));
    let li = |a: &[u64]| a.iter().map(|x| linfm(*x)).max().unwrap();
    match pick(8) {
        0 => run("Vector sum", S, Some(vec![sum(&a)]), || vec![x.sum().0]),
        1 => run("Vector max", S, Some(vec![*a.iter().max().unwrap()]), || vec![x.max().0]),
        2 => run("Vector min", S, Some(vec![*a.iter().min().unwrap()]), || vec![x.min().0]),
        3 => run("Vector norm_l1", S, Some(vec![l1(&a)]), || vec![x.norm_l1().0]),
        4 => run("Vector norm_l_inf", S, Some(vec![li(&a)]), || vec![x.norm_l_inf().0]),
        5 => run("Vector square_length", S, Some(vec![dotm(&a, &a)]), || vec![x.square_length().0]),
        6 => run("Vector zero", S, Some(vec![0; N]), || vo(Vector::<Fp, N>::zero())),
        _ => {
            let b = ints(N);
            let y = v::<N>(&b);
            run("Vector dot", S, Some(vec![dotm(&a, &b)]), || vec![x.dot(y).0]);
        }
    }
}
fn mat_ops<const M: usize, const N: usize>() {
    if chance(2, 3) {
        return mat_elementwise::<M, N>();
    }
    let a = ints(M * N);
    let x = m::<M, N>(&a);
    let l1 = |a: &[u64]| a.iter().fold(0, |s, x| addm(s, l1m(*x)));
    let li = |a: &[u64]| a.iter().map(|x| linfm(*x)).max().unwrap();
    match pick(7) {
        0 => run("Matrix sum", S, Some(vec![sum(&a)]), || vec![x.sum().0]),
        1 => run("Matrix max", S, Some(vec![*a.iter().max().unwrap()]), || vec![x.max().0]),
        2 => run("Matrix min", S, Some(vec![*a.iter().min().unwrap()]), || vec![x.min().0]),
        3 => run("Matrix norm_l1", S, Some(vec![l1(&a)]), || vec![x.norm_l1().0]),
        4 => run("Matrix norm_l_inf", S, Some(vec![li(&a)]), || vec![x.norm_l_inf().0]),
        5 => run("Matrix zero", S, Some(vec![0; M * N]), || mo(Matrix::<Fp, M, N>::zero())),
        _ => {
            let t: Vec<u64> = (0..N * M).map(|k| a[k % M * N + k / M]).collect();
            run("Matrix transpose", S, Some(t), || mo(x.transpose()));
        }
    }
}

// ---------------------------------------------------------------- products

fn matm(l: usize, k: usize, n: usize, a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = vec![];
    for i in 0..l {
        for j in 0..n {
            r.push((0..k).fold(0, |s, t| addm(s, mulm(a[i * k + t], b[t * n + j]))));
        }
    }
    r
}
fn products<const L: usize, const M: usize, const N: usize>() {
    match pick(5) {
        0 | 1 => {
            let (a, b) = (ints(L * M), ints(M * N));
            let (x, y) = (m::<L, M>(&a), m::<M, N>(&b));
            run("Matrix dot Matrix", S, Some(matm(L, M, N, &a, &b)), || mo(x.dot(y)));
        }
        2 => {
            let (a, b) = (ints(M * N), ints(N));
            let (x, y) = (m::<M, N>(&a), v::<N>(&b));
            run("Matrix dot Vector", S, Some(matm(M, N, 1, &a, &b)), || vo(x.dot(y)));
        }
        3 => {
            let (a, b) = (ints(M), ints(M * N));
            let (x, y) = (v::<M>(&a), m::<M, N>(&b));
            run("Vector dot Matrix", S, Some(matm(1, M, N, &a, &b)), || vo(x.dot(y)));
        }
        _ => {
            let (a, b) = (ints(M), ints(N));
            let (x, y) = (v::<M>(&a), v::<N>(&b));
            run("Vector outer Vector", S, Some(matm(M, 1, N, &a, &b)), || mo(x.outer(y)));
        }
    }
}
fn cross() {
    let c3 = |a: &[u64], b: &[u64]| -> Vec<u64> {
        (0..3).map(|i| {
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            subm(mulm(a[j], b[k]), mulm(a[k], b[j]))
        }).collect()
    };
    match pick(3) {
        0 => {
            let (a, b) = (ints(2), ints(2));
            let (x, y) = (v::<2>(&a), v::<2>(&b));
            run("Vector2 cross", S, Some(vec![subm(mulm(a[0], b[1]), mulm(a[1], b[0]))]), || vec![x.cross(y).0]);
        }
        1 => {
            let (a, b) = (ints(3), ints(3));
            let (x, y) = (v::<3>(&a), v::<3>(&b));
            run("Vector3 cross", S, Some(c3(&a, &b)), || vo(x.cross(y)));
        }
        _ => {
            let (a, b) = (ints(4), ints(4));
            let (x, y) = (v::<4>(&a), v::<4>(&b));
            let mut w = c3(&a, &b);
            w.push(0);
            run("Vector4 cross", S, Some(w), || vo(x.cross(y)));
        }
    }
}

// ---------------------------------------------------------------- square matrices

/// Determinant by elimination.
pub fn detm(n: usize, a: &[u64]) -> u64 {
    let mut a = a.to_vec();
    let mut d = 1;
    for c in 0..n {
        let Some(p) = (c..n).find(|r| a[r * n + c] != 0) else { return 0 };
        if p != c {
            for k in 0..n {
                a.swap(p * n + k, c * n + k);
            }
            d = negm(d);
        }
        d = mulm(d, a[c * n + c]);
        let i = invm(a[c * n + c]).unwrap();
        for r in c + 1..n {
            let f = mulm(a[r * n + c], i);
            for k in c..n {
                a[r * n + k] = subm(a[r * n + k], mulm(f, a[c * n + k]));
            }
        }
    }
    d
}
pub fn cofm(n: usize, a: &[u64], i: usize, j: usize) -> u64 {
    let mut s = vec![];
    for r in 0..n {
        for c in 0..n {
            if r != i && c != j {
                s.push(a[r * n + c]);
            }
        }
    }
    let d = detm(n - 1, &s);
    if (i + j) % 2 == 0 {
        d
    } else {
        negm(d)
    }
}
pub fn adjm(n: usize, a: &[u64]) -> Vec<u64> {
    (0..n * n).map(|k| cofm(n, a, k % n, k / n)).collect()
}
pub fn invmat(n: usize, a: &[u64]) -> Option<Vec<u64>> {
    let i = invm(detm(n, a))?;
    Some(adjm(n, a).iter().map(|x| mulm(*x, i)).collect())
}
/// A square matrix, often of a special kind.
pub fn sqdata(n: usize) -> Vec<u64> {
    let mut a = ints(n * n);
    let at = |i: usize, j: usize| i * n + j;
    match pick(16) {
        0 if n > 1 => {
            // singular
            let k = pick(n - 1);
            for c in 0..n {
                a[at(k + 1, c)] = mulm(3, a[at(k, c)]);
            }
        }
        1 => {
            for x in a.iter_mut() {
                if draw(2) == 0 {
                    *x = 0
                }
            }
        }
        k @ 2..=5 => {
            // symmetric, antisymmetric, upper or lower triangular
            for i in 0..n {
                for j in 0..i {
                    a[at(i, j)] = match k {
                        2 => a[at(j, i)],
                        3 => negm(a[at(j, i)]),
                        _ => 0,
                    };
                    if k == 5 {
                        a.swap(at(i, j), at(j, i));
                    }
                }
            }
        }
        6 => {
            // diagonal, maybe the identity
            let one = chance(1, 3);
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        a[at(i, j)] = 0
                    } else if one {
                        a[at(i, j)] = 1
                    }
                }
            }
        }
        7 => {
            // a permutation with factors
            let mut p: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                p.swap(i, pick(i + 1));
            }
            for i in 0..n {
                for j in 0..n {
                    if p[i] != j {
                        a[at(i, j)] = 0
                    }
                }
            }
            if n > 0 && chance(1, 3) {
                // the factors are signs
                for x in a.iter_mut().filter(|x| **x != 0) {
                    *x = if *x % 2 == 0 { 1 } else { P - 1 };
                }
            }
        }
        k @ 9 | k @ 10 if n > 0 && n < 6 => {
            // the determinant is one or minus one
            if let Some(d) = invm(detm(n, &a)) {
                let d = if k == 9 { d } else { negm(d) };
                let i = pick(n);
                for j in 0..n {
                    a[at(i, j)] = mulm(d, a[at(i, j)]);
                }
            }
        }
        8 if n > 1 => {
            // two rows or columns exchanged, or one twice
            let (i, j) = (pick(n), pick(n));
            for k in 0..n {
                a[at(i, k)] = a[at(j, k)];
            }
        }
        _ => return a,
    }
    remember_ints(&a);
    trace(|| format!("data {:?}", a));
    a
}
fn square_any() {
    match pick(64) {
        0..=3 => square::<1>(),
        4..=19 => square::<2>(),
        20..=39 => square::<3>(),
        40..=52 => square::<4>(),
        53..=55 => square::<0>(),
        56..=60 => square::<5>(),
        61 => square::<6>(),
        62 => square::<7>(),
        _ => square::<8>(),
    }
}
/// What matrices of any size know about themselves.
fn unit_sized<const N: usize>() {
    let a = ints(N);
    let eye = |k: usize| b2u(k / N == k % N);
    match pick(3) {
        0 => run("large Matrix one", S, Some((0..N * N).map(eye).collect()), || mo(Matrix::<Fp, N, N>::one())),
        1 => run("large Matrix diagonal", S, Some((0..N * N).map(|k| mulm(eye(k), a[k / N])).collect()), || mo(Matrix::<Fp, N, N>::diagonal(v::<N>(&a)))),
        _ => run("Vector dot large Matrix one", S, Some(a.clone()), || vo(v::<N>(&a).dot(Matrix::<Fp, N, N>::one()))),
    }
}
fn square<const N: usize>() {
    let a = sqdata(N);
    let x = m::<N, N>(&a);
    let k = match N {
        0 => pick(2),
        // the effort of a determinant is N!
        7 | 8 => [0, 2, 2, 2, 2, 7, 7, 1][pick(7 + pick(9 - N))],
        6 => [0, 2, 2, 2, 2, 7, 7, 1, 1, 4][pick(10)],
        _ => pick(9),
    };
    match k {
        0 => run("Matrix one", S, Some((0..N * N).map(|k| b2u(k / N == k % N)).collect()), || mo(Matrix::<Fp, N, N>::one())),
        1 => run("Matrix det", S, Some(vec![detm(N, &a)]), || vec![x.det().0]),
        2 | 3 => {
            let (i, j) = (pick(N), pick(N));
            run(&format!("Matrix{} cofactor({},{})", N, i, j), S, Some(vec![cofm(N, &a, i, j)]), || vec![x.cofactor(i, j).0]);
        }
        4 => run("Matrix adj", S, Some(adjm(N, &a)), || mo(x.adj())),
        5 => run("Matrix inv", S, invmat(N, &a), || mo(Matrix::<Fp, N, N>::inv(&x))),
        6 => run("Matrix Inv::inv", S, invmat(N, &a), || mo(Inv::inv(x))),
        7 => {
            let d = ints(N);
            let w = v::<N>(&d);
            let want = (0..N * N).map(|k| if k / N == k % N { d[k / N] } else { 0 }).collect();
            run("Matrix diagonal", S, Some(want), || mo(Matrix::<Fp, N, N>::diagonal(w)));
        }
        _ => {
            // a computation of several steps on one operand
            let want = invmat(N, &a).map(|_| (0..N * N).map(|k| b2u(k / N == k % N)).collect());
            run("Matrix dot inv", S, want, || mo(x.dot(x.inv())));
        }
    }
    // operands are only borrowed
    if mo(x) != a {
        violation(S, "operand:square", "a borrowed matrix was changed".to_string());
    }
}

// ---------------------------------------------------------------- float functions

type F1 = fn(f64) -> f64;
type F2 = fn(f64, f64) -> f64;
macro_rules! unary_table {
    ($($f:ident)*) => {
        const UN: &[(&str, F1)] = &[$((stringify!($f), f64::$f)),*];
        fn vun<const N: usize>(k: usize, x: Vector<Fl, N>) -> Vector<Fl, N> {
            const T: &[&str] = &[$(stringify!($f)),*];
            $(if T[k] == stringify!($f) { return x.$f(); })*
            unreachable!()
        }
        fn mun<const M: usize, const N: usize>(k: usize, x: Matrix<Fl, M, N>) -> Matrix<Fl, M, N> {
            const T: &[&str] = &[$(stringify!($f)),*];
            $(if T[k] == stringify!($f) { return x.$f(); })*
            unreachable!()
        }
    };
}
unary_table! { abs signum cbrt sqrt acos asin atan cosh sinh tan tanh log2 exp ln sin cos asinh acosh atanh
    floor ceil round trunc fract recip exp2 log10 exp_m1 ln_1p }
const BI: &[(&str, F2)] = &[
    ("abs_sub", absdiff),
    ("vmin", f64::min),
    ("vmax", f64::max),
    ("atan2", f64::atan2),
    ("hypot", f64::hypot),
    ("powf", f64::powf),
    ("log", f64::log),
];
macro_rules! by_bi {
    ($k:expr, $x:expr, $y:expr) => {
        match $k {
            0 => $x.abs_sub($y),
            1 => $x.vmin($y),
            2 => $x.vmax($y),
            3 => $x.atan2($y),
            4 => $x.hypot($y),
            5 => $x.powf($y),
            _ => $x.log($y),
        }
    };
}
const TOL: f64 = 1e-9;
fn posi(k: &str, a: &mut [f64]) {
    // mostly inside the domain of the function
    let f: fn(f64) -> f64 = match k {
        "sqrt" | "ln" | "log2" | "log10" | "powf" | "log" => |x| x.abs() + 0.25,
        "acos" | "asin" | "atanh" => |x| x / 17.0,
        "acosh" => |x| x.abs() + 1.0,
        "ln_1p" => |x| x.abs() - 0.5,
        _ => return,
    };
    if draw(8) > 0 {
        for x in a.iter_mut() {
            *x = f(*x)
        }
    }
}
fn terms(a: &[f64]) -> f64 {
    a.iter().filter(|x| x.is_finite()).fold(0.0, |s: f64, x| s.max(x.abs()))
}
fn expo() -> i32 {
    match draw(8) {
        7 => draw(400) as i32 - 200,
        6 => match draw(4) {
            0 => [i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1][pick(4)],
            _ => draw(200_001) as i32 - 100_000,
        },
        _ => draw(9) as i32 - 4,
    }
}
/// Some bases near one or minus one, whose large powers are neither zero nor infinite.
fn unity(a: &mut [f64]) {
    if chance(1, 2) {
        for x in a.iter_mut().filter(|_| chance(1, 2)) {
            *x = [1.0, -1.0][pick(2)] * (1.0 + [0.0, 1e-6, -1e-6, 1e-5][pick(4)]);
        }
        trace(|| format!("data {:?}", a));
    }
}
fn vec_float<const N: usize>() {
    let mut a = wild(N);
    match pick(6) {
        0 | 1 => {
            let k = pick(UN.len());
            posi(UN[k].0, &mut a);
            let x = vf::<N>(&a);
            runx(&format!("Vector {}", UN[k].0), S, a.iter().map(|x| UN[k].1(*x)).collect(), vec![], || vfo(vun(k, x)));
        }
        2 => {
            let k = pick(BI.len());
            posi(BI[k].0, &mut a);
            let x = vf::<N>(&a);
            if chance(1, 2) {
                let b = wild(1)[0];
                runx(&format!("Vector {} scalar", BI[k].0), S, a.iter().map(|x| BI[k].1(*x, b)).collect(), vec![],
                    || vfo(by_bi!(k, x, Fl(b))));
            } else {
                let b = wild(N);
                let y = vf::<N>(&b);
                runx(&format!("Vector {} vector", BI[k].0), S, (0..N).map(|i| BI[k].1(a[i], b[i])).collect(), vec![],
                    || vfo(by_bi!(k, x, y)));
            }
        }
        3 => {
            let x = vf::<N>(&a);
            let (b, c) = (wild(N.max(1)), wild(N.max(1)));
            let (y, z) = (vf::<N>(&b), vf::<N>(&c));
            let (sb, sc) = (chance(1, 2), chance(1, 2));
            let at = |w: &[f64], s: bool, i: usize| if s { w[0] } else { w[i] };
            let name = format!("{} {}", if sb { "scalar" } else { "vector" }, if sc { "scalar" } else { "vector" });
            if chance(1, 2) {
                let want = (0..N).map(|i| at(&c, sc, i).min(a[i].max(at(&b, sb, i)))).collect();
                runx(&format!("Vector clamp {}", name), S, want, vec![], || vfo(match (sb, sc) {
                    (true, true) => x.clamp(Fl(b[0]), Fl(c[0])),
                    (true, false) => x.clamp(Fl(b[0]), z),
                    (false, true) => x.clamp(y, Fl(c[0])),
                    (false, false) => x.clamp(y, z),
                }));
            } else {
                let want = (0..N).map(|i| a[i].mul_add(at(&b, sb, i), at(&c, sc, i))).collect();
                let size = (0..N).map(|i| terms(&[a[i] * at(&b, sb, i), at(&c, sc, i)])).collect();
                runx(&format!("Vector mul_add {}", name), S, want, size, || vfo(match (sb, sc) {
                    (true, true) => x.mul_add(Fl(b[0]), Fl(c[0])),
                    (true, false) => x.mul_add(Fl(b[0]), z),
                    (false, true) => x.mul_add(y, Fl(c[0])),
                    (false, false) => x.mul_add(y, z),
                }));
            }
        }
        4 => {
            unity(&mut a);
            let x = vf::<N>(&a);
            let e: Vec<i32> = (0..N.max(1)).map(|_| expo()).collect();
            let y: Vector<i32, N> = core::array::from_fn::<i32, N, _>(|i| e[i]).into();
            if chance(1, 2) {
                runx("Vector powi vector", S, (0..N).map(|i| a[i].powi(e[i])).collect(), vec![], || vfo(x.powi(y)));
            } else {
                runx("Vector powi scalar", S, (0..N).map(|i| a[i].powi(e[0])).collect(), vec![], || vfo(x.powi(e[0])));
            }
        }
        _ => {
            let x = vf::<N>(&a);
            let want = a.iter().map(|x| x.sin()).chain(a.iter().map(|x| x.cos())).collect();
            runx("Vector sin_cos", S, want, vec![], || {
                let (s, c) = x.sin_cos();
                let mut o = vfo(s);
                o.extend(vfo(c));
                o
            });
        }
    }
}
fn mat_float<const M: usize, const N: usize>() {
    let n = M * N;
    let mut a = wild(n);
    match pick(6) {
        0 | 1 => {
            let k = pick(UN.len());
            posi(UN[k].0, &mut a);
            let x = mf::<M, N>(&a);
            runx(&format!("Matrix {}", UN[k].0), S, a.iter().map(|x| UN[k].1(*x)).collect(), vec![], || mfo(mun(k, x)));
        }
        2 | 3 => {
            let k = pick(BI.len());
            posi(BI[k].0, &mut a);
            let x = mf::<M, N>(&a);
            let b = wild(n.max(N).max(1));
            match pick(3) {
                0 => runx(&format!("Matrix {} scalar", BI[k].0), S, a.iter().map(|x| BI[k].1(*x, b[0])).collect(), vec![],
                    || mfo(by_bi!(k, x, Fl(b[0])))),
                1 => {
                    let y = vf::<N>(&b);
                    runx(&format!("Matrix {} row", BI[k].0), S, (0..n).map(|i| BI[k].1(a[i], b[i % N])).collect(), vec![],
                        || mfo(by_bi!(k, x, y)))
                }
                _ => {
                    let y = mf::<M, N>(&b);
                    runx(&format!("Matrix {} matrix", BI[k].0), S, (0..n).map(|i| BI[k].1(a[i], b[i])).collect(), vec![],
                        || mfo(by_bi!(k, x, y)))
                }
            }
        }
        4 => {
            let x = mf::<M, N>(&a);
            let (b, c) = (wild(n), wild(n.max(N)));
            let (y, z) = (mf::<M, N>(&b), vf::<N>(&c));
            if chance(1, 2) {
                let l = wild(1)[0];
                match pick(3) {
                    0 => {
                        let want = (0..n).map(|i| b[i].min(a[i].max(l))).collect();
                        return runx("Matrix clamp scalar matrix", S, want, vec![], || mfo(x.clamp(Fl(l), y)));
                    }
                    1 => {
                        let want = (0..n).map(|i| l.min(a[i].max(c[i % N]))).collect();
                        return runx("Matrix clamp row scalar", S, want, vec![], || mfo(x.clamp(z, Fl(l))));
                    }
                    _ => {}
                }
                let want = (0..n).map(|i| c[i % N].min(a[i].max(b[i]))).collect();
                runx("Matrix clamp matrix row", S, want, vec![], || mfo(x.clamp(y, z)));
            } else {
                let want = (0..n).map(|i| a[i].mul_add(c[i % N], b[i])).collect();
                let size = (0..n).map(|i| terms(&[a[i] * c[i % N], b[i]])).collect();
                runx("Matrix mul_add row matrix", S, want, size, || mfo(x.mul_add(z, y)));
            }
        }
        _ => {
            unity(&mut a);
            let x = mf::<M, N>(&a);
            if chance(1, 2) {
                let e: Vec<i32> = (0..n.max(N).max(1)).map(|_| expo()).collect();
                let y: Matrix<i32, M, N> = core::array::from_fn::<[i32; N], M, _>(|i| core::array::from_fn(|j| e[i * N + j])).into();
                match pick(3) {
                    0 => runx("Matrix powi matrix", S, (0..n).map(|i| a[i].powi(e[i])).collect(), vec![], || mfo(x.powi(y))),
                    1 => {
                        let z: Vector<i32, N> = core::array::from_fn::<i32, N, _>(|i| e[i]).into();
                        runx("Matrix powi row", S, (0..n).map(|i| a[i].powi(e[i % N])).collect(), vec![], || mfo(x.powi(z)))
                    }
                    _ => runx("Matrix powi scalar", S, (0..n).map(|i| a[i].powi(e[0])).collect(), vec![], || mfo(x.powi(e[0]))),
                }
            } else {
                let want = a.iter().map(|x| x.sin()).chain(a.iter().map(|x| x.cos())).collect();
                runx("Matrix sin_cos", S, want, vec![], || {
                    let (s, c) = x.sin_cos();
                    let mut o = mfo(s);
                    o.extend(mfo(c));
                    o
                });
            }
        }
    }
}
const FBIN: [(&str, F2); 5] = [
    ("+", |a, b| a + b),
    ("-", |a, b| a - b),
    ("*", |a, b| a * b),
    ("/", |a, b| a / b),
    ("%", |a, b| a % b),
];
const FCMP: [(&str, fn(f64, f64) -> bool); 6] = [
    ("veq", |a, b| a == b),
    ("vne", |a, b| a != b),
    ("vlt", |a, b| a < b),
    ("vle", |a, b| a <= b),
    ("vgt", |a, b| a > b),
    ("vge", |a, b| a >= b),
];
fn near_float(a: &[f64]) -> Vec<f64> {
    let b = wild(a.len());
    let r: Vec<f64> = a.iter().zip(b).map(|(x, y)| match draw(4) {
        0 => *x,
        1 => -*x,
        _ => y,
    }).collect();
    trace(|| format!("data {:?}", r));
    r
}
/// Arithmetic, comparison and reductions over any floats: NaN is unordered, infinities and zeros are ordinary values.
macro_rules! any_float {
    ($what:expr, $n:expr, $mk:expr, $rd:expr, $bools:expr) => {{
        let n = $n;
        let a = wild(n);
        let x = $mk(&a);
        match pick(8) {
            0 => {
                let k = pick(5);
                let b = wild(n);
                let y = $mk(&b);
                let want = (0..n).map(|i| FBIN[k].1(a[i], b[i])).collect();
                if chance(1, 2) {
                    runx(&format!("{}<float> {}", $what, FBIN[k].0), S, want, vec![], || $rd(match k {
                        0 => x + y,
                        1 => x - y,
                        2 => x * y,
                        3 => x / y,
                        _ => x % y,
                    }));
                } else {
                    runx(&format!("{}<float> {}=", $what, FBIN[k].0), S, want, vec![], || {
                        let mut x = x;
                        match k {
                            0 => x += y,
                            1 => x -= y,
                            2 => x *= y,
                            3 => x /= y,
                            _ => x %= y,
                        }
                        $rd(x)
                    });
                }
            }
            1 => {
                let k = 2 + pick(3);
                let b = wild(1)[0];
                let want = (0..n).map(|i| FBIN[k].1(a[i], b)).collect();
                let y = Fl(b);
                if chance(1, 2) {
                    // by zero and by infinity too: every component by itself
                    runx(&format!("{}<float> {} scalar", $what, FBIN[k].0), S, want, vec![], || $rd(match k {
                        2 => x * y,
                        3 => x / y,
                        _ => x % y,
                    }));
                } else {
                    runx(&format!("{}<float> {}= scalar", $what, FBIN[k].0), S, want, vec![], || {
                        let mut x = x;
                        match k {
                            2 => x *= y,
                            3 => x /= y,
                            _ => x %= y,
                        }
                        $rd(x)
                    });
                }
            }
            2 => runx(&format!("{}<float> neg", $what), S, a.iter().map(|x| -x).collect(), vec![], || $rd(-x)),
            3 | 4 => {
                let k = pick(6);
                let b = near_float(&a);
                let y = $mk(&b);
                let want = (0..n).map(|i| b2u(FCMP[k].1(a[i], b[i]))).collect();
                run(&format!("{}<float> {}", $what, FCMP[k].0), S, Some(want), || $bools(match k {
                    0 => x.veq(y),
                    1 => x.vne(y),
                    2 => x.vlt(y),
                    3 => x.vle(y),
                    4 => x.vgt(y),
                    _ => x.vge(y),
                }));
            }
            5 => {
                let mut b = if chance(2, 3) { a.clone() } else { near_float(&a) };
                if chance(1, 3) {
                    b[pick(n)] = wild(1)[0];
                }
                let y = $mk(&b);
                let e: Vec<bool> = a.iter().zip(&b).map(|(x, y)| x == y).collect();
                run(&format!("{}<float> ==", $what), S,
                    Some(vec![b2u(e.iter().all(|x| *x)), b2u(!e.iter().all(|x| *x)), b2u(e.iter().any(|x| *x)), b2u(a.iter().all(|x| *x == 0.0))]),
                    || vec![b2u(x == y), b2u(x != y), b2u(x.veq(y).any()), b2u(x.is_zero())]);
            }
            _ => {
                // what is largest of several incomparable values is nobody's guess
                if !a.iter().any(|x| x.is_nan()) {
                    let hi = a.iter().fold(f64::NEG_INFINITY, |m, x| m.max(*x));
                    let lo = a.iter().fold(f64::INFINITY, |m, x| m.min(*x));
                    let li = a.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
                    match pick(3) {
                        0 => runx(&format!("{}<float> max", $what), S, vec![hi], vec![], || vec![x.max().0]),
                        1 => runx(&format!("{}<float> min", $what), S, vec![lo], vec![], || vec![x.min().0]),
                        _ => runx(&format!("{}<float> norm_l_inf", $what), S, vec![li], vec![], || vec![x.norm_l_inf().0]),
                    }
                }
            }
        }
    }};
}
fn vec_any_float<const N: usize>() {
    if chance(1, 5) {
        return cross_float();
    }
    any_float!("Vector", N, |a: &[f64]| vf::<N>(a), |x: Vector<Fl, N>| vfo(x),
        |b: Vector<bool, N>| b.as_array().iter().map(|x| b2u(*x)).collect::<Vec<u64>>());
}
fn mat_any_float<const M: usize, const N: usize>() {
    any_float!("Matrix", M * N, |a: &[f64]| mf::<M, N>(a), |x: Matrix<Fl, M, N>| mfo(x),
        |b: Matrix<bool, M, N>| b.as_array_of_arrays().iter().flatten().map(|x| b2u(*x)).collect::<Vec<u64>>());
}
/// The fourth component takes no part in the product.
fn cross_float() {
    let (a, b) = (wild(4), wild(4));
    let mut w = vec![];
    let mut size = vec![];
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        w.push(a[j] * b[k] - a[k] * b[j]);
        size.push(terms(&[a[j] * b[k], a[k] * b[j]]));
    }
    if chance(1, 3) {
        let (x, y) = (vf::<3>(&a), vf::<3>(&b));
        runx("Vector3<float> cross", S, w, size, || vfo(x.cross(y)));
    } else {
        let (x, y) = (vf::<4>(&a), vf::<4>(&b));
        w.push(0.0);
        size.push(0.0);
        runx("Vector4<float> cross", S, w, size, || vfo(x.cross(y)));
    }
}
fn float_norms<const M: usize, const N: usize>() {
    let a = spread(M * N);
    let sq = |a: &[f64]| a.iter().map(|x| x * x).sum::<f64>();
    let l1 = |a: &[f64]| a.iter().map(|x| x.abs()).sum::<f64>();
    let x = mf::<M, N>(&a);
    let r = vf::<N>(&a);
    let b = &a[..N];
    match pick(9) {
        0 => runx("Matrix norm_l2", S, vec![sq(&a).sqrt()], vec![], || vec![x.norm_l2().0]),
        1 => runx("Matrix norm_l2_sqr", S, vec![sq(&a)], vec![], || vec![x.norm_l2_sqr().0]),
        2 => runx("Vector norm_l2", S, vec![sq(b).sqrt()], vec![], || vec![r.norm_l2().0]),
        3 => runx("Vector norm_l2_sqr", S, vec![sq(b)], vec![], || vec![r.norm_l2_sqr().0]),
        4 => runx("Vector length", S, vec![sq(b).sqrt()], vec![], || vec![r.length().0]),
        5 => runx("Vector normalize", S, b.iter().map(|x| x / sq(b).sqrt()).collect(), vec![], || vfo(r.normalize())),
        6 => runx("Vector Normalize::normalize", S, b.iter().map(|x| x / sq(b).sqrt()).collect(), vec![],
            || vfo(Normalize::normalize(r))),
        7 => runx("Vector<float> norm_l1", S, vec![l1(b)], vec![], || vec![r.norm_l1().0]),
        _ => runx("Matrix<float> norm_l1", S, vec![l1(&a)], vec![], || vec![x.norm_l1().0]),
    }
}

// ---------------------------------------------------------------- primitive scalars

/// Floats of any kind as elements of their own.
macro_rules! prim_float {
    ($T:ident, $tol:expr) => {{
        let a: Vec<f64> = wild(4).iter().map(|x| *x as $T as f64).collect();
        let (x, y) = (a[0] as $T, a[1] as $T);
        let f = |x: $T| x as f64;
        match pick(3) {
            0 => runf(concat!("norms of any ", stringify!($T)), S, vec![x.abs() as f64, x.abs() as f64, x.abs() as f64, f(x * x)], $tol, true,
                || vec![NormL1::norm_l1(x) as f64, NormL2::norm_l2(x) as f64, NormLInf::norm_l_inf(x) as f64, NormL2::norm_l2_sqr(x) as f64]),
            1 => runf(concat!("products of any ", stringify!($T)), S, vec![f(x * y), f(x)], $tol, true,
                || vec![Dot::dot(x, y) as f64, Conj::conj(x) as f64]),
            _ => {
                let v = Vector::<$T, 3>::from([a[1] as $T, a[2] as $T, a[3] as $T]);
                let want = (1..4).map(|i| f(a[i] as $T * x)).collect();
                runf(concat!("any ", stringify!($T), " * Vector"), S, want, $tol, true, || (x * v).as_array().iter().map(|y| *y as f64).collect());
            }
        }
    }};
}
/// Vectors and matrices of the numbers built into the language.
fn prim() {
    macro_rules! num {
        ($T:ident, $lim:expr, $off:expr) => {
            num!($T, $lim, $off, |s: i64, v: Vector<$T, 3>| (s as $T) * v)
        };
        ($T:ident, $lim:expr, $off:expr, $rev:expr) => {{
            let s = draw($lim) as i64 - $off;
            let mut draws = || -> Vec<i64> { (0..6).map(|_| draw($lim) as i64 - $off).collect() };
            let (a, b) = (draws(), draws());
            let v = || Vector::<$T, 3>::from(core::array::from_fn::<$T, 3, _>(|i| a[i] as $T));
            let w = || Vector::<$T, 3>::from(core::array::from_fn::<$T, 3, _>(|i| b[i] as $T));
            let m = || Matrix::<$T, 2, 3>::from(core::array::from_fn::<[$T; 3], 2, _>(|i| core::array::from_fn(|j| a[3 * i + j] as $T)));
            match pick(6) {
                0 => {
                    let want = a[..3].iter().map(|y| (y * s) as f64).collect();
                    runf(concat!(stringify!($T), " * Vector"), S, want, 0.0, true,
                        || $rev(s, v()).as_array().iter().map(|y| *y as f64).collect());
                }
                1 => {
                    let abs: Vec<i64> = a.iter().map(|y| y.abs()).collect();
                    let (l1, li) = (abs[..3].iter().sum::<i64>(), *abs[..3].iter().max().unwrap());
                    runf(concat!("norms of Vector<", stringify!($T), ">"), S, vec![l1 as f64, li as f64], 0.0, true,
                        || vec![v().norm_l1() as f64, v().norm_l_inf() as f64]);
                }
                2 => {
                    let abs: Vec<i64> = a.iter().map(|y| y.abs()).collect();
                    let (l1, li) = (abs.iter().sum::<i64>(), *abs.iter().max().unwrap());
                    runf(concat!("norms of Matrix<", stringify!($T), ">"), S, vec![l1 as f64, li as f64], 0.0, true,
                        || vec![m().norm_l1() as f64, m().norm_l_inf() as f64]);
                }
                3 => {
                    let dot: i64 = (0..3).map(|i| a[i] * b[i]).sum();
                    let sqr: i64 = (0..3).map(|i| a[i] * a[i]).sum();
                    runf(concat!("dot of Vector<", stringify!($T), ">"), S, vec![dot as f64, sqr as f64], 0.0, true,
                        || vec![v().dot(w()) as f64, v().square_length() as f64]);
                }
                4 => {
                    let want = (0..2).map(|i| (0..3).map(|j| a[3 * i + j] * b[j]).sum::<i64>() as f64).collect();
                    runf(concat!("Matrix<", stringify!($T), "> * Vector"), S, want, 0.0, true,
                        || m().dot(w()).as_array().iter().map(|y| *y as f64).collect());
                }
                _ => {
                    let (x, y) = (a[0], b[0]);
                    runf(concat!("norms of ", stringify!($T)), S, vec![x.abs() as f64, x.abs() as f64, x.abs() as f64, (x * x) as f64, (x * y) as f64], 0.0, true,
                        || {
                            let (x, y) = (x as $T, y as $T);
                            vec![NormL1::norm_l1(x) as f64, NormL2::norm_l2(x) as f64, NormLInf::norm_l_inf(x) as f64, NormL2::norm_l2_sqr(x) as f64, Dot::dot(x, y) as f64]
                        });
                }
            }
        }};
    }
    match pick(14) {
        10 => num!(usize, 30_000, 0, |s: i64, v: Vector<usize, 3>| v * (s as usize)),
        11 => num!(isize, 50_000, 25_000, |s: i64, v: Vector<isize, 3>| v * (s as isize)),
        12 => prim_float!(f32, 1e-6),
        13 => prim_float!(f64, 1e-13),
        0 => num!(u8, 9, 0),
        1 => num!(u16, 140, 0),
        2 => num!(u32, 30_000, 0),
        3 => num!(u64, 1 << 24, 0),
        4 => num!(i8, 12, 6),
        5 => num!(i16, 200, 100),
        6 => num!(i32, 50_000, 25_000),
        7 => num!(i64, 1 << 25, 1 << 24),
        8 => num!(f32, 2000, 1000),
        _ => num!(f64, 1 << 25, 1 << 24),
    }
}
#[allow(unused_imports)]
use Float as _;
