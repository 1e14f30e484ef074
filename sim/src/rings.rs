//! Vectors and matrices over scalars whose operators are not commutative or are themselves several operations:
//! complex numbers, quaternions, vectors and plain terms (C06).

use crate::assign::BIN;
use crate::conc::*;
use crate::elems::*;
use crate::sim::*;
use crate::util::*;
use num_traits::{Inv, One, Zero};
use std::ops::*;
use vecmat::traits::{Dot, Outer};
use vecmat::{Complex, Matrix, Quaternion, Vector};

const S: u32 = C06;

// ---------------------------------------------------------------- rings

/// A scalar with its model: four numbers, of which `K` count.
trait Ring: Copy + PartialEq + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> + 'static {
    const K: usize;
    const NAME: &'static str;
    fn make(a: [u64; 4]) -> Self;
    fn read(&self) -> [u64; 4];
    fn times(a: [u64; 4], b: [u64; 4]) -> [u64; 4];
}
impl Ring for Complex<Fp> {
    const K: usize = 2;
    const NAME: &'static str = "complex";
    fn make(a: [u64; 4]) -> Self {
        Complex::new(Fp(a[0]), Fp(a[1]))
    }
    fn read(&self) -> [u64; 4] {
        [self.re().0, self.im().0, 0, 0]
    }
    fn times(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
        let c = cmul([a[0], a[1]], [b[0], b[1]]);
        [c[0], c[1], 0, 0]
    }
}
impl Ring for Quaternion<Fp> {
    const K: usize = 4;
    const NAME: &'static str = "quaternion";
    fn make(a: [u64; 4]) -> Self {
        Quaternion::from(a.map(Fp))
    }
    fn read(&self) -> [u64; 4] {
        let a: [Fp; 4] = (*self).into();
        a.map(|x| x.0)
    }
    fn times(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
        qmul(a, b)
    }
}
impl Ring for Vector<Fp, 3> {
    const K: usize = 3;
    const NAME: &'static str = "vector";
    fn make(a: [u64; 4]) -> Self {
        [Fp(a[0]), Fp(a[1]), Fp(a[2])].into()
    }
    fn read(&self) -> [u64; 4] {
        let a = self.as_array();
        [a[0].0, a[1].0, a[2].0, 0]
    }
    fn times(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
        core::array::from_fn(|i| mulm(a[i], b[i]))
    }
}
type Q = [u64; 4];
fn plus(a: Q, b: Q) -> Q {
    core::array::from_fn(|i| addm(a[i], b[i]))
}
fn minus(a: Q, b: Q) -> Q {
    core::array::from_fn(|i| subm(a[i], b[i]))
}
fn quads<R: Ring>(n: usize) -> Vec<Q> {
    let a = ints(n * R::K);
    a.chunks(R::K).map(|c| core::array::from_fn(|i| if i < R::K { c[i] } else { 0 })).collect()
}
fn flat(a: &[Q]) -> Vec<u64> {
    a.concat()
}
fn vr<R: Ring, const N: usize>(a: &[Q]) -> Vector<R, N> {
    core::array::from_fn::<R, N, _>(|i| R::make(a[i])).into()
}
fn mr<R: Ring, const M: usize, const N: usize>(a: &[Q]) -> Matrix<R, M, N> {
    core::array::from_fn::<[R; N], M, _>(|i| core::array::from_fn(|j| R::make(a[i * N + j]))).into()
}
fn vro<R: Ring, const N: usize>(a: Vector<R, N>) -> Vec<u64> {
    a.as_array().iter().flat_map(|x| x.read()).collect()
}
fn mro<R: Ring, const M: usize, const N: usize>(a: Matrix<R, M, N>) -> Vec<u64> {
    a.as_array_of_arrays().iter().flatten().flat_map(|x| x.read()).collect()
}
fn product<R: Ring>(l: usize, m: usize, n: usize, a: &[Q], b: &[Q]) -> Vec<Q> {
    (0..l * n).map(|k| (0..m).fold([0; 4], |s, t| plus(s, R::times(a[k / n * m + t], b[t * n + k % n])))).collect()
}
fn ring<R: Ring, const L: usize, const M: usize, const N: usize>() {
    let nm = |x: &str| format!("{} over {}", x, R::NAME);
    match pick(10) {
        0 => {
            let (a, b) = (quads::<R>(L * M), quads::<R>(M * N));
            let (x, y) = (mr::<R, L, M>(&a), mr::<R, M, N>(&b));
            run(&nm("Matrix dot Matrix"), S, Some(flat(&product::<R>(L, M, N, &a, &b))), || mro(x.dot(y)));
        }
        1 => {
            let (a, b) = (quads::<R>(M * N), quads::<R>(N));
            let (x, y) = (mr::<R, M, N>(&a), vr::<R, N>(&b));
            run(&nm("Matrix dot Vector"), S, Some(flat(&product::<R>(M, N, 1, &a, &b))), || vro(x.dot(y)));
        }
        2 => {
            let (a, b) = (quads::<R>(M), quads::<R>(M * N));
            let (x, y) = (vr::<R, M>(&a), mr::<R, M, N>(&b));
            run(&nm("Vector dot Matrix"), S, Some(flat(&product::<R>(1, M, N, &a, &b))), || vro(x.dot(y)));
        }
        3 => {
            let (a, b) = (quads::<R>(M), quads::<R>(N));
            let (x, y) = (vr::<R, M>(&a), vr::<R, N>(&b));
            run(&nm("Vector outer Vector"), S, Some(flat(&product::<R>(M, 1, N, &a, &b))), || mro(x.outer(y)));
        }
        4 => {
            let (a, b) = (quads::<R>(N), quads::<R>(N));
            let (x, y) = (vr::<R, N>(&a), vr::<R, N>(&b));
            run(&nm("Vector dot Vector"), S, Some(flat(&product::<R>(1, N, 1, &a, &b))), || x.dot(y).read().to_vec());
        }
        5 => {
            let a = quads::<R>(N);
            let x = vr::<R, N>(&a);
            let (s, q) = (a.iter().fold([0; 4], |s, x| plus(s, *x)), a.iter().fold([0; 4], |s, x| plus(s, R::times(*x, *x))));
            run(&nm("Vector sum and square_length"), S, Some(flat(&[s, q])), || {
                let mut r = x.sum().read().to_vec();
                r.extend(x.square_length().read());
                r
            });
        }
        6 => {
            let a = quads::<R>(M * N);
            let x = mr::<R, M, N>(&a);
            let s = a.iter().fold([0; 4], |s, x| plus(s, *x));
            let t: Vec<Q> = (0..N * M).map(|k| a[k % M * N + k / M]).collect();
            run(&nm("Matrix sum and transpose"), S, Some([s.to_vec(), flat(&t)].concat()), || {
                let mut r = x.sum().read().to_vec();
                r.extend(mro(x.transpose()));
                r
            });
        }
        7 => {
            let (a, s) = (quads::<R>(N), quads::<R>(1)[0]);
            let x = vr::<R, N>(&a);
            run(&nm("Vector * scalar"), S, Some(flat(&a.iter().map(|x| R::times(*x, s)).collect::<Vec<Q>>())), || vro(x * R::make(s)));
        }
        8 => {
            let (a, b) = (quads::<R>(N), quads::<R>(N));
            let (x, y) = (vr::<R, N>(&a), vr::<R, N>(&b));
            let z = |f: &dyn Fn(Q, Q) -> Q| flat(&a.iter().zip(&b).map(|(a, b)| f(*a, *b)).collect::<Vec<Q>>());
            match pick(4) {
                0 => run(&nm("Vector +"), S, Some(z(&plus)), || vro(x + y)),
                1 => run(&nm("Vector -"), S, Some(z(&minus)), || vro(x - y)),
                2 => run(&nm("Vector *"), S, Some(z(&R::times)), || vro(x * y)),
                _ => run(&nm("Vector neg"), S, Some(z(&|a, _| minus([0; 4], a))), || vro(-x)),
            }
        }
        _ => {
            let (a, b) = (quads::<R>(M * N), quads::<R>(M * N));
            let (x, y) = (mr::<R, M, N>(&a), mr::<R, M, N>(&b));
            let s = b[0];
            let z = |f: &dyn Fn(Q, Q) -> Q| flat(&a.iter().zip(&b).map(|(a, b)| f(*a, *b)).collect::<Vec<Q>>());
            match pick(5) {
                0 => run(&nm("Matrix +"), S, Some(z(&plus)), || mro(x + y)),
                1 => run(&nm("Matrix -"), S, Some(z(&minus)), || mro(x - y)),
                2 => run(&nm("Matrix *"), S, Some(z(&R::times)), || mro(x * y)),
                3 => run(&nm("Matrix * scalar"), S, Some(z(&|a, _| R::times(a, s))), || mro(x * R::make(s))),
                _ => run(&nm("Matrix neg"), S, Some(z(&|a, _| minus([0; 4], a))), || mro(-x)),
            }
        }
    }
}

/// Totals of sequences, element by element and in the order of the sequence.
fn totals<R: Ring + Zero + One, const M: usize, const N: usize>() {
    let (c, n) = (M * N, match draw(8) {
        7 => 200 + pick(400) / (M * N).min(2),
        6 => 10 + pick(60),
        _ => pick(10),
    });
    // a long sequence repeats what was drawn
    let a: Vec<Vec<Q>> = (0..n.min(7)).map(|_| quads::<R>(c)).collect();
    let at = |i: usize| &a[(i * i + i / 5) % a.len()];
    let fold = |z: Q, f: fn(Q, Q) -> Q| -> Vec<u64> {
        flat(&(0..n).fold(vec![z; c], |s, i| s.iter().zip(at(i)).map(|(x, y)| f(*x, *y)).collect()))
    };
    let vector = M == 1 && chance(1, 2);
    let what = |f: &str| format!("{} of {} over {}", f, if vector { "Vectors" } else { "Matrices" }, R::NAME);
    let (vs, ms) = (|| (0..n).map(|i| vr::<R, N>(at(i))), || (0..n).map(|i| mr::<R, M, N>(at(i))));
    if chance(1, 3) {
        let want = Some(fold([0; 4], plus));
        match vector {
            true => run(&what("sum"), S, want, || vro(vs().sum::<Vector<R, N>>())),
            false => run(&what("sum"), S, want, || mro(ms().sum::<Matrix<R, M, N>>())),
        }
    } else {
        let want = Some(fold([1, 0, 0, 0], R::times));
        match vector {
            true => run(&what("product"), S, want, || vro(vs().product::<Vector<R, N>>())),
            false => run(&what("product"), S, want, || mro(ms().product::<Matrix<R, M, N>>())),
        }
    }
}

// ---------------------------------------------------------------- a field of several operations

// The numbers a + i b modulo 2^61 - 1 are a field: -1 is no square there.

type Z = [u64; 2];
fn zsub(a: Z, b: Z) -> Z {
    [subm(a[0], b[0]), subm(a[1], b[1])]
}
fn zdet(n: usize, a: &[Z]) -> Z {
    let mut a = a.to_vec();
    let mut d = [1, 0];
    for c in 0..n {
        let Some(p) = (c..n).find(|r| a[r * n + c] != [0, 0]) else { return [0, 0] };
        if p != c {
            for k in 0..n {
                a.swap(p * n + k, c * n + k);
            }
            d = zsub([0, 0], d);
        }
        d = cmul(d, a[c * n + c]);
        let i = cinv(a[c * n + c]).unwrap();
        for r in c + 1..n {
            let f = cmul(a[r * n + c], i);
            for k in c..n {
                a[r * n + k] = zsub(a[r * n + k], cmul(f, a[c * n + k]));
            }
        }
    }
    d
}
fn zcof(n: usize, a: &[Z], i: usize, j: usize) -> Z {
    let s: Vec<Z> = (0..n * n).filter(|k| k / n != i && k % n != j).map(|k| a[k]).collect();
    let d = zdet(n - 1, &s);
    if (i + j) % 2 == 0 { d } else { zsub([0, 0], d) }
}
fn zread(a: &Complex<Fp>) -> Z {
    [a.re().0, a.im().0]
}
fn zsquare<const N: usize>() {
    let a: Vec<Z> = ints(2 * N * N).chunks(2).map(|c| [c[0], c[1]]).collect();
    let x: Matrix<Complex<Fp>, N, N> =
        core::array::from_fn::<[Complex<Fp>; N], N, _>(|i| core::array::from_fn(|j| Complex::new(Fp(a[i * N + j][0]), Fp(a[i * N + j][1])))).into();
    let out = |m: Matrix<Complex<Fp>, N, N>| m.as_array_of_arrays().iter().flatten().flat_map(zread).collect::<Vec<u64>>();
    let adj: Vec<Z> = (0..N * N).map(|k| zcof(N, &a, k % N, k / N)).collect();
    match pick(5) {
        0 => run("Matrix one over complex", S, Some((0..N * N).flat_map(|k| [b2u(k / N == k % N), 0]).collect()),
            || out(Matrix::<Complex<Fp>, N, N>::one())),
        1 => run("Matrix det over complex", S, Some(zdet(N, &a).to_vec()), || zread(&x.det()).to_vec()),
        2 => {
            let (i, j) = (pick(N), pick(N));
            run("Matrix cofactor over complex", S, Some(zcof(N, &a, i, j).to_vec()), || zread(&x.cofactor(i, j)).to_vec());
        }
        3 => run("Matrix adj over complex", S, Some(adj.concat()), || out(x.adj())),
        _ => {
            let want = cinv(zdet(N, &a)).map(|i| adj.iter().flat_map(|x| cmul(*x, i)).collect());
            let k = pick(2);
            run("Matrix inv over complex", S, want, || out(if k == 0 { Matrix::<_, N, N>::inv(&x) } else { Inv::inv(x) }));
        }
    }
}

// ---------------------------------------------------------------- terms

/// Results are terms: each says which operator was applied to what, on which side.
#[derive(Clone, Copy, Debug)]
struct Term(u64);
fn term(k: u64, a: u64, b: u64) -> u64 {
    mix64(mix64(a.wrapping_add(k << 56)) ^ b.rotate_left(7)) | 1
}
macro_rules! terms {
    ($($k:expr, $Tr:ident $f:ident;)*) => {$(
        impl $Tr for Term {
            type Output = Term;
            fn $f(self, o: Term) -> Term {
                seam(Seam::Op, self.0 ^ o.0.rotate_left($k + 1));
                Term(term($k, self.0, o.0))
            }
        }
    )*};
}
terms! { 0, Add add; 1, Sub sub; 2, Mul mul; 3, Div div; 4, Rem rem; 5, BitAnd bitand; 6, BitOr bitor; 7, BitXor bitxor; }
macro_rules! by_bin {
    ($k:expr, $a:expr, $b:expr) => {
        match $k {
            0 => $a + $b,
            1 => $a - $b,
            2 => $a * $b,
            3 => $a / $b,
            4 => $a % $b,
            5 => $a & $b,
            6 => $a | $b,
            _ => $a ^ $b,
        }
    };
}
macro_rules! elementwise {
    ($what:expr, $n:expr, $mk:expr, $rd:expr) => {{
        let (a, b) = (ints($n), ints($n));
        let (x, y) = ($mk(&a), $mk(&b));
        if chance(2, 3) {
            let k = pick(8);
            let want = a.iter().zip(&b).map(|(a, b)| term(k as u64, *a, *b)).collect();
            run(&format!("{} {} of terms", $what, &BIN[k].0[..1]), S, Some(want), || $rd(by_bin!(k, x, y)));
        } else {
            let k = 2 + pick(3);
            let s = arg();
            let want = a.iter().map(|a| term(k as u64, *a, s)).collect();
            run(&format!("{} {} scalar of terms", $what, &BIN[k].0[..1]), S, Some(want), || $rd(match k {
                2 => x * Term(s),
                3 => x / Term(s),
                _ => x % Term(s),
            }));
        }
    }};
}
fn vterms<const N: usize>() {
    elementwise!("Vector", N, |a: &[u64]| -> Vector<Term, N> { core::array::from_fn::<Term, N, _>(|i| Term(a[i])).into() },
        |x: Vector<Term, N>| x.as_array().iter().map(|x| x.0).collect::<Vec<u64>>());
}
fn mterms<const M: usize, const N: usize>() {
    elementwise!("Matrix", M * N,
        |a: &[u64]| -> Matrix<Term, M, N> { core::array::from_fn::<[Term; N], M, _>(|i| core::array::from_fn(|j| Term(a[i * N + j]))).into() },
        |x: Matrix<Term, M, N>| x.as_array_of_arrays().iter().flatten().map(|x| x.0).collect::<Vec<u64>>());
}

pub fn op() {
    match pick(24) {
        20 => totals::<Complex<Fp>, 1, 3>(),
        21 => totals::<Quaternion<Fp>, 1, 2>(),
        22 => totals::<Complex<Fp>, 2, 2>(),
        23 => totals::<Quaternion<Fp>, 2, 1>(),
        0 => ring::<Complex<Fp>, 2, 2, 2>(),
        1 => ring::<Complex<Fp>, 3, 2, 4>(),
        2 => ring::<Quaternion<Fp>, 2, 2, 2>(),
        3 => ring::<Quaternion<Fp>, 2, 3, 4>(),
        4 => ring::<Quaternion<Fp>, 3, 3, 3>(),
        5 => ring::<Quaternion<Fp>, 4, 4, 4>(),
        6 => ring::<Quaternion<Fp>, 1, 5, 3>(),
        7 => ring::<Vector<Fp, 3>, 2, 3, 2>(),
        8 => ring::<Vector<Fp, 3>, 3, 3, 3>(),
        9 => zsquare::<1>(),
        10 | 11 => zsquare::<2>(),
        12 | 13 => zsquare::<3>(),
        14 => zsquare::<4>(),
        15 => vterms::<3>(),
        16 => vterms::<4>(),
        17 => vterms::<7>(),
        18 => mterms::<2, 3>(),
        _ => mterms::<4, 4>(),
    }
}
