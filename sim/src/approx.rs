//! Approximate equality with scripted component verdicts (C14).

use crate::sim::*;
use approx::{abs_diff_eq, abs_diff_ne, AbsDiffEq};
use vecmat::complex::Moebius;
use vecmat::transform::{Chain, Linear, Rotation2, Rotation3, Scale, Shift};
use vecmat::{Complex, Matrix, Quaternion, Vector};
use core::fmt::Debug;

const S: u32 = C14;

/// A component whose comparisons follow a script: `key` tells which comparison it belongs to and `side` whether
/// that one comes out true, for the epsilon with the right key.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Ap {
    key: u64,
    side: u64,
    eps: u64,
}
const DEFAULT: u64 = 0xE95;
impl AbsDiffEq for Ap {
    type Epsilon = Ap;
    fn default_epsilon() -> Ap {
        seam(Seam::Init, DEFAULT);
        Ap { key: DEFAULT, side: 0, eps: 0 }
    }
    fn abs_diff_eq(&self, o: &Ap, e: Ap) -> bool {
        seam(Seam::Cmp, self.key ^ o.key.rotate_left(20) ^ e.key.rotate_left(40));
        self.key == o.key && self.side == o.side && e.key == self.eps
    }
}

/// Components that can be compared, with a source of operands and of what their comparison must give.
trait Comp: AbsDiffEq<Epsilon = Self> + Copy + Debug + Send + 'static {
    fn operands(n: usize) -> (Vec<Self>, Vec<Self>, Option<Self>, bool);
}
impl Comp for Ap {
    fn operands(n: usize) -> (Vec<Ap>, Vec<Ap>, Option<Ap>, bool) {
        operands(n)
    }
}

/// A number whose comparisons are seams: values repeat, tolerances are none, tiny, the default or large, and
/// there are infinities and values that are not numbers.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Nu(f64);
const NU_DEFAULT: f64 = 0.5;
impl Nu {
    fn near(self, o: Nu, e: Nu) -> bool {
        self.0 == o.0 || (self.0 - o.0).abs() <= e.0
    }
}
impl AbsDiffEq for Nu {
    type Epsilon = Nu;
    fn default_epsilon() -> Nu {
        seam(Seam::Init, DEFAULT);
        Nu(NU_DEFAULT)
    }
    fn abs_diff_eq(&self, o: &Nu, e: Nu) -> bool {
        seam(Seam::Cmp, self.0.to_bits() ^ o.0.to_bits().rotate_left(20) ^ e.0.to_bits().rotate_left(40));
        self.near(*o, e)
    }
}
impl Comp for Nu {
    fn operands(n: usize) -> (Vec<Nu>, Vec<Nu>, Option<Nu>, bool) {
        let span = 1 + draw(4) as i64;
        let wild = chance(1, 6);
        let val = || {
            if wild && chance(1, 5) {
                [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MAX, f64::MIN_POSITIVE][pick(6)]
            } else {
                (draw(2 * span as u64 + 1) as i64 - span) as f64
            }
        };
        let a: Vec<Nu> = (0..n).map(|_| Nu(val())).collect();
        let mut b = a.clone();
        // nothing, one, one row's worth, all; by less or more than the tolerances in use; or a permutation
        let style = pick(6);
        let size = || {
            let d = [0.125, 0.25, 0.375, 0.5, 0.75, 1.0, 1.5, 4.0][pick(8)];
            if chance(1, 2) { d } else { -d }
        };
        let common = size();
        match style {
            0 => (),
            1 if n > 0 => {
                let i = pick(n);
                b[i].0 += size();
            }
            2 => b.iter_mut().for_each(|x| {
                if chance(1, 3) {
                    x.0 += size()
                }
            }),
            3 => b.iter_mut().for_each(|x| x.0 += if chance(1, 2) { common } else { -common }),
            4 if n > 1 => {
                let (i, j) = (pick(n), pick(n));
                b.swap(i, j);
            }
            _ => b.iter_mut().for_each(|x| {
                if chance(1, 3) {
                    x.0 = -x.0
                }
            }),
        }
        let eps = match pick(8) {
            0 | 1 => None,
            2 => Some(0.0),
            3 => Some(0.25),
            4 => Some(0.375),
            5 => Some(common.abs()),
            6 => Some([1.0, 2.0, f64::INFINITY][pick(3)]),
            _ => Some([-1.0, f64::NAN, 0.5][pick(3)]),
        };
        let e = Nu(eps.unwrap_or(NU_DEFAULT));
        let want = a.iter().zip(&b).all(|(x, y)| x.near(*y, e));
        (a, b, eps.map(Nu), want)
    }
}

/// Two lists of components and what their comparison must give.
fn operands(n: usize) -> (Vec<Ap>, Vec<Ap>, Option<Ap>, bool) {
    let default = chance(1, 4);
    let eps = if default { DEFAULT } else { 0x1000 + draw(1 << 20) };
    let mut a: Vec<Ap> = vec![];
    for i in 0..n {
        a.push(Ap { key: 1 + i as u64 + (draw(1 << 16) << 8), side: draw(2), eps });
    }
    let mut b = a.clone();
    let mut want = true;
    let style = pick(4);
    for x in b.iter_mut() {
        let flip = match style {
            0 => false,
            1 => chance(1, n.max(2) as u64),
            2 => chance(1, 2),
            _ => true,
        };
        if flip {
            x.side ^= 1;
            want = false;
        }
    }
    (a, b, if default { None } else { Some(Ap { key: eps, side: 0, eps: 0 }) }, want)
}
fn compare<A: Comp, T: AbsDiffEq<Epsilon = A> + Copy>(name: &str, n: usize, make: impl Fn(&[A]) -> T) {
    if n == 0 {
        extra(X::ZeroDim);
    }
    for _ in 0..1 + pick(3) {
        let (a, b, eps, want) = A::operands(n);
        let (x, y) = (make(&a), make(&b));
        trace(|| format!("{} {:?} ~ {:?} within {:?}: {}", name, a, b, eps, want));
        let ne = chance(1, 4);
        // an object may be compared with itself
        let same = chance(1, 3) && format!("{:?}", a) == format!("{:?}", b);
        for k in 0..4 {
            let mask = if k < 2 { ALL_SEAMS } else { 0 };
            let r = exec(name, S, mask, || match (eps, ne) {
                (Some(e), _) if same => x.abs_diff_eq(&x, e),
                (None, _) if same => x.abs_diff_eq(&x, T::default_epsilon()),
                (Some(e), false) => abs_diff_eq!(x, y, epsilon = e),
                (Some(e), true) => !abs_diff_ne!(x, y, epsilon = e),
                (None, false) => abs_diff_eq!(x, y),
                (None, true) => !abs_diff_ne!(x, y),
            });
            match r {
                Ok(r) => {
                    if r != want {
                        violation(S, format!("verdict:{}", name),
                            format!("{}: approximate equality is {}, the components say {}", name, r, want));
                    }
                    break;
                }
                Err(Stop::Injected) => extra(X::Retry),
                Err(_) => break,
            }
        }
        if !sim().viol.is_empty() {
            return;
        }
    }
}
fn v<A: Copy, const N: usize>(a: &[A]) -> Vector<A, N> {
    core::array::from_fn::<A, N, _>(|i| a[i]).into()
}
fn m<A: Copy, const M: usize, const N: usize>(a: &[A]) -> Matrix<A, M, N> {
    core::array::from_fn::<[A; N], M, _>(|i| core::array::from_fn(|j| a[i * N + j])).into()
}
fn program() {
    if chance(1, 2) {
        family::<Ap>()
    } else {
        family::<Nu>()
    }
}
fn family<A: Comp>() {
    match pick(42) {
        0 => compare("Vector0", 0, v::<A, 0>),
        1 => compare("Vector1", 1, v::<A, 1>),
        2 => compare("Vector2", 2, v::<A, 2>),
        3 => compare("Vector3", 3, v::<A, 3>),
        4 => compare("Vector5", 5, v::<A, 5>),
        5 => compare("Matrix0x2", 0, m::<A, 0, 2>),
        6 => compare("Matrix2x0", 0, m::<A, 2, 0>),
        7 => compare("Matrix1x3", 3, m::<A, 1, 3>),
        8 => compare("Matrix3x1", 3, m::<A, 3, 1>),
        9 => compare("Matrix2x3", 6, m::<A, 2, 3>),
        10 => compare("Matrix3x3", 9, m::<A, 3, 3>),
        11 | 12 => compare("Complex", 2, |a: &[A]| Complex::new(a[0], a[1])),
        13 | 14 => compare("Quaternion", 4, |a: &[A]| Quaternion::new(a[0], a[1], a[2], a[3])),
        15 | 16 => compare("Moebius", 4, |a: &[A]| Moebius::new(a[0], a[1], a[2], a[3])),
        17 => compare("Shift2", 2, |a: &[A]| Shift::from(v::<A, 2>(a))),
        18 => compare("Shift3", 3, |a: &[A]| Shift::from(v::<A, 3>(a))),
        19 => compare("Linear2", 4, |a: &[A]| Linear::from(m::<A, 2, 2>(a))),
        20 => compare("Linear3", 9, |a: &[A]| Linear::from(m::<A, 3, 3>(a))),
        21 => compare("Scale", 1, |a: &[A]| Scale::from(a[0])),
        22 => compare("Rotation2", 2, |a: &[A]| Rotation2::from(Complex::new(a[0], a[1]))),
        23 => compare("Rotation3", 4, |a: &[A]| Rotation3::from(Quaternion::new(a[0], a[1], a[2], a[3]))),
        24 => compare("Chain of Shift and Scale", 3, |a: &[A]| Chain::<_, _, A>::new(Shift::from(v::<A, 2>(a)), Scale::from(a[2]))),
        25 => compare("Chain of Rotation2 and Linear", 6, |a: &[A]| Chain::<_, _, A>::new(Rotation2::from(Complex::new(a[0], a[1])), Linear::from(m::<A, 2, 2>(&a[2..])))),
        26 => compare("Vector9", 9, v::<A, 9>),
        27 => compare("Vector17", 17, v::<A, 17>),
        28 => compare("Matrix4x5", 20, m::<A, 4, 5>),
        29 => compare("Matrix7x2", 14, m::<A, 7, 2>),
        30 => compare("Matrix4x4", 16, m::<A, 4, 4>),
        31 => compare("Vector4", 4, v::<A, 4>),
        32 => compare("Vector6", 6, v::<A, 6>),
        33 => compare("Vector7", 7, v::<A, 7>),
        34 => compare("Vector8", 8, v::<A, 8>),
        35 => compare("Matrix2x2", 4, m::<A, 2, 2>),
        36 => compare("Matrix1x1", 1, m::<A, 1, 1>),
        37 => compare("Matrix6x6", 36, m::<A, 6, 6>),
        38 => match pick(3) {
            0 => compare("Matrix5x1", 5, m::<A, 5, 1>),
            1 => compare("Matrix3x8", 24, m::<A, 3, 8>),
            _ => compare("Matrix8x3", 24, m::<A, 8, 3>),
        },
        39 => match pick(3) {
            0 => compare("Shift1", 1, |a: &[A]| Shift::from(v::<A, 1>(a))),
            1 => compare("Shift4", 4, |a: &[A]| Shift::from(v::<A, 4>(a))),
            _ => compare("Shift5", 5, |a: &[A]| Shift::from(v::<A, 5>(a))),
        },
        40 => match pick(3) {
            0 => compare("Linear1", 1, |a: &[A]| Linear::from(m::<A, 1, 1>(a))),
            1 => compare("Linear4", 16, |a: &[A]| Linear::from(m::<A, 4, 4>(a))),
            _ => compare("Linear5", 25, |a: &[A]| Linear::from(m::<A, 5, 5>(a))),
        },
        _ => compare("Matrix9x9", 81, m::<A, 9, 9>),
    }
}
pub fn machine() {
    swarm();
    if sdraw(2) == 1 {
        let n = 2 + sdraw(3) as usize;
        let jobs = (0..n).map(|_| {
            let job: Box<dyn FnOnce() + Send> = Box::new(program);
            (None, job)
        });
        run_tasks(jobs.collect());
    } else {
        program();
    }
}
