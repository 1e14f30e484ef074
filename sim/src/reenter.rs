//! Re-entry: a nested library computation started from inside caller code that the library is calling.

use crate::elems::*;
use crate::sim::*;
use num_traits::{One, Zero};
use vecmat::transform::{Affine, Linear, Shift};
use vecmat::{complex::Moebius, traits::Dot, vector::GroupIter, Complex, Matrix, Transform, Vector};

/// Runs with no fault armed and checks its own result.
pub fn reenter() {
    let saved = {
        let s = sim();
        let c = s.cur;
        s.tasks[c].depth += 1;
        (std::mem::take(&mut s.tasks[c].arms), s.tasks[c].fired.take())
    };
    trace(|| "re-entering the library".to_string());
    let (family, tape) = {
        let s = sim();
        (s.family, s.tasks[s.cur].tape.is_some())
    };
    if family < 3 && tape && sdraw(2) == 1 {
        // the same kind of computation, on similar operands
        let seed = sdraw(0);
        crate::conc::nested(seed);
        let s = sim();
        let c = s.cur;
        s.tasks[c].depth -= 1;
        s.tasks[c].arms = saved.0;
        s.tasks[c].fired = saved.1;
        return;
    }
    let k = sdraw(14);
    let a = 2 + sdraw(1000);
    let before = live();
    let ok = match k {
        0 => {
            let v = Vector::<Tok, 3>::init(|| Tok::new(a));
            let w = v.map(|t| t + Tok::new(1));
            let s = w.sum();
            s.get() == 3 * (a + 1)
        }
        1 => {
            let m = Matrix::<Tok, 2, 3>::from([
                [Tok::new(a), Tok::new(a + 1), Tok::new(a + 2)],
                [Tok::new(a + 3), Tok::new(a + 4), Tok::new(a + 5)],
            ]);
            let t = m.transpose();
            t[(0, 1)].get() == a + 3 && t[(2, 0)].get() == a + 2
        }
        2 => {
            let m = Matrix::<Fp, 3, 3>::from([
                [Fp(a), Fp(1), Fp(2)],
                [Fp(3), Fp(a), Fp(4)],
                [Fp(5), Fp(6), Fp(a)],
            ]);
            let d = addm(mulm(a, mulm(a, a)), subm(addm(20, 36), mulm(a, 10 + 24 + 3)));
            m.det().0 == d
        }
        3 => {
            let x = Complex::new(Fp(a), Fp(3));
            let y = x * x.conj();
            y.re().0 == a * a + 9 && y.im().0 == 0
        }
        4 => {
            let v = Vector::<Fp, 4>::from([Fp(a), Fp(1), Fp(2), Fp(3)]);
            let i = Vector::<Fp, 4>::zero();
            v.dot(v).0 == a * a + 14 && v.dot(i).0 == 0
        }
        5 => {
            let mut src = (0..2).map(|i| Tok::new(a + i));
            let short = Vector::<Tok, 3>::try_from_iter(&mut src);
            let mut m = Matrix::<Fp, 2, 2>::fill(Fp(a));
            m += Matrix::fill(Fp(1));
            short.is_none() && m.into_iter().all(|x| x.0 == a + 1)
        }
        6 => {
            // x -> A x + b and back
            let t = Affine::<Fp, 2>::new(
                Shift::from(Vector::from([Fp(a), Fp(7)])),
                Linear::from(Matrix::from([[Fp(1), Fp(0)], [Fp(a), Fp(2)]])),
            );
            let x = Vector::from([Fp(3), Fp(4)]);
            let y = t.apply(x);
            let back = t.inv().apply(y);
            let twice = t.chain(t).apply(x);
            let again = t.apply(y);
            let want = [a + 3, 3 * a + 15];
            y[0].0 == want[0] && y[1].0 == want[1] && back[0].0 == 3 && back[1].0 == 4
                && twice[0].0 == again[0].0 && twice[1].0 == again[1].0
        }
        #[cfg(feature = "rand")]
        7 => crate::rng::nested(a),
        9 => {
            // structural operations in their order
            let mut seen = 0;
            let m = Matrix::<Tok, 3, 2>::init(|| { seen += 1; Tok::new(a + seen) });
            let (p, q) = m.map(|t| { let k = t.get(); (t, Tok::new(k + 100)) }).unzip();
            let p = p.scan(0, |s, t| { *s += t.get(); Tok::new(*s) });
            let mut order = vec![];
            q.transpose().for_each(|t| order.push(t.get()));
            p[(2, 1)].get() == 6 * a + 21 && p[(0, 0)].get() == a + 1 && order == [a + 101, a + 103, a + 105, a + 102, a + 104, a + 106]
        }
        10 => {
            let mut m = Matrix::<Tok, 2, 2>::from([[Tok::new(a), Tok::new(a + 1)], [Tok::new(a + 2), Tok::new(a + 3)]]);
            let n = m.clone();
            for (i, t) in m.iter_mut().enumerate() {
                *t = Tok::new(i as u64);
            }
            let first = m.iter().next().map(|t| t.get());
            let mut it = n.into_iter();
            let (x, y) = (it.next(), it.next());
            drop(it);
            let s = m.fold(0, |s, t| s * 10 + t.get());
            first == Some(0) && x.map(|t| t.get()) == Some(a) && y.map(|t| t.get()) == Some(a + 1) && s == 123
        }
        11 => {
            let mut v = Vector::<Tok, 3>::init(|| Tok::new(a));
            v += Vector::from([Tok::new(1), Tok::new(2), Tok::new(3)]);
            v -= Vector::from([Tok::new(3), Tok::new(2), Tok::new(1)]);
            let mut z = Complex::new(Fp(a), Fp(2));
            z *= Complex::new(Fp(0), Fp(1));
            v[0].get() == a - 2 && v[1].get() == a && v[2].get() == a + 2 && z.re().0 == P - 2 && z.im().0 == a
        }
        12 => {
            let mut src = (0..5).map(|i| Tok::new(a + i));
            let mut g = GroupIter::<_, 2>::new(&mut src);
            let (x, y, z) = (g.next(), g.next(), g.next());
            x.map(|v| v[1].get()) == Some(a + 1) && y.map(|v| v[0].get()) == Some(a + 2) && z.is_none()
        }
        13 => {
            let m = Matrix::<Fp, 2, 2>::from([[Fp(a), Fp(1)], [Fp(2), Fp(3)]]);
            let o = Moebius::from(m);
            let p = o.chain(o).into_matrix();
            let d = m.dot(m);
            p[(0, 0)].0 == a * a + 2 && p == d && m.inv().dot(m) == Matrix::one()
        }
        _ => {
            let v = Vector::<u64, 2>::from([a, 3]);
            let z = Complex::new(a, 1);
            format!("{} {:?}", v, z) == format!("Vector2({}, 3) Complex({}, 1)", a, a)
        }
    };
    let after = live();
    let props = [C02 | C06, C02, C06, C07, C06, C03 | C05, C08, C11, C09, C02, C04, C05, C03, C06 | C07][k as usize];
    if !ok {
        violation(props, "reentry-wrong-result", format!("nested computation {} (argument {}) returned a wrong value", k, a));
    }
    // Other tasks may run in between, so the balance is only meaningful without them.
    if !sim().conc && before != after {
        violation(C01, "reentry-leak", format!("nested computation {} changed the number of live elements by {}", k, after - before));
    }
    let s = sim();
    let c = s.cur;
    s.tasks[c].depth -= 1;
    s.tasks[c].arms = saved.0;
    s.tasks[c].fired = saved.1;
}
