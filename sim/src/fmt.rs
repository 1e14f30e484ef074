//! Formatting into sinks that fail, tear or panic, of components whose formatters do too (C09).

use crate::sim::*;
use std::fmt::{Debug, Display, Formatter, Write};
use vecmat::{Complex, Matrix, Quaternion, Vector};

const S: u32 = C09;

// ---------------------------------------------------------------- components

/// A component that prints scripted text in several pieces and may fail at one of them.
#[derive(Clone, Copy, PartialEq)]
struct Cp {
    id: u64,
    /// Fails at this piece.
    fail: Option<u8>,
}
const PIECES: &[&str] = &["", "x", "-1", "{}", "a, b", "(", ")", "\n", "é", "{", "}}", "  ", "Vector2(", "1.5e-3"];
impl Cp {
    fn pieces(&self, debug: bool) -> Vec<String> {
        let n = (self.id >> 8) % 4;
        let mut r: Vec<String> = (0..n).map(|k| PIECES[((self.id >> (12 + 4 * k)) % PIECES.len() as u64) as usize].to_string()).collect();
        r.push(format!("{}{}", if debug { "#" } else { "" }, self.id % 256));
        r
    }
    fn text(&self, debug: bool) -> String {
        self.pieces(debug).concat()
    }
    fn write(&self, f: &mut Formatter, debug: bool) -> std::fmt::Result {
        let st = FAILED.slot();
        if st.dry {
            st.log.push(self.id);
            return f.write_str(&self.text(debug));
        }
        seam(Seam::Fmt, self.id);
        FAILED.slot().log.push(self.id);
        for (k, p) in self.pieces(debug).iter().enumerate() {
            if self.fail == Some(k as u8) {
                extra(X::FmtErr);
                FAILED.with_it();
                return Err(std::fmt::Error);
            }
            match (self.id >> 4) % 3 {
                0 => f.write_str(p)?,
                1 => write!(f, "{}", p)?,
                _ => {
                    for c in p.chars() {
                        f.write_char(c)?;
                    }
                }
            }
        }
        if self.fail == Some(200) {
            extra(X::FmtErr);
            FAILED.with_it();
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}
impl Debug for Cp {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        self.write(f, true)
    }
}
impl Display for Cp {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        self.write(f, false)
    }
}
/// The formatting under way (per task).
struct State {
    /// A component failed.
    failed: bool,
    /// The components formatted.
    log: Vec<u64>,
    /// No component is to fail.
    dry: bool,
}
const FRESH: State = State { failed: false, log: vec![], dry: false };
struct Failed(std::cell::UnsafeCell<[State; MAX_TASKS]>);
unsafe impl Sync for Failed {}
static FAILED: Failed = Failed(std::cell::UnsafeCell::new([FRESH; MAX_TASKS]));
impl Failed {
    fn slot(&self) -> &mut State {
        unsafe { &mut (*self.0.get())[sim().cur] }
    }
    fn with_it(&self) {
        self.slot().failed = true;
    }
}

// ---------------------------------------------------------------- sinks

struct Sink {
    got: String,
    writes: u32,
    /// Fails at this write (bytes to accept of it).
    fail: Option<(u32, u32)>,
    failed: bool,
    panicked: bool,
    after: u32,
}
impl Sink {
    fn new(fail: Option<(u32, u32)>) -> Sink {
        Sink { got: String::new(), writes: 0, fail, failed: false, panicked: false, after: 0 }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed || self.panicked {
            self.after += 1;
        }
        self.panicked = true;
        seam(Seam::Sink, s.len() as u64);
        self.panicked = false;
        let k = self.writes;
        self.writes += 1;
        note(s.bytes().fold(k as u64, |h, b| h.wrapping_mul(131) ^ b as u64));
        match self.fail {
            Some((at, part)) if at == k => {
                let mut n = (part as usize).min(s.len());
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.got.push_str(&s[..n]);
                extra(if n > 0 { X::SinkTorn } else { X::SinkErr });
                self.failed = true;
                trace(|| format!("sink fails at write {} ({:?}), {} bytes accepted", k, s, n));
                Err(std::fmt::Error)
            }
            _ => {
                self.got.push_str(s);
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- values with their text

trait Text: Debug + Display + PartialEq + Clone {
    fn text(&self, debug: bool) -> String;
    /// The components in their order.
    fn parts(&self, to: &mut Vec<Cp>);
}
impl Text for Cp {
    fn text(&self, debug: bool) -> String {
        Cp::text(self, debug)
    }
    fn parts(&self, to: &mut Vec<Cp>) {
        to.push(*self)
    }
}
impl<T: Text, const N: usize> Text for Vector<T, N> {
    fn text(&self, d: bool) -> String {
        let c: Vec<String> = self.as_array().iter().map(|x| x.text(d)).collect();
        format!("Vector{}({})", N, c.join(", "))
    }
    fn parts(&self, to: &mut Vec<Cp>) {
        self.as_array().iter().for_each(|x| x.parts(to))
    }
}
impl<T: Text, const M: usize, const N: usize> Text for Matrix<T, M, N> {
    fn text(&self, d: bool) -> String {
        let mut r = format!("\nMatrix{}x{}(\n", M, N);
        for row in self.as_array_of_arrays().iter() {
            r.push_str("  ");
            for x in row.iter() {
                r.push_str(&x.text(d));
                r.push_str(", ");
            }
            r.push('\n');
        }
        r + ")\n"
    }
    fn parts(&self, to: &mut Vec<Cp>) {
        self.as_array_of_arrays().iter().flatten().for_each(|x| x.parts(to))
    }
}
impl<T: Text> Text for Complex<T> {
    fn text(&self, d: bool) -> String {
        format!("Complex({}, {})", self.re_ref().text(d), self.im_ref().text(d))
    }
    fn parts(&self, to: &mut Vec<Cp>) {
        self.re_ref().parts(to);
        self.im_ref().parts(to);
    }
}
impl<T: Text> Text for Quaternion<T> {
    fn text(&self, d: bool) -> String {
        format!("Quaternion({}, {}, {}, {})", self.w_ref().text(d), self.x_ref().text(d), self.y_ref().text(d), self.z_ref().text(d))
    }
    fn parts(&self, to: &mut Vec<Cp>) {
        [self.w_ref(), self.x_ref(), self.y_ref(), self.z_ref()].into_iter().for_each(|x| x.parts(to))
    }
}

// ---------------------------------------------------------------- histories

/// The components of the next value; sometimes one of them fails to print.
struct Maker {
    bad: Option<usize>,
    at: usize,
}
impl Maker {
    fn cp(&mut self) -> Cp {
        let id = draw(1 << 28);
        let fail = if self.bad == Some(self.at) { Some([0, 1, 2, 200][pick(4)]) } else { None };
        self.at += 1;
        Cp { id, fail }
    }
    fn vec<const N: usize>(&mut self) -> Vector<Cp, N> {
        core::array::from_fn::<Cp, N, _>(|_| self.cp()).into()
    }
    fn mat<const M: usize, const N: usize>(&mut self) -> Matrix<Cp, M, N> {
        core::array::from_fn::<[Cp; N], M, _>(|_| core::array::from_fn(|_| self.cp())).into()
    }
    fn complex(&mut self) -> Complex<Cp> {
        Complex::new(self.cp(), self.cp())
    }
}
fn history<T: Text>(name: &str, size: usize, v: T) {
    if size == 0 {
        extra(X::ZeroDim);
    }
    let keep = v.clone();
    for _ in 0..1 + pick(4) {
        let debug = pick(2) == 1;
        let full = v.text(debug);
        let nth = match pick(3) {
            0 => None,
            1 => Some(pick(6) as u32),
            _ => Some(pick(4 + 6 * size) as u32),
        };
        let fail = nth.map(|n| (n, pick(4) as u32));
        trace(|| format!("text {:?}, sink fault {:?}", full, fail));
        *FAILED.slot() = FRESH;
        let flags = if pick(4) == 3 { 1 + pick(FLAGS) } else { 0 };
        let mut sink = Sink::new(fail);
        let style = pick(3);
        let mut parts = vec![];
        v.parts(&mut parts);
        let ids: Vec<u64> = parts.iter().map(|x| x.id).collect();
        if flags > 0 {
            with_flags(name, &v, flags - 1, debug, fail, &parts, &ids);
            if v != keep {
                violation(S, format!("changed:{}", name), format!("{}: the value has changed", name));
            }
            continue;
        }
        let nm = format!("{} of {}", if debug { "Debug" } else { "Display" }, name);
        let r = exec(&nm, S, ALL_SEAMS, || {
            let s = &mut sink;
            match (style, debug) {
                (0, false) => write!(s, "{}", v),
                (0, true) => write!(s, "{:?}", v),
                (1, false) => s.write_fmt(format_args!("{}", &&v)),
                (1, true) => s.write_fmt(format_args!("{0:?}", &&v)),
                // the caller goes on only after a success
                (_, false) => write!(s, "{}", v).and_then(|_| s.write_str("|")),
                (_, true) => write!(s, "{:?}", v).and_then(|_| s.write_str("|")),
            }
        });
        let whole = if style == 2 { full + "|" } else { full };
        let failed = sink.failed || FAILED.slot().failed;
        let say = |class: &str, msg: String| violation(S, format!("{}:{}", class, nm), format!("{}: {}", nm, msg));
        if sink.after > 0 {
            say("write-after-failure", format!("{} further writes to a sink that had failed", sink.after));
        }
        if !whole.starts_with(&sink.got) {
            say("text", format!("the sink received {:?}, which is no prefix of {:?}", sink.got, whole));
        }
        match r {
            Ok(Ok(())) => {
                if failed {
                    say("lost-error", "reported success although writing had failed".to_string());
                } else if sink.got != whole {
                    say("text", format!("the sink received {:?}, expected {:?}", sink.got, whole));
                }
            }
            Ok(Err(_)) => {
                if !failed {
                    say("made-up-error", "reported an error although nothing had failed".to_string());
                }
            }
            Err(Stop::Injected) => {
                if failed {
                    say("went-on", "went on to other caller code after a failure".to_string());
                }
            }
            Err(_) => {}
        }
        if v != keep {
            say("changed", "the value has changed".to_string());
        }
        if !sim().viol.is_empty() {
            return;
        }
    }
}
const FLAGS: usize = 9;
fn flagged<T: Text>(s: &mut Sink, v: &T, flags: usize, debug: bool) -> std::fmt::Result {
    match (flags, debug) {
        (0, false) => write!(s, "{:#}", v),
        (0, true) => write!(s, "{:#?}", v),
        (1, false) => write!(s, "{:.2}", v),
        (1, true) => write!(s, "{:.2?}", v),
        (2, false) => write!(s, "{:7}", v),
        (2, true) => write!(s, "{:7?}", v),
        (3, false) => write!(s, "{:0}", v),
        (3, true) => write!(s, "{:0?}", v),
        (4, false) => write!(s, "{:+}", v),
        (4, true) => write!(s, "{:+?}", v),
        (5, false) => write!(s, "{:*^40.0}", v),
        (5, true) => write!(s, "{:*^40.0?}", v),
        (6, false) => write!(s, "{:>300}", v),
        (6, true) => write!(s, "{:>300?}", v),
        (7, false) => write!(s, "{:#08.3}", v),
        (7, true) => write!(s, "{:#08.3?}", v),
        (_, false) => write!(s, "{:1$.0}", v, 0),
        (_, true) => write!(s, "{:1$.0?}", v, 0),
    }
}
/// What flags make of the layout is not documented. Still every component is there, once and in its order, and a
/// sink that fails receives a prefix of what a healthy sink does.
fn with_flags<T: Text>(name: &str, v: &T, flags: usize, debug: bool, fail: Option<(u32, u32)>, parts: &[Cp], ids: &[u64]) {
    let nm = format!("flagged {} of {}", if debug { "Debug" } else { "Display" }, name);
    let say = |class: &str, msg: String| violation(S, format!("{}:{}", class, nm), format!("{} (flags {}): {}", nm, flags, msg));
    FAILED.slot().dry = true;
    let mut healthy = Sink::new(None);
    let r = exec(&nm, S, 0, || flagged(&mut healthy, v, flags, debug));
    let st = std::mem::replace(FAILED.slot(), FRESH);
    if !matches!(r, Ok(Ok(()))) {
        return say("made-up-error", "fails although nothing else does".to_string());
    }
    let whole = healthy.got;
    let mut rest = &whole[..];
    for p in parts {
        let t = p.text(debug);
        match rest.find(&t) {
            Some(i) => rest = &rest[i + t.len()..],
            None => return say("text", format!("component {:?} is missing from {:?}", t, whole)),
        }
    }
    if st.log != ids {
        return say("components", format!("the components {:?} were formatted, expected {:?}", st.log, ids));
    }
    let mut sink = Sink::new(fail);
    let r = exec(&nm, S, ALL_SEAMS, || flagged(&mut sink, v, flags, debug));
    let st = std::mem::replace(FAILED.slot(), FRESH);
    let failed = sink.failed || st.failed;
    if sink.after > 0 {
        say("write-after-failure", format!("{} further writes to a sink that had failed", sink.after));
    }
    if !whole.starts_with(&sink.got) {
        say("text", format!("the sink received {:?}, which is no prefix of {:?}", sink.got, whole));
    }
    if !ids.starts_with(&st.log) {
        say("components", format!("the components {:?} were formatted, expected {:?}", st.log, ids));
    }
    match r {
        Ok(Ok(())) if failed => say("lost-error", "reported success although writing had failed".to_string()),
        Ok(Ok(())) if sink.got != whole => say("text", format!("the sink received {:?}, expected {:?}", sink.got, whole)),
        Ok(Err(_)) if !failed => say("made-up-error", "reported an error although nothing had failed".to_string()),
        Err(Stop::Injected) if failed => say("went-on", "went on to other caller code after a failure".to_string()),
        _ => {}
    }
}
fn program() {
    macro_rules! vecs {
        ($k:expr, $mk:expr; $($n:literal)*) => { match $k { $( $n => history(concat!("Vector", $n), $n, $mk.vec::<$n>()), )* _ => {} } };
    }
    macro_rules! mats {
        ($k:expr, $mk:expr; $($i:literal $m:literal $n:literal)*) => {
            match $k { $( $i => history(concat!("Matrix", $m, "x", $n), $m * $n, $mk.mat::<$m, $n>()), )* _ => {} }
        };
    }
    let bad = if chance(1, 4) { Some(pick(8)) } else { None };
    let mut mk = Maker { bad, at: 0 };
    match pick(16) {
        0..=4 => {
            let k = match pick(48) {
                0 => 40,
                1..=16 => 7 + pick(7),
                _ => pick(7),
            };
            vecs!(k, mk; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 40);
        }
        5..=9 => {
            let k = pick(18);
            mats!(k, mk; 0 0 0  1 0 2  2 3 0  3 1 1  4 1 3  5 3 1  6 2 2  7 2 3  8 3 2  9 3 3  10 4 4  11 1 0  12 4 2  13 5 5  14 10 2  15 2 11  16 1 10  17 12 1);
        }
        10..=11 => history("Complex", 2, mk.complex()),
        12 => {
            let q = Quaternion::new(mk.cp(), mk.cp(), mk.cp(), mk.cp());
            history("Quaternion", 4, q)
        }
        13 => {
            let v: Vector<Complex<Cp>, 2> = [mk.complex(), mk.complex()].into();
            history("Vector of Complex", 4, v)
        }
        14 => {
            let m: Matrix<Vector<Cp, 2>, 2, 1> = [[mk.vec::<2>()], [mk.vec::<2>()]].into();
            history("Matrix of Vector", 4, m)
        }
        _ => {
            let c = Complex::new(mk.mat::<1, 2>(), mk.mat::<1, 2>());
            history("Complex of Matrix", 4, c)
        }
    }
}
pub fn machine() {
    swarm();
    // without it most of the destructive faults would come from panics
    if sdraw(2) == 0 {
        sim().p_fault = 0;
    }
    if sdraw(3) == 2 {
        let n = 2 + sdraw(2) as usize;
        let jobs = (0..n).map(|_| {
            let job: Box<dyn FnOnce() + Send> = Box::new(program);
            (None, job)
        });
        run_tasks(jobs.collect());
    } else {
        for _ in 0..1 + sdraw(2) {
            program();
            if !sim().viol.is_empty() {
                return;
            }
        }
    }
}
