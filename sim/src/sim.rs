//! The simulator core: one choice source, one event log, fault arms, and a cooperative scheduler.
//!
//! Exactly one thread runs at any moment (it holds the baton), so the state below needs no lock.
//! Every decision - operands, histories, faults, who runs next - is taken by `draw`; a run is a pure
//! function of the list of drawn numbers and of the code under test.

use std::any::Any;
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- properties

pub const fn bit(n: u32) -> u32 {
    1 << n
}
pub const C01: u32 = bit(1);
pub const C02: u32 = bit(2);
pub const C03: u32 = bit(3);
pub const C04: u32 = bit(4);
pub const C05: u32 = bit(5);
pub const C06: u32 = bit(6);
pub const C07: u32 = bit(7);
pub const C08: u32 = bit(8);
pub const C09: u32 = bit(9);
pub const C10: u32 = bit(10);
pub const C11: u32 = bit(11);
pub const C12: u32 = bit(12);
pub const C14: u32 = bit(14);

// ---------------------------------------------------------------- seams and faults

/// Kinds of calls from the library into simulated caller code.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Seam {
    Op,
    OpAssign,
    Cmp,
    Clone,
    Init,
    Closure,
    Pull,
    IntoIter,
    Drop,
    Fmt,
    Sink,
    Rng,
    Inner,
    Body,
}
pub const SEAMS: &[Seam] = &[
    Seam::Op,
    Seam::OpAssign,
    Seam::Cmp,
    Seam::Clone,
    Seam::Init,
    Seam::Closure,
    Seam::Pull,
    Seam::IntoIter,
    Seam::Drop,
    Seam::Fmt,
    Seam::Sink,
    Seam::Rng,
    Seam::Inner,
    Seam::Body,
];
pub fn seam_name(s: Seam) -> &'static str {
    match s {
        Seam::Op => "panic_in_operator",
        Seam::OpAssign => "panic_in_assign_operator",
        Seam::Cmp => "panic_in_comparison",
        Seam::Clone => "panic_in_clone",
        Seam::Init => "panic_in_default_or_zero_or_one",
        Seam::Closure => "panic_in_closure",
        Seam::Pull => "panic_in_source_pull",
        Seam::IntoIter => "panic_in_into_iter",
        Seam::Drop => "panic_in_destructor",
        Seam::Fmt => "panic_in_component_formatter",
        Seam::Sink => "panic_in_sink",
        Seam::Rng => "panic_in_generator",
        Seam::Inner => "panic_in_inner_distribution",
        Seam::Body => "panic_in_loop_body",
    }
}

/// Counters for faults that are not plain panics at a seam, and for reach probes.
pub const EXTRA: &[&str] = &[
    "preemption",
    "reentry",
    "torn_assign_operator",
    "division_by_zero",
    "source_ended_early",
    "source_resumed_after_end",
    "source_infinite",
    "source_lying_hint",
    "iterator_abandoned",
    "iterator_resumed_after_panic",
    "sink_error",
    "sink_torn_write",
    "component_formatter_error",
    "rng_stuck_phase",
    "rng_biased_phase",
    "rng_periodic_phase",
    "rng_extreme_phase",
    "rng_burst_words",
    "retry_after_crash",
    "unshared_rng",
    "shared_rng",
    "sample_rejected",
    "zero_dimension",
    "aborted_operation",
    "empty_subsequence",
    "compiler_lost_result",
    "reentry_during_cleanup",
];
pub const NEXTRA: usize = 27;
/// Those of `EXTRA` that are not faults or disturbances but only say what a run reached.
pub const PROBES: &[X] = &[X::Retry, X::RngOwn, X::RngShared, X::Rejected, X::ZeroDim, X::Aborted, X::EmptySub, X::CompilerLeak];
#[derive(Clone, Copy, PartialEq)]
#[repr(usize)]
pub enum X {
    Preempt,
    Reenter,
    Torn,
    DivZero,
    SrcShort,
    SrcResume,
    SrcInf,
    SrcHint,
    Abandon,
    Resume,
    SinkErr,
    SinkTorn,
    FmtErr,
    RngStuck,
    RngBias,
    RngPeriod,
    RngExtreme,
    RngBurst,
    Retry,
    RngOwn,
    RngShared,
    Rejected,
    ZeroDim,
    Aborted,
    EmptySub,
    CompilerLeak,
    Cleanup,
}

// ---------------------------------------------------------------- unwinding payloads

/// A panic injected by the simulator into caller code.
pub struct Injected(pub u32);
/// Natural failure of the exact scalar: division by zero.
pub struct DivZero;
/// The run used more steps than any correct execution may.
pub struct StepCap;

pub enum Stop {
    Injected,
    DivZero,
    Foreign(String),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: u32,
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Panic,
    /// Assignment operators leave a torn value and panic; elsewhere as `Panic`.
    Torn,
    Reenter,
}

#[derive(Clone, Copy)]
pub struct Arm {
    pub mask: u32,
    pub countdown: u32,
    pub act: Act,
    pub id: u32,
}

#[derive(Default)]
pub struct Task {
    pub tape: Option<(Vec<u64>, usize)>,
    pub arms: Vec<Arm>,
    /// Identity of the injected panic that fired and was not accounted for yet.
    pub fired: Option<u32>,
    pub done: bool,
    pub depth: u32,
    /// No faults are planned while this is set (nested computations).
    pub quiet: bool,
    /// Operand lists used lately by the program of this task.
    pub recent: Recent,
}

#[derive(Default, Clone)]
pub struct Recent {
    pub ints: Vec<Vec<u64>>,
    pub flts: Vec<Vec<f64>>,
}

pub struct Rng64(pub u64);
impl Rng64 {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix64(self.0)
    }
}
pub fn mix64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Sim {
    // choices
    gen: Option<Rng64>,
    replay: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    // log
    pub hash: u64,
    pub steps: u64,
    pub cap: u64,
    pub trace: Option<Vec<String>>,
    /// Report choices and trace lines as they happen (runs that kill the process).
    pub live: bool,
    /// Size of the statistical ensembles drawn in this run.
    pub ensemble: u32,
    // tasks
    pub tasks: Vec<Task>,
    pub cur: usize,
    pub conc: bool,
    burst: u32,
    burst_style: u32,
    pub switches: u32,
    // outcome
    pub viol: Vec<Violation>,
    next_id: u32,
    // swarm knobs of this run
    pub p_fault: u64,
    pub p_reenter: u64,
    pub reach: u64,
    pub mask: u32,
    // statistics of this run
    pub fired: [u32; 16],
    pub extra: [u32; NEXTRA],
    pub ops: u32,
    // machine-private logs
    pub calls: Vec<u64>,
    pub foreign_msg: Option<String>,
    /// A destructor fault hit the last operation.
    pub drop_fault: bool,
    /// ... and the operation returns a value with destructors, which rustc itself may then lose.
    pub lossy: bool,
    /// Elements written off for that reason.
    pub lost: i64,
    /// Family of the programs that tasks run (see `conc`).
    pub family: u32,
    // interior of tracked elements
    pub ledger: Ledger,
}

pub struct Global(UnsafeCell<Option<Box<Sim>>>);
unsafe impl Sync for Global {}
static GLOBAL: Global = Global(UnsafeCell::new(None));

/// Short-lived access to the simulator. Callers never hold the reference across a call into the library.
#[allow(clippy::mut_from_ref)]
pub fn sim() -> &'static mut Sim {
    unsafe { (*GLOBAL.0.get()).as_mut().expect("simulator is not running") }
}
pub fn sim_active() -> bool {
    unsafe { (*GLOBAL.0.get()).is_some() }
}

#[derive(Default)]
pub struct Ledger {
    /// 0 = live, 1 = dropped.
    pub dead: Vec<u8>,
    pub vals: Vec<u64>,
    pub live: i64,
    pub zst_live: i64,
}

impl Sim {
    pub fn new(gen: Option<u64>, replay: Vec<u64>, trace: bool) -> Self {
        Sim {
            gen: gen.map(Rng64),
            replay,
            pos: 0,
            rec: Vec::with_capacity(256),
            hash: 0xcbf2_9ce4_8422_2325,
            steps: 0,
            cap: 200_000,
            trace: if trace { Some(vec![]) } else { None },
            live: false,
            ensemble: 0,
            tasks: vec![Task::default()],
            cur: 0,
            conc: false,
            burst: 0,
            burst_style: 0,
            switches: 0,
            viol: vec![],
            next_id: 1,
            p_fault: 0,
            p_reenter: 0,
            reach: 8,
            mask: !0,
            fired: [0; 16],
            extra: [0; NEXTRA],
            ops: 0,
            calls: vec![],
            foreign_msg: None,
            drop_fault: false,
            lossy: false,
            lost: 0,
            family: u32::MAX,
            ledger: Ledger::default(),
        }
    }
    pub fn install(self) {
        unsafe { *GLOBAL.0.get() = Some(Box::new(self)) }
    }
    pub fn take() -> Box<Sim> {
        unsafe { (*GLOBAL.0.get()).take().unwrap() }
    }
    fn raw_draw(&mut self, n: u64) -> u64 {
        if let Some((tape, pos)) = self.tasks[self.cur].tape.as_mut() {
            let v = tape.get(*pos).copied().unwrap_or(0);
            *pos += 1;
            return if n == 0 { v } else { v % n };
        }
        self.sched_draw(n)
    }
    /// Draw that never comes from a task tape (scheduling and fault plans).
    pub fn sched_draw(&mut self, n: u64) -> u64 {
        let v = match self.gen.as_mut() {
            Some(g) => {
                let r = g.next();
                if n == 0 {
                    r
                } else {
                    r % n
                }
            }
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if n == 0 {
                    v
                } else {
                    v % n
                }
            }
        };
        self.rec.push(v);
        if self.live {
            eprintln!("c {}", v);
        }
        v
    }
    pub fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(29)
            ^ (v.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    }
}

// ---------------------------------------------------------------- drawing

/// A number in `0..n` (any word for `n == 0`); 0 is always the simplest choice.
pub fn draw(n: u64) -> u64 {
    let s = sim();
    let v = s.raw_draw(n);
    s.mix(v);
    v
}
pub fn pick(n: usize) -> usize {
    draw(n as u64) as usize
}
/// True with probability `num/den`; the simplest choice is false.
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) >= den - num
}
pub fn sdraw(n: u64) -> u64 {
    let s = sim();
    let v = s.sched_draw(n);
    s.mix(v);
    v
}

pub fn note(v: u64) {
    sim().mix(v)
}
pub fn extra(x: X) {
    sim().extra[x as usize] += 1;
}
pub fn tracing() -> bool {
    sim().trace.is_some()
}
pub fn trace(f: impl FnOnce() -> String) {
    if tracing() {
        let line = f();
        let s = sim();
        let who = if s.conc { format!("[task {}] ", s.cur) } else { String::new() };
        let pad = "  ".repeat(s.tasks[s.cur].depth as usize);
        if s.live {
            eprintln!("T {}{}{}", who, pad, line);
        }
        let t = s.trace.as_mut().unwrap();
        if t.len() < 4000 {
            t.push(format!("{}{}{}", who, pad, line));
        }
    }
}
pub fn violation(props: u32, class: impl Into<String>, msg: impl Into<String>) {
    let (class, mut msg): (String, String) = (class.into(), msg.into());
    if let Some((at, _)) = msg.char_indices().nth(600) {
        msg.truncate(at);
        msg += " ...";
    }
    trace(|| format!("!! VIOLATION {}: {}", class, msg));
    let s = sim();
    if s.viol.len() < 64 {
        s.viol.push(Violation { props, class, msg });
    }
}

// ---------------------------------------------------------------- seams

/// Called by simulated caller code whenever the library calls into it.
/// May run another task, re-enter the library, or panic.  Returns true if the caller should
/// leave a torn value and then call `blow`.
pub fn seam(kind: Seam, val: u64) -> bool {
    let act = {
        let s = sim();
        s.steps += 1;
        let c = s.cur as u64;
        s.mix((kind as u64) << 56 ^ c << 48 ^ val);
        if s.steps > s.cap && !std::thread::panicking() {
            s.cap = u64::MAX;
            resume_unwind(Box::new(StepCap));
        }
        let t = &mut s.tasks[s.cur];
        // caller code that cleans up after a panic does not panic once more, but it may use the library
        let unwinding = std::thread::panicking();
        let mut hit = None;
        for (i, a) in t.arms.iter_mut().enumerate() {
            if a.mask & (1 << kind as u32) != 0 && !(unwinding && a.act != Act::Reenter) {
                if a.countdown == 0 {
                    hit = Some(i);
                    break;
                }
                a.countdown -= 1;
            }
        }
        if hit.is_some() && unwinding {
            s.extra[X::Cleanup as usize] += 1;
        }
        hit.map(|i| t.arms.remove(i))
    };
    if let Some(a) = act {
        match a.act {
            Act::Panic => blow(kind, a.id),
            Act::Torn => {
                if kind == Seam::OpAssign {
                    let s = sim();
                    let c = s.cur;
                    s.tasks[c].fired = Some(a.id);
                    s.extra[X::Torn as usize] += 1;
                    s.fired[kind as usize] += 1;
                    s.mix(0x7042);
                    trace(|| format!("fault #{}: torn {:?}", a.id, kind));
                    return true;
                }
                blow(kind, a.id)
            }
            Act::Reenter => {
                extra(X::Reenter);
                crate::reenter::reenter();
            }
        }
    }
    if sim().conc {
        maybe_switch();
    }
    false
}
fn blow(kind: Seam, id: u32) -> ! {
    {
        let s = sim();
        let c = s.cur;
        s.tasks[c].fired = Some(id);
        s.fired[kind as usize] += 1;
        s.drop_fault |= kind == Seam::Drop;
        s.mix(0xB10);
        if s.p_reenter > 0 && !s.tasks[c].quiet && s.sched_draw(4) == 3 {
            let countdown = s.sched_draw(4) as u32;
            s.tasks[c].arms.push(Arm { mask: ALL_SEAMS, countdown, act: Act::Reenter, id: 0 });
        }
    }
    trace(|| format!("fault #{}: {}", id, seam_name(kind)));
    resume_unwind(Box::new(Injected(id)))
}
/// Finish a torn operation.
pub fn blow_torn() -> ! {
    let id = {
        let s = sim();
        s.tasks[s.cur].fired.unwrap_or(0)
    };
    resume_unwind(Box::new(Injected(id)))
}
pub fn div_zero() -> ! {
    if std::thread::panicking() {
        // Cannot unwind again; the value is irrelevant because the operation is being abandoned.
        std::process::abort();
    }
    extra(X::DivZero);
    resume_unwind(Box::new(DivZero))
}

/// Decide the fault plan of the next library operation of the current task.
pub fn arm(mask: u32) {
    let s = sim();
    let mut arms = vec![];
    let quiet = s.tasks[s.cur].quiet;
    if !quiet && s.p_fault > 0 && s.sched_draw(16) >= 16 - s.p_fault {
        let reach = s.reach;
        let countdown = s.sched_draw(reach) as u32;
        let torn = s.sched_draw(4) == 3;
        let id = s.next_id;
        s.next_id += 1;
        let m = mask & s.mask;
        arms.push(Arm { mask: m, countdown, act: if torn { Act::Torn } else { Act::Panic }, id });
    }
    if !quiet && s.p_reenter > 0 && s.sched_draw(16) >= 16 - s.p_reenter {
        let reach = s.reach;
        let countdown = s.sched_draw(reach) as u32;
        arms.push(Arm { mask, countdown, act: Act::Reenter, id: 0 });
    }
    let c = s.cur;
    s.tasks[c].arms = arms;
    s.tasks[c].fired = None;
}
pub fn disarm() -> Option<u32> {
    let s = sim();
    let c = s.cur;
    s.tasks[c].arms.clear();
    s.tasks[c].fired.take()
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-text payload>".into()
    }
}

pub const ALL_SEAMS: u32 = 0xffff;

/// Run library code with a drawn fault plan; `props` are the properties broken by a panic that is
/// not the caller's.
pub fn exec<R>(name: &str, props: u32, mask: u32, f: impl FnOnce() -> R) -> Result<R, Stop> {
    arm(mask);
    sim().ops += 1;
    trace(|| format!("op {}", name));
    exec_armed(name, props, f)
}
pub fn exec_armed<R>(name: &str, props: u32, f: impl FnOnce() -> R) -> Result<R, Stop> {
    sim().drop_fault = false;
    let r = catch_unwind(AssertUnwindSafe(f));
    // When the destructor of a local panics, rustc leaks the value that its function was about to return
    // (rust-lang/rust#47949), in the library as anywhere: a surplus is then no verdict on the library.
    sim().lossy = sim().drop_fault && std::mem::needs_drop::<R>();
    let fired = disarm();
    let foreign = sim().foreign_msg.take();
    match r {
        Ok(v) => {
            if fired.is_some() {
                violation(props | C01, format!("swallowed-panic:{}", name),
                    format!("{} returned normally although caller code panicked inside it", name));
            }
            Ok(v)
        }
        Err(p) => {
            if let Some(Injected(id)) = p.downcast_ref::<Injected>() {
                if fired != Some(*id) {
                    violation(props | C01, format!("wrong-panic:{}", name),
                        format!("{} delivered injected panic #{} but #{:?} was raised last", name, id, fired));
                }
                extra(X::Aborted);
                Err(Stop::Injected)
            } else if p.is::<DivZero>() {
                if fired.is_some() {
                    violation(props | C01, format!("replaced-panic:{}", name),
                        format!("{} replaced the caller's panic", name));
                }
                Err(Stop::DivZero)
            } else if p.is::<StepCap>() {
                violation(props | C01, format!("no-progress:{}", name),
                    format!("{} did not finish within the step budget", name));
                sim().cap = u64::MAX;
                Err(Stop::Foreign("step cap".into()))
            } else {
                let text = foreign.unwrap_or_else(|| payload_text(&*p));
                if fired.is_some() {
                    violation(props | C01, format!("replaced-panic:{}", name),
                        format!("{} replaced the caller's panic by: {}", name, text));
                } else {
                    violation(props, format!("unexpected-panic:{}", name),
                        format!("{} panicked by itself: {}", name, text));
                }
                Err(Stop::Foreign(text))
            }
        }
    }
}

/// Draw the fault configuration of the run (swarm style).
pub fn swarm() {
    let s = sim();
    // 0 = fault-free run, otherwise operations are hit with probability p/16
    s.p_fault = [0, 2, 6, 12, 15][s.sched_draw(5) as usize];
    s.p_reenter = [0, 0, 1, 4][s.sched_draw(4) as usize];
    s.reach = [1, 3, 8, 20][s.sched_draw(4) as usize];
    s.mask = if s.sched_draw(2) == 0 {
        !0
    } else {
        // random subset of kinds, each present with probability 1/2
        s.sched_draw(1 << 14) as u32 | 1 << 31
    };
}

// ---------------------------------------------------------------- cooperative scheduler

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::thread::{self, Thread};

/// Who holds the baton: task index, or `MAIN`.
static BATON: AtomicUsize = AtomicUsize::new(MAIN);
const MAIN: usize = usize::MAX;
pub const MAX_TASKS: usize = 4;

type Job = (usize, Box<dyn FnOnce() + Send>);
struct Pool {
    tx: Vec<Sender<Job>>,
    th: Vec<Thread>,
    main: Thread,
}
struct PoolCell(UnsafeCell<Option<Pool>>);
unsafe impl Sync for PoolCell {}
static POOL: PoolCell = PoolCell(UnsafeCell::new(None));

fn pool() -> &'static Pool {
    unsafe {
        let p = &mut *POOL.0.get();
        if p.is_none() {
            let mut tx = vec![];
            let mut th = vec![];
            for _ in 0..MAX_TASKS {
                let (t, r): (Sender<Job>, Receiver<Job>) = channel();
                let h = thread::Builder::new().stack_size(4 << 20).spawn(move || {
                    while let Ok((me, job)) = r.recv() {
                        wait_for(me);
                        if catch_unwind(AssertUnwindSafe(job)).is_err() {
                        let text = sim().foreign_msg.take().unwrap_or_default();
                        violation(C06 | C07 | C08 | C11, "panic-outside-fault:task", format!("task ended by a panic: {}", text));
                    }
                        sim().tasks[me].done = true;
                        hand_over_after_end();
                    }
                });
                th.push(h.unwrap().thread().clone());
                tx.push(t);
            }
            *p = Some(Pool { tx, th, main: thread::current() });
        }
        p.as_ref().unwrap()
    }
}
fn wait_for(me: usize) {
    while BATON.load(Ordering::Acquire) != me {
        thread::park();
    }
}
fn give(to: usize) {
    BATON.store(to, Ordering::Release);
    let p = pool();
    if to == MAIN {
        p.main.unpark()
    } else {
        p.th[to].unpark()
    }
}
fn runnable_except(me: usize) -> Vec<usize> {
    let s = sim();
    (0..s.tasks.len()).filter(|&i| i != me && !s.tasks[i].done).collect()
}
fn new_burst() {
    let s = sim();
    s.burst = match s.burst_style {
        0 => u32::MAX,
        1 => 1,
        2 => 1 + s.sched_draw(3) as u32,
        3 => 1 + s.sched_draw(12) as u32,
        _ => 1 + s.sched_draw(60) as u32,
    };
}
fn maybe_switch() {
    {
        let s = sim();
        if s.burst_style == 0 || std::thread::panicking() {
            return;
        }
        if s.burst > 1 {
            s.burst -= 1;
            return;
        }
    }
    switch_now();
}
/// Let the scheduler choose another task now.
pub fn switch_now() {
    if !sim().conc {
        return;
    }
    let me = sim().cur;
    let others = runnable_except(me);
    if others.is_empty() {
        sim().burst = u32::MAX;
        return;
    }
    let k = sim().sched_draw(others.len() as u64) as usize;
    new_burst();
    let to = others[k];
    {
        let s = sim();
        s.switches += 1;
        s.extra[X::Preempt as usize] += 1;
        s.mix(0x5111 ^ (to as u64) << 32);
        s.cur = to;
    }
    give(to);
    wait_for(me);
}
fn hand_over_after_end() {
    let me = sim().cur;
    let others = runnable_except(me);
    if others.is_empty() {
        give(MAIN);
        return;
    }
    let k = sim().sched_draw(others.len() as u64) as usize;
    new_burst();
    let to = others[k];
    sim().mix(0xE4D ^ (to as u64) << 32);
    sim().cur = to;
    give(to);
}

/// Run the jobs as concurrent tasks on separate threads, one at a time, interleaved by the choice source.
/// Each task draws its own data from its tape.
pub fn run_tasks(jobs: Vec<(Option<Vec<u64>>, Box<dyn FnOnce() + Send>)>) {
    let n = jobs.len();
    assert!(n <= MAX_TASKS && n > 0);
    let p = pool();
    let first;
    let saved;
    {
        let s = sim();
        s.burst_style = s.sched_draw(5) as u32;
        saved = std::mem::take(&mut s.tasks);
        s.tasks = (0..n).map(|_| Task::default()).collect();
        first = s.sched_draw(n as u64) as usize;
    }
    for (i, (tape, job)) in jobs.into_iter().enumerate() {
        sim().tasks[i].tape = tape.map(|t| (t, 0));
        p.tx[i].send((i, job)).unwrap();
        // make sure that the thread sees its job before anything else runs
        p.th[i].unpark();
    }
    sim().cur = first;
    sim().conc = true;
    new_burst();
    give(first);
    wait_for(MAIN);
    let s = sim();
    s.conc = false;
    s.cur = 0;
    s.tasks = saved;
}
/// Run a task program alone on the current thread, recording the data it draws.
pub fn record_tape(f: impl FnOnce()) -> Vec<u64> {
    let start = sim().rec.len();
    f();
    sim().rec[start..].to_vec()
}
/// Position on the current task's tape, to repeat an operation.
pub fn tape_pos() -> Option<usize> {
    let s = sim();
    s.tasks[s.cur].tape.as_ref().map(|t| t.1)
}
pub fn set_tape_pos(p: usize) {
    let s = sim();
    let c = s.cur;
    if let Some(t) = s.tasks[c].tape.as_mut() {
        t.1 = p;
    }
}
