//! Execution of single runs inside a worker process.

use crate::sim::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Machine {
    pub name: &'static str,
    /// Properties whose violation a crash of this machine is.
    pub props: u32,
    pub f: fn(),
}
pub const MACHINES: &[Machine] = &[
    Machine { name: "hist", props: C01 | C02, f: crate::hist::machine },
    Machine { name: "iter", props: C01 | C04, f: crate::iter::machine },
    Machine { name: "assign", props: C01 | C05, f: crate::assign::machine },
    Machine { name: "stream", props: C01 | C03, f: crate::stream::machine },
    Machine { name: "vecops", props: C06, f: crate::conc::vec_machine },
    Machine { name: "numops", props: C07, f: crate::conc::num_machine },
    Machine { name: "transf", props: C08, f: crate::conc::transf_machine },
    Machine { name: "fmt", props: C09, f: crate::fmt::machine },
    #[cfg(feature = "approx")]
    Machine { name: "approx", props: C14, f: crate::approx::machine },
    #[cfg(feature = "rand")]
    Machine { name: "guarantee", props: C10, f: crate::rng::guarantee_machine },
    #[cfg(feature = "rand")]
    Machine { name: "conserve", props: C11, f: crate::rng::conserve_machine },
    #[cfg(feature = "rand")]
    Machine { name: "laws", props: C12, f: crate::laws::machine },
];
pub fn machine(name: &str) -> &'static Machine {
    MACHINES.iter().find(|m| m.name == name).expect("unknown machine")
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<payload>".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if sim_active() {
            sim().foreign_msg = Some(format!("{}{}", text, loc));
        } else {
            eprintln!("vsim: {}{}", text, loc);
        }
    }));
}

/// Execute one run; the simulator state afterwards is its complete record.
pub fn execute(m: &Machine, gen: Option<u64>, replay: Vec<u64>, trace: bool, live: bool) -> Box<Sim> {
    let mut s = Sim::new(gen, replay, trace);
    s.live = live;
    s.install();
    let r = catch_unwind(AssertUnwindSafe(m.f));
    if r.is_err() {
        let text = sim().foreign_msg.take().unwrap_or_default();
        violation(m.props, format!("panic-outside-fault:{}", m.name), format!("run of {} ended by a panic: {}", m.name, text));
    }
    Sim::take()
}
pub fn run_seed(seed: u64, m: &Machine, idx: u64) -> u64 {
    let mut h = seed;
    for b in m.name.bytes() {
        h = mix64(h ^ b as u64);
    }
    mix64(h ^ mix64(idx.wrapping_mul(2).wrapping_add(1)))
}
pub fn probe(k: usize) -> bool {
    PROBES.iter().any(|p| *p as usize == k)
}
pub fn nontrivial(s: &Sim) -> bool {
    let disturbed: u32 = (0..NEXTRA).filter(|k| !probe(*k)).map(|k| s.extra[k]).sum();
    s.fired.iter().sum::<u32>() + disturbed + s.ensemble > 0
}

fn clean(s: &str) -> String {
    s.replace(['\n', '\t', '\r'], " ")
}
fn put_result(out: &mut impl Write, s: &Sim) {
    for v in &s.viol {
        writeln!(out, "V {} {}\t{}", v.props, clean(&v.class), clean(&v.msg)).unwrap();
    }
}

/// Protocol: one request per line on stdin; the answer ends with a line starting with "." .
///   run <machine> <seed> <start> <count>
///   exec <machine> <trace 0/1> <choices...>
///   gen <machine> <seed> <idx>            like exec with trace, from a seed; also prints the choices
pub fn worker(live: bool) -> i32 {
    install_hook();
    limit_memory();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let w: Vec<&str> = line.split_whitespace().collect();
        match w.as_slice() {
            ["run", name, seed, start, count] => {
                let m = machine(name);
                let (seed, start, count): (u64, u64, u64) = (seed.parse().unwrap(), start.parse().unwrap(), count.parse().unwrap());
                let mut st = vec![0u64; STATS];
                let mut hashes = String::new();
                let mut all = 0u64;
                for idx in start..start + count {
                    let s = execute(m, Some(run_seed(seed, m, idx)), vec![], false, live);
                    st[0] += 1;
                    st[1] += s.ops as u64;
                    st[2] += s.steps;
                    st[3] += s.switches as u64;
                    st[4] += s.rec.len() as u64;
                    for k in 0..16 {
                        st[8 + k] += s.fired[k] as u64;
                    }
                    for k in 0..NEXTRA {
                        st[24 + k] += s.extra[k] as u64;
                    }
                    all = mix64(all ^ s.hash);
                    if nontrivial(&s) {
                        st[5] += 1;
                        hashes.push_str(&format!(" {:x}", s.hash));
                    }
                    if !s.viol.is_empty() {
                        writeln!(out, "I {}", idx).unwrap();
                        put_result(&mut out, &s);
                    }
                }
                writeln!(out, "H{}", hashes).unwrap();
                let st: Vec<String> = st.iter().map(|x| x.to_string()).collect();
                writeln!(out, "S {}", st.join(" ")).unwrap();
                writeln!(out, ". {:x}", all).unwrap();
            }
            ["exec", name, tr, choices @ ..] => {
                let c = choices.iter().map(|c| c.parse().unwrap()).collect();
                let s = execute(machine(name), None, c, *tr == "1", live);
                finish_exec(&mut out, &s);
            }
            ["gen", name, seed, idx] => {
                let m = machine(name);
                let s = execute(m, Some(run_seed(seed.parse().unwrap(), m, idx.parse().unwrap())), vec![], true, live);
                finish_exec(&mut out, &s);
            }
            _ => {
                writeln!(out, ". bad request").unwrap();
            }
        }
        out.flush().unwrap();
    }
    0
}
pub const STATS: usize = 64;
fn finish_exec(out: &mut impl Write, s: &Sim) {
    put_result(out, s);
    let c: Vec<String> = s.rec.iter().map(|x| x.to_string()).collect();
    writeln!(out, "C {}", c.join(" ")).unwrap();
    if let Some(t) = &s.trace {
        for l in t {
            writeln!(out, "T {}", clean(l)).unwrap();
        }
    }
    writeln!(out, ". {:x} {}", s.hash, nontrivial(s) as u8).unwrap();
}

pub fn one(name: &str, seed: u64, idx: u64) -> i32 {
    install_hook();
    let m = machine(name);
    let s = execute(m, Some(run_seed(seed, m, idx)), vec![], true, false);
    for l in s.trace.as_ref().unwrap() {
        println!("{}", l);
    }
    println!("hash {:x}, {} choices, {} steps, {} switches", s.hash, s.rec.len(), s.steps, s.switches);
    for v in &s.viol {
        println!("{:#x} {}: {}", v.props, v.class, v.msg);
    }
    !s.viol.is_empty() as i32
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
}
fn limit_memory() {
    const AS: i32 = 9;
    const CORE: i32 = 4;
    let l = Rlimit { cur: 3 << 30, max: 3 << 30 };
    let z = Rlimit { cur: 0, max: 0 };
    unsafe {
        setrlimit(AS, &l);
        setrlimit(CORE, &z);
    }
}
/// The cores this process may use.
fn cores() -> Vec<usize> {
    let mut mask = [0u64; 16];
    let n = unsafe { sched_getaffinity(0, 128, mask.as_mut_ptr()) };
    let all: Vec<usize> = (0..1024).filter(|c| mask[c / 64] >> (c % 64) & 1 == 1).collect();
    if n <= 0 { vec![] } else { all }
}
/// All threads of a worker run on one core: only one of them is ever runnable.
pub fn pin(pid: u32, nth: usize) {
    let cores = cores();
    if cores.is_empty() {
        return;
    }
    let core = cores[nth % cores.len()];
    let mut mask = [0u64; 16];
    mask[core / 64] = 1 << (core % 64);
    unsafe {
        sched_setaffinity(pid as i32, 128, mask.as_ptr());
    }
}
