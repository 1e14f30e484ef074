//! The supervisor: farms runs out to worker processes, confirms, minimises and reports violations.

use crate::run::{pin, MACHINES, STATS};
use crate::sim::{bit, mix64, seam_name, EXTRA, SEAMS};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(60);
const HANG_ONE: Duration = Duration::from_secs(20);
pub const CRASH: &str = "process-crash";
pub const HANGS: &str = "hang";

// ---------------------------------------------------------------- worker processes

struct Worker {
    child: Child,
    stdin: ChildStdin,
    lines: Receiver<String>,
    err: Arc<Mutex<String>>,
    /// Batches this process has executed, in order.
    history: Vec<(String, u64, u64)>,
}
enum Gone {
    Crash,
    Hang,
}
impl Worker {
    fn spawn(core: usize, live: bool) -> Worker {
        let exe = std::env::current_exe().expect("own path");
        Worker::spawn_exe(&exe, core, live)
    }
    fn spawn_exe(exe: &std::path::Path, core: usize, live: bool) -> Worker {
        let mut c = Command::new(exe);
        c.arg("worker");
        if live {
            c.arg("live");
        }
        let mut child = c
            .env_clear()
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("worker starts");
        pin(child.id(), core);
        let (tx, lines) = channel();
        let out = BufReader::new(child.stdout.take().unwrap());
        std::thread::spawn(move || {
            for l in out.lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        let err = Arc::new(Mutex::new(String::new()));
        let e2 = err.clone();
        let mut es = child.stderr.take().unwrap();
        std::thread::spawn(move || {
            let mut buf = [0u8; 4096];
            while let Ok(n) = es.read(&mut buf) {
                if n == 0 {
                    break;
                }
                let mut e = e2.lock().unwrap();
                if e.len() < 1 << 22 {
                    e.push_str(&String::from_utf8_lossy(&buf[..n]));
                }
            }
        });
        let stdin = child.stdin.take().unwrap();
        Worker { child, stdin, lines, err, history: vec![] }
    }
    /// Send a request and collect the answer up to and including the "." line.
    fn ask(&mut self, req: &str, limit: Duration) -> Result<Vec<String>, Gone> {
        let _ = writeln!(self.stdin, "{}", req);
        let _ = self.stdin.flush();
        let end = Instant::now() + limit;
        let mut r = vec![];
        loop {
            match self.lines.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(l) => {
                    let last = l.starts_with('.');
                    r.push(l);
                    if last {
                        return Ok(r);
                    }
                }
                Err(RecvTimeoutError::Timeout) => {
                    self.kill();
                    return Err(Gone::Hang);
                }
                Err(RecvTimeoutError::Disconnected) => {
                    self.kill();
                    return Err(Gone::Crash);
                }
            }
        }
    }
    fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        self.kill();
    }
}

#[derive(Clone, Debug)]
struct Viol {
    props: u32,
    class: String,
    msg: String,
}
fn parse_viol(l: &str) -> Option<Viol> {
    let rest = l.strip_prefix("V ")?;
    let (head, msg) = rest.split_once('\t')?;
    let (props, class) = head.split_once(' ')?;
    Some(Viol { props: props.parse().ok()?, class: class.into(), msg: msg.into() })
}

struct Exec {
    viols: Vec<Viol>,
    choices: Vec<u64>,
    trace: Vec<String>,
    hash: String,
    nontrivial: bool,
}
fn parse_exec(lines: &[String]) -> Exec {
    let mut e = Exec { viols: vec![], choices: vec![], trace: vec![], hash: String::new(), nontrivial: false };
    for l in lines {
        if let Some(v) = parse_viol(l) {
            e.viols.push(v)
        } else if let Some(c) = l.strip_prefix("C ") {
            e.choices = c.split_whitespace().map(|x| x.parse().unwrap()).collect()
        } else if let Some(t) = l.strip_prefix("T ") {
            e.trace.push(t.into())
        } else if let Some(h) = l.strip_prefix(". ") {
            let (h, n) = h.split_once(' ').unwrap_or((h, "0"));
            e.hash = h.into();
            e.nontrivial = n == "1";
        }
    }
    e
}

/// Executes single runs in worker processes, replacing processes that die.
struct Pilot {
    w: Option<Worker>,
    exe: std::path::PathBuf,
    machine: String,
    props: u32,
}
impl Pilot {
    fn new(machine: &str) -> Pilot {
        let props = crate::run::machine(machine).props;
        let exe = std::env::current_exe().expect("own path");
        Pilot { w: None, exe, machine: machine.into(), props }
    }
    fn of(exe: &str, machine: &str) -> Pilot {
        Pilot { exe: exe.into(), ..Pilot::new(machine) }
    }
    fn exec(&mut self, choices: &[u64], trace: bool) -> Exec {
        let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
        self.request(&format!("exec {} {} {}", self.machine, trace as u8, c.join(" ")), choices)
    }
    fn request(&mut self, req: &str, choices: &[u64]) -> Exec {
        if self.w.is_none() {
            self.w = Some(Worker::spawn_exe(&self.exe, 0, false));
        }
        match self.w.as_mut().unwrap().ask(req, HANG_ONE) {
            Ok(lines) => parse_exec(&lines),
            Err(g) => {
                self.w = None;
                // once more, listening to the choices as they are made
                let (choices2, trace, err) = live(&self.exe, req);
                let (class, what) = match g {
                    Gone::Crash => (CRASH, "the process died"),
                    Gone::Hang => (HANGS, "the run did not end"),
                };
                let v = Viol { props: self.props, class: format!("{}:{}", class, self.machine), msg: format!("{}: {}", what, err) };
                Exec {
                    viols: vec![v],
                    choices: if choices2.is_empty() { choices.to_vec() } else { choices2 },
                    trace,
                    hash: class.into(),
                    nontrivial: true,
                }
            }
        }
    }
}
fn live(exe: &std::path::Path, req: &str) -> (Vec<u64>, Vec<String>, String) {
    let mut w = Worker::spawn_exe(exe, 0, true);
    let _ = w.ask(req, Duration::from_secs(5));
    std::thread::sleep(Duration::from_millis(50));
    let text = w.err.lock().unwrap().clone();
    let (mut c, mut t, mut e) = (vec![], vec![], vec![]);
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("c ").and_then(|x| x.parse().ok()) {
            c.push(x)
        } else if let Some(x) = l.strip_prefix("T ") {
            t.push(x.to_string())
        } else {
            e.push(l.to_string())
        }
    }
    c.truncate(20_000);
    (c, t, e.join(" | ").chars().take(400).collect())
}

// ---------------------------------------------------------------- the plan of a check

pub fn prop_bit(p: &str) -> u32 {
    bit(p[1..].parse().expect("property id"))
}
/// Machines that decide a property, with the number of runs for the quick and the thorough tier.
fn plan(prop: &str, tier: &str) -> Vec<(&'static str, u64)> {
    let p: &[(&'static str, u64, u64)] = match prop {
        "C01" => &[("hist", 800_000, 8_000_000), ("stream", 400_000, 4_000_000), ("iter", 400_000, 4_000_000), ("assign", 400_000, 4_000_000)],
        "C02" => &[("hist", 1_500_000, 16_000_000)],
        "C04" => &[("iter", 8_000_000, 120_000_000)],
        "C05" => &[("assign", 3_000_000, 50_000_000)],
        "C03" => &[("stream", 4_000_000, 80_000_000)],
        "C06" => &[("vecops", 450_000, 6_000_000)],
        "C07" => &[("numops", 500_000, 6_000_000)],
        "C08" => &[("transf", 240_000, 2_500_000)],
        "C09" => &[("fmt", 1_200_000, 24_000_000)],
        "C14" => &[("approx", 1_200_000, 20_000_000)],
        "C10" => &[("guarantee", 1_500_000, 20_000_000)],
        "C11" => &[("conserve", 600_000, 10_000_000)],
        "C12" => &[("laws", 900, 9_000)],
        _ => &[],
    };
    p.iter().map(|(m, q, t)| (*m, match tier {
        "thorough" => *t,
        // for mutation testing
        "mini" => if *m == "laws" { 75 } else { *q / 40 },
        _ => *q,
    })).collect()
}
fn batch_size(machine: &str) -> u64 {
    match machine {
        "laws" => 1,
        _ => 250,
    }
}

#[derive(Clone)]
struct Found {
    order: (usize, u64),
    machine: String,
    viol: Viol,
    /// Everything the process had executed before, when the violation depends on it.
    history: Vec<(String, u64, u64)>,
}

#[derive(Default)]
struct Totals {
    stats: Vec<u64>,
    per_machine: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    found: Option<Found>,
    other: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
}

struct Search<'a> {
    prop: &'a str,
    want: u32,
    seed: u64,
    known: Vec<(String, String)>,
    queue: Mutex<std::collections::VecDeque<(usize, &'static str, u64, u64)>>,
    tot: Mutex<Totals>,
    deadline: Instant,
}

fn suppressed(known: &[(String, String)], prop: &str, class: &str) -> bool {
    known.iter().any(|(p, c)| p == prop && c == class)
}

impl Search<'_> {
    fn absorb(&self, order: usize, machine: &str, lines: &[String], history: &[(String, u64, u64)]) {
        let mut t = self.tot.lock().unwrap();
        let mut idx = 0;
        for l in lines {
            if let Some(i) = l.strip_prefix("I ") {
                idx = i.parse().unwrap_or(0);
            } else if let Some(v) = parse_viol(l) {
                if v.props & self.want == 0 {
                    *t.other.entry(v.class).or_default() += 1;
                } else if suppressed(&self.known, self.prop, &v.class) {
                    *t.known.entry(v.class).or_default() += 1;
                } else {
                    let o = (order, idx);
                    if t.found.as_ref().map_or(true, |f| o < f.order) {
                        t.found = Some(Found { order: o, machine: machine.into(), viol: v, history: history.to_vec() });
                    }
                }
            } else if let Some(h) = l.strip_prefix('H') {
                for x in h.split_whitespace() {
                    if let Ok(x) = u64::from_str_radix(x, 16) {
                        t.distinct.insert(x);
                    }
                }
            } else if let Some(s) = l.strip_prefix("S ") {
                t.stats.resize(STATS, 0);
                let mut n = 0;
                for (k, x) in s.split_whitespace().enumerate() {
                    let x: u64 = x.parse().unwrap_or(0);
                    t.stats[k] += x;
                    if k == 0 {
                        n = x
                    }
                }
                *t.per_machine.entry(machine.into()).or_default() += n;
            }
        }
    }
    fn worker_loop(&self, core: usize) {
        let mut w: Option<Worker> = None;
        loop {
            let job = {
                let mut q = self.queue.lock().unwrap();
                let found = self.tot.lock().unwrap().found.as_ref().map(|f| f.order);
                match q.front().copied() {
                    // a smaller violation cannot come from later batches
                    Some((o, _, s, _)) if found.map_or(false, |f| (o, s) > f) => None,
                    Some(_) if Instant::now() > self.deadline => None,
                    Some(_) => q.pop_front(),
                    None => None,
                }
            };
            let Some((order, machine, start, count)) = job else { break };
            let wk = w.get_or_insert_with(|| Worker::spawn(core, false));
            wk.history.push((machine.into(), start, count));
            match wk.ask(&format!("run {} {} {} {}", machine, self.seed, start, count), HANG) {
                Ok(lines) => {
                    let h = wk.history.clone();
                    self.absorb(order, machine, &lines, &h)
                }
                Err(_) => {
                    // find the run that kills the process
                    w = None;
                    let mut s = Worker::spawn(core, false);
                    for idx in start..start + count {
                        match s.ask(&format!("run {} {} {} 1", machine, self.seed, idx), HANG_ONE) {
                            Ok(lines) => self.absorb(order, machine, &lines, &[]),
                            Err(g) => {
                                let class = match g {
                                    Gone::Crash => CRASH,
                                    Gone::Hang => HANGS,
                                };
                                let props = crate::run::machine(machine).props;
                                let lines = vec![format!("I {}", idx), format!("V {} {}:{}\tprocess did not survive the run", props, class, machine)];
                                self.absorb(order, machine, &lines, &[]);
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
}

#[path = "cfgs.rs"]
pub mod cfgs;

// ---------------------------------------------------------------- minimisation

fn minimise(p: &mut Pilot, class: &str, start: Vec<u64>, budget: Duration) -> Vec<u64> {
    minimise_by(&mut |c| p.exec(c, false).viols.iter().any(|v| v.class == class), start, budget)
}
fn minimise_by(fails: &mut dyn FnMut(&[u64]) -> bool, start: Vec<u64>, budget: Duration) -> Vec<u64> {
    let end = Instant::now() + budget;
    let mut best = start;
    let mut tries = 0u32;
    let mut test = |c: &[u64]| -> bool {
        tries += 1;
        tries < 60_000 && Instant::now() < end && fails(c)
    };
    // shorter histories first
    let mut len = best.len();
    while len > 0 {
        let cut = (len / 2).max(1);
        let l = len - cut;
        if test(&best[..l]) {
            best.truncate(l);
            len = l;
        } else if cut == 1 {
            break;
        } else {
            // binary search for the shortest failing prefix, assuming it is roughly monotone
            let (mut lo, mut hi) = (l, len);
            while hi - lo > 1 {
                let mid = (lo + hi) / 2;
                if test(&best[..mid]) {
                    hi = mid
                } else {
                    lo = mid
                }
            }
            if hi < best.len() {
                best.truncate(hi);
            }
            break;
        }
    }
    loop {
        let before = best.clone();
        for size in [32, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if test(&c) {
                    best = c;
                } else {
                    i += 1;
                }
            }
        }
        for i in 0..best.len() {
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    if test(&c) {
                        best = c;
                        break;
                    }
                }
            }
        }
        while best.last() == Some(&0) {
            let c = &best[..best.len() - 1];
            if !test(c) {
                break;
            }
            best.pop();
        }
        if best == before || Instant::now() > end {
            return best;
        }
    }
}

// ---------------------------------------------------------------- check

fn known_file(dir: &str) -> Vec<(String, String)> {
    // lines: `known: property=C03 class=<violation class> <what fails>`
    let mut r = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", dir)) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let get = |k: &str| {
                    let i = rest.find(k)? + k.len();
                    let tail = &rest[i..];
                    let tail = tail.strip_prefix('"').map(|t| t.split('"').next().unwrap_or("")).unwrap_or_else(|| tail.split_whitespace().next().unwrap_or(""));
                    Some(tail.to_string())
                };
                if let (Some(p), Some(c)) = (get("property="), get("class=")) {
                    r.push((p, c));
                }
            }
        }
    }
    r
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub fn check(prop: &str, tier: &str, seed: u64, dir: &str) -> i32 {
    let t0 = Instant::now();
    let plan = plan(prop, tier);
    if plan.is_empty() {
        eprintln!("no check for {}", prop);
        return 2;
    }
    let jobs = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let known = known_file(dir);
    let mut queue = std::collections::VecDeque::new();
    for (order, (m, runs)) in plan.iter().enumerate() {
        let b = batch_size(m);
        let mut s = 0;
        while s < *runs {
            queue.push_back((order, *m, s, b.min(runs - s)));
            s += b;
        }
    }
    // A fixed number of runs, so that the verdict does not depend on the speed of the machine;
    // the deadline only guards against a machine that is many times slower.
    let limit = if tier == "thorough" { 780 } else { 420 };
    let search = Search {
        prop,
        want: prop_bit(prop),
        seed,
        known: known.clone(),
        queue: Mutex::new(queue),
        tot: Mutex::new(Totals::default()),
        deadline: t0 + Duration::from_secs(limit),
    };
    std::thread::scope(|s| {
        for core in 0..jobs {
            let search = &search;
            s.spawn(move || search.worker_loop(core));
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let tot = search.tot.into_inner().unwrap();
    let mut code = 0;
    let mut samples = vec![];
    for (p, c) in &known {
        if p == prop {
            println!("KNOWN-FINDING: property={} {} (seen in {} runs)", prop, c, tot.known.get(c).copied().unwrap_or(0));
        }
    }
    let mut viol_count = 0;
    if let Some(f) = &tot.found {
        viol_count = 1;
        let path = report(prop, seed, tier, dir, f, &mut samples);
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    }
    // actual cases of this run
    let mut rechecked = 0;
    let mut mismatch = 0;
    if code == 0 {
        for (m, runs) in &plan {
            let mut p = Pilot::new(m);
            let mut shown = 0;
            for idx in 0..(*runs).min(60) {
                let e = p.request(&format!("gen {} {} {}", m, seed, idx), &[]);
                // the same choices once more, in another process, must give the same log
                if idx < 12 {
                    let mut q = Pilot::new(m);
                    let r = q.exec(&e.choices, false);
                    rechecked += 1;
                    if r.hash != e.hash {
                        mismatch += 1;
                    }
                }
                if e.nontrivial && shown < 2 && e.trace.len() > 2 {
                    shown += 1;
                    let tr: Vec<String> = e.trace.iter().take(40).map(|l| l.chars().take(160).collect()).collect();
                    samples.push(format!("machine {} seed {} run {}: {}", m, seed, idx, tr.join(" ; ")));
                }
                if shown >= 2 && idx >= 12 {
                    break;
                }
            }
        }
    }
    let st = |k: usize| tot.stats.get(k).copied().unwrap_or(0);
    let mut faults = vec![];
    for k in SEAMS {
        faults.push(format!("{}: {}", js(seam_name(*k)), st(8 + *k as usize)));
    }
    let mut probes = vec![];
    for (k, n) in EXTRA.iter().enumerate() {
        let to = if crate::run::probe(k) { &mut probes } else { &mut faults };
        to.push(format!("{}: {}", js(n), st(24 + k)));
    }
    faults.retain(|f| !f.ends_with(": 0"));
    probes.retain(|f| !f.ends_with(": 0"));
    let per: Vec<String> = tot.per_machine.iter().map(|(m, n)| format!("{}: {}", js(m), n)).collect();
    let other: Vec<String> = tot.other.iter().map(|(m, n)| format!("{}: {}", js(m), n)).collect();
    let planned: u64 = plan.iter().map(|p| p.1).sum();
    let (real, stub, rule) = crate::describe::describe(prop);
    let wall = t0.elapsed().as_secs_f64();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"planned_runs\": {},\n  \"runs_per_machine\": {{{}}},\n  \"runs_per_hour\": {},\n  \"library_operations\": {},\n  \"simulated_time_in_seam_events\": {},\n  \"choices_drawn\": {},\n  \"runs_with_fault_or_preemption\": {},\n  \"faults_injected\": {{{}}},\n  \"reached\": {{{}}},\n  \"determinism_rechecked_runs\": {},\n  \"determinism_mismatches\": {},\n  \"violations_of_other_properties_seen\": {{{}}},\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"exhaustive\": false\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(prop), js(tier), seed, st(0), tot.distinct.len(), js(rule),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        planned, per.join(", "), (st(0) as f64 / search_s * 3600.0) as u64,
        st(1), st(2), st(4), st(5), faults.join(", "), probes.join(", "), rechecked, mismatch, other.join(", "),
        js(real), js(&stub),
        crate::describe::ASSUMPTIONS.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        wall, viol_count,
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    if std::fs::write(format!("{}/evidence/{}.json", dir, prop), text).is_err() {
        eprintln!("cannot write the evidence file");
        return 2;
    }
    println!("{}: {} runs, {} distinct non-trivial, {} faults, {:.1} s, {}", prop, st(0), tot.distinct.len(),
        (8..24).chain((0..EXTRA.len()).filter(|k| !crate::run::probe(*k)).map(|k| 24 + k)).map(st).sum::<u64>(), wall, if code == 0 { "held" } else { "violated" });
    code
}

fn report(prop: &str, seed: u64, tier: &str, dir: &str, f: &Found, samples: &mut Vec<String>) -> String {
    let mut p = Pilot::new(&f.machine);
    let class = f.viol.class.clone();
    let has = |e: &Exec| e.viols.iter().any(|v| v.class == class);
    let first = p.request(&format!("gen {} {} {}", f.machine, seed, f.order.1), &[]);
    let mut out = format!("vecmat simulation replay 1\nproperty {}\nmachine {}\nclass {}\norigin seed={} run={} tier={}\n", prop, f.machine, class, seed, f.order.1, tier);
    let msg;
    let mut trace = vec![];
    if has(&first) && has(&p.exec(&first.choices, false)) {
        let c = minimise(&mut p, &class, first.choices.clone(), Duration::from_secs(if class.starts_with(HANGS) { 60 } else { 25 }));
        let mut fresh = Pilot::new(&f.machine);
        let e = fresh.exec(&c, true);
        let c: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        out += &format!("choices {}\n", c.join(" "));
        msg = e.viols.iter().find(|v| v.class == class).map(|v| v.msg.clone()).unwrap_or_else(|| f.viol.msg.clone());
        trace = e.trace;
        println!("minimised from {} to {} choices", first.choices.len(), c.len());
    } else {
        // The outcome depends on earlier runs of the same process: replay them as well.
        let mut h = f.history.clone();
        if let Some(l) = h.last_mut() {
            l.2 = f.order.1 - l.1 + 1;
        }
        // try the shortest tail of the history that still fails
        let mut keep = h.clone();
        for n in [1, 2, 4, 16] {
            if n < h.len() {
                let tail = h[h.len() - n..].to_vec();
                if history_fails(&tail, seed, f.order.1, &class) {
                    keep = tail;
                    break;
                }
            }
        }
        let b: Vec<String> = keep.iter().map(|(m, s, c)| format!("{} {} {}", m, s, c)).collect();
        out += &format!("history seed={} run={} : {}\n", seed, f.order.1, b.join(" , "));
        msg = format!("{} (depends on earlier runs in the same process)", f.viol.msg);
    }
    out += &format!("message {}\n--- trace\n{}\n", msg, trace.join("\n"));
    println!("violation {}: {}", class, msg);
    for l in trace.iter().take(60) {
        println!("  {}", l);
    }
    samples.push(format!("violation {}: {} ; {}", class, msg, trace.iter().take(40).cloned().collect::<Vec<_>>().join(" ; ")));
    let _ = std::fs::create_dir_all(format!("{}/replays", dir));
    let slug: String = class.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).take(60).collect();
    let path = format!("{}/replays/{}-{}.txt", dir, prop, slug);
    if let Err(e) = std::fs::write(&path, out) {
        eprintln!("cannot write {}: {}", path, e);
    }
    path
}
fn history_fails(h: &[(String, u64, u64)], seed: u64, run: u64, class: &str) -> bool {
    let mut w = Worker::spawn(0, false);
    for (m, s, c) in h {
        match w.ask(&format!("run {} {} {} {}", m, seed, s, c), HANG) {
            Ok(lines) => {
                let mut at = 0;
                for l in &lines {
                    if let Some(i) = l.strip_prefix("I ") {
                        at = i.parse().unwrap_or(0);
                    }
                    if let Some(v) = parse_viol(l) {
                        if at == run && v.class == class {
                            return true;
                        }
                    }
                }
            }
            Err(_) => return class.starts_with(CRASH) || class.starts_with(HANGS),
        }
    }
    false
}

pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(str::to_string);
    let (Some(prop), Some(machine), Some(class)) = (get("property "), get("machine "), get("class ")) else {
        eprintln!("not a replay file");
        return 2;
    };
    let ok = if let Some(c) = text.lines().find(|l| l.starts_with("choices")) {
        let c: Vec<u64> = c.split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
        let e = Pilot::new(&machine).exec(&c, true);
        for l in &e.trace {
            println!("{}", l);
        }
        for v in &e.viols {
            println!("violation {}: {}", v.class, v.msg);
        }
        e.viols.iter().any(|v| v.class == class)
    } else if let Some(h) = get("history ") {
        let (head, tail) = h.split_once(" : ").unwrap();
        let num = |k: &str| head.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap().parse().unwrap();
        let (seed, run): (u64, u64) = (num("seed="), num("run="));
        let hist: Vec<(String, u64, u64)> = tail.split(',').map(|b| {
            let w: Vec<&str> = b.split_whitespace().collect();
            (w[0].to_string(), w[1].parse().unwrap(), w[2].parse().unwrap())
        }).collect();
        history_fails(&hist, seed, run, &class)
    } else {
        return 2;
    };
    if ok {
        println!("VIOLATION property={} replay={}", prop, file);
        1
    } else {
        println!("{} does not occur", class);
        0
    }
}

/// Every machine, the same runs in different processes, batch sizes and process ages: the logs must be equal.
pub fn selftest(seed: u64, runs: u64) -> i32 {
    let mut bad = 0;
    for m in MACHINES {
        let runs = if m.name == "laws" { runs.min(40) } else { runs };
        let digest = |batch: u64, processes: usize, reverse: bool| -> Vec<(u64, String)> {
            let mut starts: Vec<u64> = (0..runs).step_by(batch as usize).collect();
            if reverse {
                starts.reverse();
            }
            let q = Mutex::new(starts.into_iter().collect::<std::collections::VecDeque<u64>>());
            let res = Mutex::new(vec![]);
            std::thread::scope(|s| {
                for core in 0..processes {
                    let (q, res) = (&q, &res);
                    s.spawn(move || {
                        let mut w = Worker::spawn(core, false);
                        while let Some(st) = { let mut g = q.lock().unwrap(); g.pop_front() } {
                            for i in st..(st + batch).min(runs) {
                                let r = match w.ask(&format!("run {} {} {} 1", m.name, seed, i), HANG) {
                                    Ok(l) => l.join("|"),
                                    Err(_) => {
                                        w = Worker::spawn(core, false);
                                        "gone".into()
                                    }
                                };
                                res.lock().unwrap().push((i, r));
                            }
                        }
                    });
                }
            });
            let mut r = res.into_inner().unwrap();
            r.sort();
            r
        };
        let a = digest(1000, 1, false);
        let mut diff = 0;
        for (b, p, r) in [(7, 8, false), (50, 3, true), (13, 16, true)] {
            let x = digest(b, p, r);
            diff += a.iter().zip(&x).filter(|(x, y)| x != y).count();
        }
        let mut h = 0u64;
        for (_, l) in &a {
            for b in l.bytes() {
                h = mix64(h ^ b as u64);
            }
        }
        println!("selftest {}: {} runs x 4 partitions, {} differences, digest {:016x}", m.name, runs, diff, h);
        bad += diff;
    }
    (bad > 0) as i32
}
