//! The same simulated histories in every feature configuration of the crate (C16).
//!
//! `configs.sh` has built this simulator once per configuration; every run is executed from the same seed in all of
//! them, and the verdicts of the oracles must be the same in each.

use super::*;

struct Config {
    name: String,
    exe: String,
}
/// What could be built, and what is wrong with the rest.
fn read(file: &str) -> Option<(Vec<Config>, Vec<(String, String)>)> {
    let text = std::fs::read_to_string(file).ok()?;
    let (mut ok, mut bad) = (vec![], vec![]);
    for l in text.lines() {
        let w: Vec<&str> = l.splitn(4, ' ').collect();
        match w.as_slice() {
            ["config", name, "ok", path] => ok.push(Config { name: name.to_string(), exe: path.to_string() }),
            ["config", name, "unbuildable", why @ ..] => bad.push((format!("unbuildable:{}", name), format!("the crate does not build with the features {}: {}", name, why.join(" ")))),
            ["config", name, "links-std", path] => {
                ok.push(Config { name: name.to_string(), exe: path.to_string() });
                bad.push((format!("links-std:{}", name), format!("with the features {} the crate needs the standard library", name)));
            }
            _ => return None,
        }
    }
    Some((ok, bad))
}
const PLAN: &[(&str, u64)] = &[
    ("hist", 12_000), ("iter", 12_000), ("assign", 10_000), ("stream", 12_000), ("vecops", 3_000), ("numops", 4_000), ("transf", 3_000),
    ("fmt", 8_000), ("approx", 8_000), ("guarantee", 8_000), ("conserve", 4_000), ("laws", 8),
];
/// Machines that need a feature of their own.
fn has(config: &str, machine: &str) -> bool {
    match machine {
        "guarantee" | "conserve" | "laws" => config == "all" || config.contains("rand"),
        "approx" => config == "all" || config.contains("approx") || config == "std",
        _ => true,
    }
}
type Verdicts = BTreeMap<u64, Vec<Viol>>;
/// A batch in one configuration: the violations of each run, and the counters.
fn batch(w: &mut Option<Worker>, exe: &str, core: usize, machine: &str, seed: u64, start: u64, count: u64) -> (Verdicts, Vec<u64>, Vec<u64>, String) {
    let mut r = Verdicts::new();
    let (mut stats, mut hashes, mut all) = (vec![0u64; STATS], vec![], String::new());
    let mut take = |lines: &[String]| {
        let mut idx = 0;
        for l in lines {
            if let Some(i) = l.strip_prefix("I ") {
                idx = i.parse().unwrap_or(0);
            } else if let Some(v) = parse_viol(l) {
                r.entry(idx).or_default().push(v);
            } else if let Some(h) = l.strip_prefix('H') {
                hashes.extend(h.split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok()));
            } else if let Some(s) = l.strip_prefix("S ") {
                for (k, x) in s.split_whitespace().enumerate() {
                    stats[k] += x.parse::<u64>().unwrap_or(0);
                }
            } else if let Some(h) = l.strip_prefix(". ") {
                all += h;
            }
        }
    };
    let path = std::path::Path::new(exe);
    match w.get_or_insert_with(|| Worker::spawn_exe(path, core, false)).ask(&format!("run {} {} {} {}", machine, seed, start, count), HANG) {
        Ok(lines) => take(&lines),
        Err(_) => {
            *w = None;
            let mut s = Worker::spawn_exe(path, core, false);
            for idx in start..start + count {
                match s.ask(&format!("run {} {} {} 1", machine, seed, idx), HANG_ONE) {
                    Ok(lines) => take(&lines),
                    Err(g) => {
                        let class = match g {
                            Gone::Crash => CRASH,
                            Gone::Hang => HANGS,
                        };
                        take(&[format!("I {}", idx), format!("V 0 {}:{}\tprocess did not survive the run", class, machine)]);
                        break;
                    }
                }
            }
        }
    }
    (r, stats, hashes, all)
}
fn classes(v: Option<&Vec<Viol>>) -> Vec<String> {
    let mut r: Vec<String> = v.map_or(vec![], |v| v.iter().map(|v| v.class.clone()).collect());
    r.sort();
    r.dedup();
    r
}

#[derive(Clone)]
struct Differs {
    order: (usize, u64, usize),
    machine: String,
    /// Where it happens and where not.
    here: String,
    there: String,
    viol: Viol,
}
#[derive(Default)]
struct Tally {
    stats: Vec<u64>,
    distinct: HashSet<u64>,
    runs: BTreeMap<String, u64>,
    same_log: u64,
    batches: u64,
    found: Option<Differs>,
}

fn exe_of(configs: &[Config], name: &str) -> String {
    if name == "all" {
        std::env::current_exe().expect("own path").to_string_lossy().into_owned()
    } else {
        configs.iter().find(|c| c.name == name).map(|c| c.exe.clone()).unwrap_or_default()
    }
}
fn only(here: &mut Pilot, there: &mut Pilot, class: &str, c: &[u64]) -> bool {
    here.exec(c, false).viols.iter().any(|v| v.class == class) && !there.exec(c, false).viols.iter().any(|v| v.class == class)
}

pub fn check(file: &str, tier: &str, seed: u64, dir: &str) -> i32 {
    let t0 = Instant::now();
    let Some((configs, bad)) = read(file) else {
        eprintln!("no configurations in {}", file);
        return 2;
    };
    let _ = std::fs::create_dir_all(format!("{}/replays", dir));
    let mut code = 0;
    let mut samples: Vec<String> = vec![];
    for (class, msg) in &bad {
        let path = format!("{}/replays/C16-{}.txt", dir, class.replace([':', '+'], "-"));
        let text = format!("vecmat simulation replay 1\nproperty C16\nmachine build\nclass {}\nconfig {}\nmessage {}\n", class, class.split(':').nth(1).unwrap_or(""), msg);
        let _ = std::fs::write(&path, text);
        println!("violation {}: {}", class, msg);
        if code == 0 {
            println!("VIOLATION property=C16 replay={}", path);
        }
        samples.push(format!("violation {}: {}", class, msg));
        code = 1;
    }
    let mut names = vec!["all".to_string()];
    names.extend(configs.iter().map(|c| c.name.clone()));
    let times = match tier {
        "thorough" => 20,
        _ => 1,
    };
    let mut queue = std::collections::VecDeque::new();
    for (order, (m, runs)) in PLAN.iter().enumerate() {
        let b = batch_size(m);
        let mut s = 0;
        while s < runs * times {
            queue.push_back((order, *m, s, b.min(runs * times - s)));
            s += b;
        }
    }
    let planned: u64 = PLAN.iter().map(|p| p.1 * times).sum::<u64>();
    let queue = Mutex::new(queue);
    let tally = Mutex::new(Tally { stats: vec![0; STATS], ..Tally::default() });
    let deadline = t0 + Duration::from_secs(if tier == "thorough" { 700 } else { 400 });
    let jobs = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    std::thread::scope(|s| {
        for core in 0..jobs {
            let (queue, tally, names, configs) = (&queue, &tally, &names, &configs);
            s.spawn(move || {
                let mut workers: Vec<Option<Worker>> = names.iter().map(|_| None).collect();
                loop {
                    let job = {
                        let mut q = queue.lock().unwrap();
                        let f = tally.lock().unwrap().found.as_ref().map(|f| (f.order.0, f.order.1));
                        match q.front().copied() {
                            Some((o, _, s, _)) if f.map_or(false, |f| (o, s) > f) => None,
                            Some(_) if Instant::now() > deadline => None,
                            _ => q.pop_front(),
                        }
                    };
                    let Some((order, machine, start, count)) = job else { break };
                    let mut results: Vec<(usize, Verdicts)> = vec![];
                    let mut logs = vec![];
                    for (k, name) in names.iter().enumerate() {
                        if !has(name, machine) {
                            continue;
                        }
                        let (v, st, hashes, log) = batch(&mut workers[k], &exe_of(configs, name), core, machine, seed, start, count);
                        let mut t = tally.lock().unwrap();
                        st.iter().enumerate().for_each(|(i, x)| t.stats[i] += x);
                        t.distinct.extend(hashes.into_iter().map(|h| mix64(h ^ k as u64)));
                        *t.runs.entry(format!("{} in {}", machine, name)).or_default() += count;
                        logs.push(log);
                        results.push((k, v));
                    }
                    let mut t = tally.lock().unwrap();
                    t.batches += 1;
                    t.same_log += logs.iter().all(|l| *l == logs[0]) as u64;
                    for idx in start..start + count {
                        for (k, v) in &results {
                            for class in classes(v.get(&idx)) {
                                let Some((other, _)) = results.iter().find(|(_, o)| !classes(o.get(&idx)).contains(&class)) else { continue };
                                let d = Differs {
                                    order: (order, idx, *k),
                                    machine: machine.into(),
                                    here: names[*k].clone(),
                                    there: names[*other].clone(),
                                    viol: v[&idx].iter().find(|x| x.class == class).unwrap().clone(),
                                };
                                if t.found.as_ref().map_or(true, |f| d.order < f.order) {
                                    t.found = Some(d);
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let t = tally.into_inner().unwrap();
    if let Some(f) = &t.found {
        let (mut here, mut there) = (Pilot::of(&exe_of(&configs, &f.here), &f.machine), Pilot::of(&exe_of(&configs, &f.there), &f.machine));
        let class = f.viol.class.clone();
        let first = here.request(&format!("gen {} {} {}", f.machine, seed, f.order.1), &[]);
        let mut choices = first.choices.clone();
        let mut trace = first.trace.clone();
        if only(&mut here, &mut there, &class, &choices) {
            choices = minimise_by(&mut |c| only(&mut here, &mut there, &class, c), choices, Duration::from_secs(25));
            println!("minimised from {} to {} choices", first.choices.len(), choices.len());
            trace = here.exec(&choices, true).trace;
        }
        let msg = format!("with the features {} only, not with {}: {}", f.here, f.there, f.viol.msg);
        let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
        let slug: String = class.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).take(60).collect();
        let path = format!("{}/replays/C16-{}.txt", dir, slug);
        let text = format!("vecmat simulation replay 1\nproperty C16\nmachine {}\nclass {}\nconfigs {} {}\norigin seed={} run={} tier={}\nchoices {}\nmessage {}\n--- trace\n{}\n",
            f.machine, class, f.here, f.there, seed, f.order.1, tier, c.join(" "), msg, trace.join("\n"));
        let _ = std::fs::write(&path, text);
        println!("violation {}: {}", class, msg);
        for l in trace.iter().take(60) {
            println!("  {}", l);
        }
        samples.push(format!("violation {}: {} ; {}", class, msg, trace.iter().take(40).cloned().collect::<Vec<_>>().join(" ; ")));
        if code == 0 {
            println!("VIOLATION property=C16 replay={}", path);
        }
        code = 1;
    }
    if code == 0 {
        for (m, _) in PLAN.iter().take(4) {
            let e = Pilot::new(m).request(&format!("gen {} {} 1", m, seed), &[]);
            let tr: Vec<String> = e.trace.iter().take(30).map(|l| l.chars().take(160).collect()).collect();
            samples.push(format!("machine {} seed {} run 1, in every configuration: {}", m, seed, tr.join(" ; ")));
        }
    }
    let st = |k: usize| t.stats[k];
    let mut faults = vec![];
    for k in SEAMS {
        if st(8 + *k as usize) > 0 {
            faults.push(format!("{}: {}", js(seam_name(*k)), st(8 + *k as usize)));
        }
    }
    for (k, n) in EXTRA.iter().enumerate() {
        if st(24 + k) > 0 && !crate::run::probe(k) {
            faults.push(format!("{}: {}", js(n), st(24 + k)));
        }
    }
    let per: Vec<String> = t.runs.iter().map(|(m, n)| format!("{}: {}", js(m), n)).collect();
    let text = format!(
        "{{\n \"property\": \"C16\",\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"configurations\": [{}],\n  \"planned_histories\": {},\n  \"runs_per_machine\": {{{}}},\n  \"runs_per_hour\": {},\n  \"simulated_time_in_seam_events\": {},\n  \"batches\": {},\n  \"batches_with_identical_event_logs_in_all_configurations\": {},\n  \"faults_injected\": {{{}}},\n  \"real_components\": {},\n  \"stub_components\": \"the caller side of every machine (see the other checks)\",\n  \"exhaustive\": false\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(tier), seed, st(0), t.distinct.len(),
        js("one run = one history of a machine executed in one feature configuration; every history is executed from the same seed in all configurations that have what it needs and the oracles' verdicts are compared; non-trivial = disturbed by a fault, preemption, re-entry or faulty source; distinct = different event log or configuration"),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        names.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        planned, per.join(", "), (st(0) as f64 / search_s * 3600.0) as u64, st(2), t.batches, t.same_log, faults.join(", "),
        js("the whole crate, num-traits, num-complex, num-integer, rand and approx as each configuration builds them (without std: libm); whether the crate without its std feature was linked with std is read from the compiled crate"),
        crate::describe::ASSUMPTIONS.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(), code,
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    if std::fs::write(format!("{}/evidence/C16.json", dir), text).is_err() {
        eprintln!("cannot write the evidence file");
        return 2;
    }
    println!("C16: {} runs in {} configurations, {} distinct non-trivial, {:.1} s, {}", st(0), names.len(), t.distinct.len(), t0.elapsed().as_secs_f64(),
        if code == 0 { "held" } else { "violated" });
    code
}

/// Re-execute a replay file of C16 with freshly built configurations.
pub fn replay(text: &str, file: &str, list: &str) -> i32 {
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(str::to_string);
    let Some((configs, bad)) = read(list) else {
        eprintln!("no configurations in {}", list);
        return 2;
    };
    let class = get("class ").unwrap_or_default();
    let ok = if get("machine ").as_deref() == Some("build") {
        bad.iter().any(|(c, _)| *c == class)
    } else {
        let both = get("configs ").unwrap_or_default();
        let (h, t) = both.split_once(' ').unwrap_or(("all", "none"));
        let m = get("machine ").unwrap_or_default();
        let c: Vec<u64> = get("choices").unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
        let (mut here, mut there) = (Pilot::of(&exe_of(&configs, h), &m), Pilot::of(&exe_of(&configs, t), &m));
        for l in &here.exec(&c, true).trace {
            println!("{}", l);
        }
        only(&mut here, &mut there, &class, &c)
    };
    if ok {
        println!("VIOLATION property=C16 replay={}", file);
        1
    } else {
        println!("{} does not occur", class);
        0
    }
}
