//! What each check runs for real and what it replaces, for the evidence files.

pub const ASSUMPTIONS: &[&str] = &[
    "panic=unwind build of the crate with default features, debug assertions and overflow checks on",
    "the Rust compiler and standard library are correct; destructor faults are not injected while unwinding (the language aborts there), and an element that rustc loses with the return value of an operation whose operand's destructor panicked (rust-lang/rust#47949) is not held against the library",
    "search over seeds: a clean batch is evidence, not proof",
];

/// Real components, simulated components, and the rule by which runs are made and counted.
pub fn describe(prop: &str) -> (&'static str, String, &'static str) {
    let real = "the whole crate as it is in /repo's working tree (no hook, default features); num-traits, num-complex, num-integer, rand, approx; core::fmt; one OS thread per simulated task";
    let stub = match prop {
        "C01" | "C02" => "element types with a ledger of live elements (operators, comparison, clone, default/zero/one, destructor), closures, source iterators and loop bodies of the caller",
        "C03" => "source iterators (scripted ends, resumption, endless tail, false size hints, panics), tracked elements",
        "C04" => "loop bodies, sub-sequences and their iterators, tracked elements; who stops, drops or resumes an iterator",
        "C05" => "scalars whose compound operators panic or tear, right-hand sides",
        "C06" | "C07" | "C08" => "exact scalars over a prime field and floats with seams (every scalar operation is a crash, preemption and re-entry point), caller threads (scheduled one at a time by the simulator)",
        "C09" => "sinks (failing, torn, panicking) and component formatters (in pieces, failing, panicking), caller threads",
        "C10" => "the random generator (stuck, biased, periodic, extreme, bursty phases before it becomes healthy; panics), a scalar with a coarse normal law around epsilon",
        "C11" => "the random generators (own or shared between tasks, faulty phases, panics), inner distributions, caller threads",
        "C12" => "the random generator (healthy, seeded by the simulator)",
        "C14" => "components with scripted comparisons, caller threads",
        _ => "caller side",
    };
    let rule = match prop {
        "C12" => "one run = one ensemble of samples from one distribution and type, drawn by a generator seeded from mix(seed, machine, run index); every run is non-trivial; distinct = different hash of the event log, which contains the ensemble's statistics",
        _ => "one run = one history (operations, data, schedule and faults) generated from mix(seed, machine, run index); non-trivial = at least one injected fault, preemption, re-entry, faulty source/sink/generator or abandoned iteration actually happened in it; distinct = different hash of the complete event log (choices, every crossing between library and caller code with its values, every context switch)",
    };
    (real, stub.to_string(), rule)
}
