//! Deterministic simulation of threads: the native build of wasmtimer, compiled with its guarded
//! seams, runs on real threads of which exactly one is released at a time. The simulator decides at
//! every atomic operation, lock and host call which thread continues, and how time passes.
//!
//! simthreads search PROP SEED FROM STEP TOTAL DEADLINE_MS    runs FROM, FROM+STEP, ...
//! simthreads run FILE          runs one trace, prints what happened
//! simthreads minimise FILE KIND MS
mod alloc;
mod gen;
mod run;
mod sched;

use run::{execute, Outcome, Trace};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Tagged = alloc::Tagged;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}
fn counts(m: &BTreeMap<&'static str, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","))
}

fn main() {
    std::panic::set_hook(Box::new(|info| sched::note_panic(info.to_string())));
    wasmtimer::sim::install(&sched::SIM);
    run::calibrate();
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "search" => search(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap()),
        "gen" => println!("{}", gen::generate(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()).text()),
        "run" => {
            let t = Trace::parse(&std::fs::read_to_string(&a[2]).unwrap());
            let o = execute(&t, true);
            report(&t, &o);
        }
        "minimise" => {
            let t = Trace::parse(&std::fs::read_to_string(&a[2]).unwrap());
            let (t, tries) = minimise(t, &a[3], Duration::from_millis(a[4].parse().unwrap()));
            let o = execute(&t, true);
            println!("tries {tries}");
            report(&t, &o);
        }
        _ => panic!("unknown command"),
    }
    // threads of abandoned runs are still parked
    std::process::exit(0);
}

fn report(t: &Trace, o: &Outcome) {
    let (k, m) = o.violation.clone().unwrap_or_default();
    println!(
        "{{\"kind\":{},\"message\":{},\"hash\":{},\"steps\":{},\"trace\":{},\"log\":{}}}",
        esc(&k), esc(&m), o.hash, o.steps,
        strs(&t.text().lines().map(String::from).collect::<Vec<_>>()), strs(&o.log)
    );
}

fn search(prop: &str, seed: u64, from: u64, step: u64, total: u64, deadline_ms: u64) {
    let t0 = Instant::now();
    let (mut runs, mut points, mut switches, mut completions, mut ops, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut sim_us = 0u64;
    let mut hashes = HashSet::new();
    let mut faults = BTreeMap::new();
    let mut probes = BTreeMap::new();
    let mut aborted = 0;
    let mut samples = vec![];
    let mut i = from;
    // tells which run it was if the process dies
    let at = std::env::var("SIM_PROGRESS").ok().map(|p| std::fs::File::create(p).unwrap());
    while i < total && t0.elapsed().as_millis() < deadline_ms as u128 {
        if let Some(f) = &at { std::os::unix::fs::FileExt::write_at(f, format!("{i:<20}").as_bytes(), 0).unwrap(); }
        let t = gen::generate(prop, seed, i);
        let o = execute(&t, false);
        runs += 1;
        points += o.steps as u64;
        switches += o.switches;
        completions += o.completions;
        ops += o.ops;
        sim_us += o.now;
        for (k, v) in &o.faults { *faults.entry(*k).or_insert(0) += v; }
        for (k, v) in &o.probes { *probes.entry(*k).or_insert(0) += v; }
        if let Some((k, m)) = &o.violation {
            let mut t = t.clone();
            t.fix(&o);
            println!("{{\"violation\":{{\"index\":{i},\"kind\":{},\"message\":{},\"trace\":{}}}}}", esc(k), esc(m), strs(&t.text().lines().map(String::from).collect::<Vec<_>>()));
            break;
        }
        if o.aborted {
            aborted += 1;
        } else if o.switches > 0 && o.completions > 0 {
            nontrivial += 1;
            hashes.insert(o.hash);
            if samples.len() < 2 { let mut t = t.clone(); t.fix(&o); samples.push(format!("{{\"index\":{i},\"trace\":{}}}", strs(&t.text().lines().map(String::from).collect::<Vec<_>>()))); }
        }
        i += step;
    }
    println!(
        "{{\"runs\":{runs},\"points\":{points},\"switches\":{switches},\"completions\":{completions},\"ops\":{ops},\"sim_us\":{sim_us},\"nontrivial\":{nontrivial},\"aborted\":{aborted},\"faults\":{},\"probes\":{},\"samples\":[{}],\"hashes\":[{}]}}",
        counts(&faults), counts(&probes), samples.join(","),
        hashes.iter().map(|h| h.to_string()).collect::<Vec<_>>().join(",")
    );
}

/// Fewer switches, fewer operations, fewer threads; the kind of violation stays the same.
fn minimise(mut t: Trace, kind: &str, budget: Duration) -> (Trace, u32) {
    let t0 = Instant::now();
    let mut tries = 0;
    let mut fails = |c: &Trace| -> Option<Trace> {
        if t0.elapsed() > budget { return None; }
        tries += 1;
        let o = execute(c, false);
        if o.violation.as_ref().is_some_and(|v| v.0 == kind) {
            let mut c = c.clone();
            c.fix(&o);
            Some(c)
        } else { None }
    };
    loop {
        let mut again = false;
        // schedule
        let mut n = (t.sched.len() / 2).max(1);
        loop {
            let mut j = 0;
            while j < t.sched.len() {
                let mut c = t.clone();
                let end = (j + n).min(c.sched.len());
                c.sched.drain(j..end);
                match fails(&c) {
                    Some(c) if c.sched.len() < t.sched.len() => { t = c; again = true; }
                    _ => j += n,
                }
            }
            if n == 1 { break; }
            n /= 2;
        }
        // operations; dropping one moves the later switches, so try to repair the schedule at random too
        for th in 0..t.programs.len() {
            let mut k = t.programs[th].len();
            while k > 0 {
                k -= 1;
                let mut c = t.clone();
                c.programs[th].remove(k);
                let mut got = fails(&c);
                for shift in [-4i64, -3, -2, -1, 1] {
                    if got.is_some() { break; }
                    let mut d = c.clone();
                    for s in d.sched.iter_mut() { s.0 = (s.0 as i64 + shift).max(1) as u32; }
                    got = fails(&d);
                }
                for r in 0..60u64 {
                    if got.is_some() { break; }
                    let mut d = c.clone();
                    d.sched.clear();
                    d.search = Some((r.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 77, (r % 6) as u8));
                    got = fails(&d);
                }
                if let Some(c) = got { t = c; again = true; }
            }
        }
        for k in (0..t.setup.len()).rev() {
            let mut c = t.clone();
            c.setup.remove(k);
            if let Some(c) = fails(&c) { t = c; again = true; }
        }
        if !again || t0.elapsed() > budget { break; }
    }
    // simpler host
    for f in [|c: &mut Trace| c.jit.clear(), |c: &mut Trace| c.init = true] {
        let mut c = t.clone();
        f(&mut c);
        if let Some(c) = fails(&c) { t = c; }
    }
    (t, tries)
}
