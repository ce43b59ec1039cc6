//! Random programs.
use crate::run::{Op, Trace};
use crate::sched::{hash3, Rng};

fn dur(r: &mut Rng) -> u64 { r.pick(&[0, 125, 1000, 1000, 2000, 3000, 5000, 20_000, 100_000, 3_000_000]) }

fn other(r: &mut Rng, i: usize) -> Op {
    match r.below(4) { 0 => Op::Interval(i, dur(r)), 1 => Op::Timeout(i, dur(r), dur(r)), _ => Op::Queue(i, dur(r)) }
}

pub fn generate(prop: &str, seed: u64, i: u64) -> Trace {
    let mut r = Rng(hash3(seed, prop.bytes().fold(0, |a, b| a * 31 + b as u64), i));
    let first = prop == "C22";
    let tu = cfg!(feature = "testutil");
    let n = r.pick(&[2, 2, 2, 3, 3, 4]);
    let clock = tu && r.chance(0.5);
    // few operations on few sleeps meet more often
    let tight = r.chance(0.4);
    let driver = clock && r.chance(0.4);       // the first thread does nothing but set the clock
    let mut t = Trace { prop: prop.into(), init: !first, pause_end: tu && r.chance(0.5), ..Default::default() };
    if r.chance(0.3) { t.jit = (0..r.below(4) + 1).map(|_| r.pick(&[0, 125, 1000, 3000, 20_000])).collect(); }
    // several threads advance a clock that stays paused
    let multi = clock && !first && !driver && r.chance(0.25);
    if multi { t.setup.push(Op::Pause); }
    // not only sleeps
    let rich = !first && r.chance(0.3);
    let mut next = 0;
    let hooks = if r.chance(0.35) { 0.5 } else { 0.0 };
    // sleeps that exist before
    let shared = if first { 0 } else { r.below(4) as usize };
    for _ in 0..shared {
        t.setup.push(if rich && r.chance(0.6) { other(&mut r, next) } else { Op::New(next, dur(&mut r)) });
        if r.chance(0.6) { t.setup.push(Op::Poll(next, false)); }
        if r.chance(0.2) { t.setup.push(Op::Callback(true)); }
        if r.chance(0.1) { t.setup.push(Op::Reset(next, dur(&mut r) as i64)); }
        next += 1;
    }
    for k in 0..n {
        let mut p = vec![];
        let mine = next;       // sleeps of this thread; those of others are used, too, but rarely
        if first {
            p.push(match r.below(6) { 0..=2 => { next += 1; Op::New(next - 1, dur(&mut r)) } 3 => { next += 1; Op::Until(next - 1, dur(&mut r) as i64) } 4 if clock && k == 0 => Op::Pause, _ => Op::Now });
        }
        let host = !first && k == n - 1 && r.chance(0.7);
        let len = 1 + r.below(match (host, tight) { (_, true) => 3, (true, _) => 5, _ => 7 });
        let steer = clock && k == 0 && !multi;
        for _ in 0..len {
            let any = |r: &mut Rng| {
                let own = next - mine;
                if own + shared == 0 || r.chance(0.07) { return r.below(next.max(1) as u64 + 2) as usize; }
                let k = r.below((own + shared) as u64) as usize;
                if k < own { mine + k } else { k - own }
            };
            let w = r.below(100);
            if host {
                p.push(if w < 60 { Op::Callback(true) } else if w < 80 { Op::Callback(false) } else { Op::Pass(r.pick(&[125, 1000, 2000, 5000])) });
            } else if multi && w < 30 {
                p.push(Op::Advance(dur(&mut r)));
            } else if steer && (driver || w < 35) {
                p.push(match p.last() {
                    Some(Op::Pause) if r.chance(0.8) => Op::Advance(dur(&mut r)),
                    Some(Op::Advance(_)) if r.chance(0.5) => Op::Resume,
                    _ => match r.below(4) { 0 => Op::Advance(dur(&mut r)), 1 | 2 => Op::Pause, _ => Op::Resume },
                });
            } else {
                match w {
                    0..=9 if rich && (!tight || next - mine + shared < 2) => { let o = other(&mut r, next); p.push(o); next += 1; if r.chance(0.6) { p.push(Op::Poll(next - 1, false)); } }
                    43..=54 if rich => { let i = any(&mut r); p.push(if r.chance(0.5) { Op::Insert(i, dur(&mut r)) } else { Op::Remove(i, r.below(4)) }); }
                    0..=17 if !tight || next - mine + shared < 2 => { p.push(Op::New(next, dur(&mut r))); next += 1; if r.chance(0.6) { p.push(Op::Poll(next - 1, false)); } }
                    18..=22 if !tight || next - mine + shared < 2 => { let d = dur(&mut r) as i64; p.push(Op::Until(next, if r.chance(0.3) { -d } else { d })); next += 1; }
                    0..=42 => {
                        let i = any(&mut r);
                        if !r.chance(hooks) { let f = r.chance(0.3); p.push(Op::Poll(i, f)); continue; }
                        let j = any(&mut r);
                        let o = match r.below(5) { 0 => Op::Poll(j, true), 1 => Op::Reset(j, dur(&mut r) as i64), 2 => Op::Drop(j), 3 => Op::Elapsed(j), _ => { next += 1; Op::New(next - 1, dur(&mut r)) } };
                        p.push(Op::Hook(i, r.chance(0.3), Box::new(o)));
                    }
                    43..=66 => { let d = dur(&mut r) as i64; let i = any(&mut r); p.push(Op::Reset(i, if r.chance(0.2) { -d } else { d })); if r.chance(0.4) { p.push(Op::Poll(i, false)); } }
                    67..=74 => p.push(Op::Drop(any(&mut r))),
                    75..=79 => p.push(Op::Elapsed(any(&mut r))),
                    80..=84 => p.push(Op::Now),
                    85..=89 => p.push(Op::Pass(r.pick(&[125, 1000, 2000, 5000, 20_000]))),
                    _ => { let f = r.chance(0.5); p.push(Op::Callback(f)); }
                }
            }
        }
        t.programs.push(p);
    }
    t.search = Some((r.next(), r.pick(&[0, 1, 2, 3, 4, 5])));
    t
}
