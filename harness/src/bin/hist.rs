//! Monitor of API histories (see hist.rs), of page capacity and of memory protection.
use monharness::hist::*;
use monharness::rng::Rng;
use monharness::util::*;
use monharness::{big, cap, eng, ham, mt, prot};

/// complete histories, one instance at a time
fn histories(rep: &mut Report, arena: u64, seed: u64, part: u64, parts: u64, n: u64, prof: Profile, far: bool) {
    let mut r = Rng::sub(seed, 0xF00D + part);
    for k in 0..n {
        let id = k * parts + part;
        let mut h = if far {
            progress(id, 4);
            progress_text("JitMemory::new");
            let jit = Box::new(monharness::util::new_jit());
            let mut off = [0usize; 3];
            for o in off.iter_mut() {
                *o = match r.below(4) {
                    0 => 0,
                    1 => (PAGE as usize) - LIM,
                    2 => (r.below((PAGE as usize - LIM) as u64 / 4096) * 4096) as usize,
                    _ => (1 << r.range(12, 27)) as usize,
                };
            }
            rep.sample(format!("history {} starts at page offsets {:#x?}", id, off));
            Hist::with(jit, off, seed, id, prof, Exec::Eng(arena), rep)
        } else {
            Hist::new(seed, id, prof, Exec::Eng(arena), rep)
        };
        let steps = match r.below(4) {
            0 => r.range(5, 40),
            1 => r.range(40, 150),
            _ => r.range(150, 500),
        };
        for _ in 0..steps {
            h.step(rep);
            if h.dead {
                break;
            }
        }
        let tr = h.trace[..h.trace.len().min(12)].join("; ");
        rep.sample(format!("history {}: {}", id, tr));
        h.end(rep);
    }
}

fn main() {
    let a = Args::parse();
    install_panic_hook();
    let (seed, part, parts, scale) = (a.u("seed", 1), a.u("part", 0), a.u("parts", 1), a.u("scale", 1));
    progress_init(a.s("progress"));
    hashes_init(a.s("hashes"));
    let mut rep = Report::default();
    let mode = a.s("mode").unwrap_or("mix").to_string();
    match mode.as_str() {
        "cap" => cap::run(&mut rep, seed, part, parts, scale),
        "dump" => mt::dump(&mut rep, seed, part, scale),
        "threads" => mt::threads(&mut rep, seed, part, scale),
        "race" => mt::race(&mut rep, seed, part, scale, 8),
        "hammer" => ham::run(&mut rep, seed, part, scale, a.u("threads", 8), a.u("kind", u64::MAX)),
        "asan" => mt::race(&mut rep, seed, part, scale, 1),
        "shared" => mt::shared(&mut rep, seed, part, scale),
        "solo-call" => mt::solo(&mut rep, seed, a.u("id", 0), profile(a.s("prof").unwrap()), Exec::Call, a.u("steps", 1)),
        "big-refs" | "big-items" | "big-emit" | "big-patch" | "big-labels" => big::run(&mut rep, &mode, seed, part, parts, scale),
        "prot" => prot::run(&mut rep, seed, part, scale),
        _ => {
            let arena = eng::init(seed);
            eng::confine();
            if mode == "solo" {
                mt::solo(&mut rep, seed, a.u("id", 0), profile(a.s("prof").unwrap()), Exec::Eng(arena.base), a.u("steps", 1));
            } else if mode == "multi" {
                mt::multi(&mut rep, arena.base, seed, part, parts, scale);
            } else {
                let (name, far) = match mode.strip_prefix("far-") {
                    Some(m) => (m, true),
                    None => (mode.as_str(), false),
                };
                let n = if far { 2 } else { 8 } * scale;
                histories(&mut rep, arena.base, seed, part, parts, n, profile(name), far);
            }
        }
    }
    rep.finish(a.s("hashes"));
}
