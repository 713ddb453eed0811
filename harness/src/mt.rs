//! Several instances: interleaved in one thread, spread over threads, and one instance's code run by many threads.
use crate::hist::*;
use crate::rng::Rng;
use crate::util::*;
use monoasm_macro::monoasm;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

/// Everything history `id` does, alone in this process: to tell "broken anyway" from "broken by the neighbours".
pub fn solo(rep: &mut Report, seed: u64, id: u64, prof: Profile, exec: Exec, steps: u64) {
    let mut h = Hist::new(seed, id, prof, exec, rep);
    for _ in 0..steps {
        h.step(rep);
        if h.dead {
            break;
        }
    }
    if !h.broken {
        h.dead = false; // ran out of room
    }
    h.end(rep);
}

fn solo_args(seed: u64, id: u64, prof: Profile, exec: Exec, steps: u64) -> Vec<String> {
    let m = if exec == Exec::Call { "solo-call" } else { "solo" };
    vec![format!("--mode={}", m), format!("--seed={}", seed), format!("--id={}", id), format!("--prof={}", prof.name), format!("--steps={}", steps.max(1))]
}

pub fn multi(rep: &mut Report, arena: u64, seed: u64, part: u64, parts: u64, scale: u64) {
    let mut r = Rng::sub(seed, 0x3417 + part);
    for round in 0..3 * scale {
        // now and then a crowd
        let crowd = round % 12 == 5;
        let k = if crowd { r.range(40, 300) } else { r.range(2, 6) } as u64;
        let prof = profile(["mix", "refs", "items", "patch", "query", "emit"][r.below(6) as usize]);
        let mut hs: Vec<(Hist, u64, u64)> = vec![];
        let mut sched = 0u64;
        let mut next = 0;
        let total = if crowd { 3 * k as i64 + 300 } else { r.range(200, 900) };
        let mut inner = Report::silent();
        let mut bad: Option<(u64, u64, String)> = None;
        let mut aside = monoasm::JitMemory::new();
        let aside_base = page_base(&aside, 0);
        for s in 0..total {
            // instances come and go
            if hs.is_empty() || (hs.len() as u64) < k && r.chance(1, if crowd { 2 } else { 40 }) || s == 0 {
                let id = ((round * parts + part) << 16) | next;
                next += 1;
                hs.push((Hist::new(seed, id, prof, Exec::Eng(arena), &mut inner), id, 0));
                rep.add("instances", 1);
            }
            let i = r.below(hs.len() as u64) as usize;
            for _ in 0..1 + r.below(3) {
                hs[i].0.step(&mut inner);
                hs[i].2 += 1;
            }
            let turn = (hs[i].1, hs[i].2);
            if r.chance(1, 150) {
                // somebody else uses up many labels
                let n = match r.below(4) {
                    0 => r.below(1 << 17),
                    1 => 256 - r.below(40),
                    _ => 65536 - r.below(300),
                };
                let o = &mut aside;
                for _ in 0..n {
                    let _ = o.label();
                }
                rep.add("idle_labels", n);
            }
            sched = hash((sched, hs[i].1));
            if inner.violations == 0 && hs[i].0.dead {
                hs[i].0.dead = false; // ran out of room
                let (h, ..) = hs.swap_remove(i);
                h.end(&mut inner);
            } else if r.chance(1, 120) && hs.len() > 1 {
                let (h, ..) = hs.swap_remove(i);
                h.end(&mut inner);
            }
            if inner.violations > 0 {
                let (id, st) = turn;
                bad = Some((id, st, inner.first()));
                break;
            }
        }
        rep.add("interleavings", 1);
        rep.distinct.insert(sched);
        for (h, id, st) in hs {
            h.end(&mut inner);
            if inner.violations > 0 && bad.is_none() {
                bad = Some((id, st, inner.first()));
            }
        }
        rep.absorb(&mut inner);
        if let Some((id, st, what)) = bad {
            // does the same history fail alone?
            let d = format!("round {} schedule {:#x}: {}", round, sched, what);
            rep.suspect("C16: an instance misbehaves next to others", d, &solo_args(seed, id, prof, Exec::Eng(arena), st));
        }
        drop(aside);
        crate::galloc::free_big(aside_base as usize);
        rep.add(if crowd { "crowds" } else { "small_groups" }, 1);
        rep.sample(format!("round {}: up to {} instances ({}), {} turns, schedule hash {:#x}", round, k, prof.name, total, sched));
    }
}

struct S(Hist, u64, u64, u64); // history, id, steps done, steps to do
unsafe impl Send for S {}

fn delay(r: &mut Rng) {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(2000) {
                std::hint::spin_loop()
            }
        }
        2 => std::thread::sleep(std::time::Duration::from_micros(r.below(60))),
        _ => {}
    }
}

pub fn threads(rep: &mut Report, seed: u64, part: u64, scale: u64) {
    for round in 0..2 * scale {
        let pool: Arc<Mutex<Vec<S>>> = Default::default();
        let out: Arc<Mutex<Vec<(Report, u64)>>> = Default::default();
        let bad: Arc<Mutex<Vec<(u64, u64, String)>>> = Default::default();
        let order: Arc<Mutex<u64>> = Default::default();
        let moves = Arc::new(AtomicU64::new(0));
        let left = Arc::new(AtomicU64::new(0));
        let nt = 8u64;
        let per = 3u64;
        left.store(nt * per, SeqCst);
        let start = Arc::new(std::sync::Barrier::new(nt as usize));
        let mut js = vec![];
        for t in 0..nt {
            let (pool, out, bad, order, left, start, moves) = (pool.clone(), out.clone(), bad.clone(), order.clone(), left.clone(), start.clone(), moves.clone());
            js.push(std::thread::spawn(move || {
                let mut rep = Report::silent();
                let mut r = Rng::sub(seed, 0x7452 + part * 1000 + round * 100_000 + t);
                start.wait();
                for k in 0..per {
                    let id = part << 40 | round << 24 | t << 8 | k;
                    let prof = profile(["mix", "refs", "items", "patch", "query", "emit"][(id % 6) as usize]);
                    let h = Hist::new(seed, id, prof, Exec::Call, &mut rep);
                    rep.add("instances", 1);
                    pool.lock().unwrap().push(S(h, id, 0, r.range(60, 260) as u64));
                    delay(&mut r);
                }
                let mut last = u64::MAX;
                while left.load(SeqCst) > 0 {
                    let s = {
                        let mut p = pool.lock().unwrap();
                        if p.is_empty() {
                            None
                        } else {
                            let i = r.below(p.len() as u64) as usize;
                            let s = p.swap_remove(i);
                            let mut o = order.lock().unwrap();
                            *o = hash((*o, s.1, t));
                            Some(s)
                        }
                    };
                    let Some(mut s) = s else {
                        std::thread::yield_now();
                        continue;
                    };
                    if s.1 != last {
                        moves.fetch_add(1, SeqCst);
                        last = s.1;
                    }
                    let v = rep.violations;
                    for _ in 0..1 + r.below(25) {
                        delay(&mut r);
                        s.0.step(&mut rep);
                        s.2 += 1;
                        if s.0.dead {
                            break;
                        }
                    }
                    let fin = s.0.dead || s.2 >= s.3;
                    if fin {
                        let (id, st) = (s.1, s.2);
                        if rep.violations == v {
                            s.0.dead = false;
                        }
                        s.0.end(&mut rep);
                        if rep.violations > v {
                            bad.lock().unwrap().push((id, st, rep.first()));
                        }
                        left.fetch_sub(1, SeqCst);
                    } else {
                        pool.lock().unwrap().push(s);
                    }
                }
                out.lock().unwrap().push((rep, t));
            }));
        }
        for j in js {
            if j.join().is_err() {
                rep.violate("C16: a monoasm call panicked in a thread", format!("round {}", round));
                return;
            }
        }
        for (mut o, _) in out.lock().unwrap().drain(..) {
            rep.absorb(&mut o);
        }
        for (id, st, what) in bad.lock().unwrap().drain(..) {
            let prof = profile(["mix", "refs", "items", "patch", "query", "emit"][(id % 6) as usize]);
            let d = format!("round {} history {}: {}", round, id, what);
            rep.suspect("C16: an instance misbehaves next to others in other threads", d, &solo_args(seed, id, prof, Exec::Call, st));
        }
        rep.add("thread_rounds", 1);
        rep.add("moves_between_threads", moves.load(SeqCst));
        let o = *order.lock().unwrap();
        rep.distinct.insert(o);
        rep.sample(format!("round {}: {} threads x {} instances, {} hand-overs, order hash {:#x}", round, nt, per, moves.load(SeqCst), o));
    }
}

/// One instance keeps growing in its thread while others run what it has generated so far.
pub fn shared(rep: &mut Report, seed: u64, part: u64, scale: u64) {
    for round in 0..2 * scale {
        let mut prof = profile("refs");
        prof.patch = 0;
        prof.write = 0;
        let id = 0x5a_0000 | part << 32 | round;
        let mut h = Hist::new(seed, id, prof, Exec::Call, rep);
        for _ in 0..150 {
            h.step(rep);
        }
        h.finalize(rep);
        if h.dead {
            return;
        }
        // references that do not write
        let collect = |h: &Hist| -> Vec<(u64, u64)> {
            h.refs
                .iter()
                .filter(|r| r.resolved)
                .filter_map(|r| match (REFS[r.form].1, &h.labs[r.lab].what) {
                    (K::Jump | K::Call, What::Pad(id)) => Some((r.entry, *id)),
                    (K::Lea, _) => Some((r.entry, h.labs[r.lab].addr?)),
                    (K::CallCell | K::JumpCell, What::Item(i)) if !h.items[*i].open => match h.labs[h.items[*i].leads()?].what {
                        What::Pad(id) => Some((r.entry, id)),
                        _ => None,
                    },
                    _ => None,
                })
                .collect()
        };
        let list: Arc<Mutex<Vec<(u64, u64)>>> = Arc::new(Mutex::new(collect(&h)));
        let stop = Arc::new(AtomicBool::new(false));
        let runs = Arc::new(AtomicU64::new(0));
        let wrong: Arc<Mutex<Vec<(u64, u64, u64)>>> = Default::default();
        let js: Vec<_> = (0..7u64)
            .map(|t| {
                let (list, stop, runs, wrong) = (list.clone(), stop.clone(), runs.clone(), wrong.clone());
                std::thread::spawn(move || {
                    let mut r = Rng::sub(seed, 0x5A4E + t + part * 64 + round * 4096);
                    let mut done = 0;
                    while !stop.load(SeqCst) || done < 20_000 {
                        let (e, w) = {
                            let l = list.lock().unwrap();
                            if l.is_empty() {
                                break;
                            }
                            *r.pick(&l)
                        };
                        let f: extern "C" fn() -> u64 = unsafe { std::mem::transmute(e) };
                        for _ in 0..8 {
                            let g = f();
                            done += 1;
                            if g != w {
                                wrong.lock().unwrap().push((e, g, w));
                                return;
                            }
                        }
                    }
                    runs.fetch_add(done, SeqCst);
                })
            })
            .collect();
        for _ in 0..300 {
            if h.dead {
                break;
            }
            h.step(rep);
            if h.r.chance(1, 20) {
                *list.lock().unwrap() = collect(&h);
            }
        }
        stop.store(true, SeqCst);
        for j in js {
            let _ = j.join();
        }
        if let Some((e, g, w)) = wrong.lock().unwrap().first() {
            rep.violate("C16: generated code run by several threads", format!("code at {:#x} answered {:#x}, expected {:#x}", e, g, w));
        }
        rep.add("shared_rounds", 1);
        rep.add("concurrent_calls", runs.load(SeqCst));
        rep.distinct.insert(hash(("shared", round, part)));
        let n = list.lock().unwrap().len();
        rep.sample(format!("round {}: {} functions shared by 7 threads, {} calls while the owner kept emitting", round, n, runs.load(SeqCst)));
        h.dead = false;
        h.end(rep);
    }
}

/// Instances of threads that share nothing; for builds with a sanitizer, which watches every access.
pub fn race(rep: &mut Report, seed: u64, part: u64, scale: u64, nt: u64) {
    progress(part, 4);
    progress_text("histories under a sanitizer");
    progress_off();
    for round in 0..scale {
        let js: Vec<_> = (0..nt)
            .map(|t| {
                std::thread::spawn(move || {
                    let mut rep = Report::silent();
                    let mut r = Rng::sub(seed, 0x4ACE + part * 1000 + round * 100_000 + t);
                    let mut bad = vec![];
                    for k in 0..2 {
                        let id = part << 40 | round << 24 | t << 8 | k;
                        let prof = profile(["mix", "refs", "items", "patch", "query", "emit"][(id % 6) as usize]);
                        let mut h = Hist::new(seed, id, prof, Exec::Call, &mut rep);
                        rep.add("instances", 1);
                        let n = r.range(60, 260);
                        for _ in 0..n {
                            h.step(&mut rep);
                            if h.dead {
                                break;
                            }
                        }
                        if !h.broken {
                            h.dead = false;
                        }
                        h.end(&mut rep);
                        if rep.violations > 0 {
                            bad.push((id, n as u64, rep.first()));
                            break;
                        }
                    }
                    (rep, bad)
                })
            })
            .collect();
        for j in js {
            match j.join() {
                Ok((mut o, bad)) => {
                    rep.absorb(&mut o);
                    for (id, st, what) in bad {
                        let prof = profile(["mix", "refs", "items", "patch", "query", "emit"][(id % 6) as usize]);
                        let d = format!("round {} history {}: {}", round, id, what);
                        rep.suspect("C16: an instance misbehaves next to others in other threads", d, &solo_args(seed, id, prof, Exec::Call, st));
                    }
                }
                Err(_) => rep.violate("C16: a monoasm call panicked in a thread", format!("round {}", round)),
            }
        }
        rep.add("sanitized_rounds", 1);
    }
}

/// An instruction that never goes on to the next one is followed by nothing of its own.
fn alone(rep: &mut Report) {
    for (name, f) in crate::cap::INSTS {
        if !name.starts_with("ret") && !name.starts_with("jmp") {
            continue;
        }
        let mut jit = new_jit();
        let l = jit.label();
        jit.bind_label(l);
        progress(0, 4);
        progress_text(name);
        f(&mut jit, l);
        let n = jit.get_current();
        jit.finalize();
        let b = unsafe { std::slice::from_raw_parts(page_base(&jit, 0) as *const u8, n) }.to_vec();
        let d = parse(&reference_dump(&b));
        rep.add("single_instructions", 1);
        if d.len() != 1 {
            rep.violate("C08: more than the instruction was emitted", format!("{}: {:02x?} is {:?}", name, b, d));
        }
        crate::galloc::free_big(page_base(&jit, 0) as usize);
    }
}

/// Blocks of many sizes, up to beyond 2^16 bytes and 2^16 instructions.
fn long_dumps(rep: &mut Report, seed: u64, part: u64, scale: u64) {
    let mut r = Rng::sub(seed, 0xd0d0 + part);
    progress(1, 4);
    let mut jit = new_jit();
    for k in 0..6 * scale {
        let n = match (part + k) % 6 {
            0 => 65536 + r.below(80_000) as usize,
            1 => 4090 + r.below(10) as usize,
            2 => 1000 + r.below(60_000) as usize,
            _ => 200 + r.below(6000) as usize,
        };
        let p = r.below(2) as usize;
        jit.select_page(p);
        let a = jit.get_current();
        let pick = r.below(3);
        while jit.get_current() - a < n {
            let l = jit.label();
            jit.bind_label(l);
            match pick {
                0 => monoasm! { &mut jit, ret; },
                _ => {
                    let i = r.below(crate::cap::INSTS.len() as u64) as usize;
                    crate::cap::INSTS[i].1(&mut jit, l)
                }
            }
        }
        let e = jit.get_current();
        jit.finalize();
        let want = unsafe { std::slice::from_raw_parts((page_base(&jit, p) as usize + a) as *const u8, e - a) }.to_vec();
        progress_text("dump_code");
        let got = match caught(|| jit.dump_code()) {
            Ok(Ok(s)) => s,
            e => {
                rep.violate("C08: dump_code failed", format!("block of {} bytes: {:?}", want.len(), e));
                return;
            }
        };
        rep.add("dumps", 1);
        rep.add("dump_bytes", want.len() as u64);
        rep.distinct.insert(hash(&want));
        let (g, w) = (parse(&got), parse(&reference_dump(&want)));
        if g != w {
            let i = (0..g.len().max(w.len())).find(|i| g.get(*i) != w.get(*i)).unwrap();
            rep.violate("C08: dump differs from the emitted bytes", format!("page {} block of {:#x} bytes at {:#x}: line {} is {:?}, expected {:?}", p, e - a, a, i, g.get(i), w.get(i)));
            return;
        }
        rep.sample(format!("dump of a block of {} bytes: {} lines", e - a, g.len()));
    }
    crate::galloc::free_big(page_base(&jit, 0) as usize);
}

/// The dump of the selected page describes the last block of it.
pub fn dump(rep: &mut Report, seed: u64, part: u64, scale: u64) {
    if part == 0 {
        alone(rep);
    }
    long_dumps(rep, seed, part, scale);
    for k in 0..4 * scale {
        let id = 0xd0_0000 | part << 32 | k;
        let mut h = Hist::new(seed, id, profile(if k % 2 == 0 { "emit" } else { "mix" }), Exec::None, rep);
        let mut did = 0;
        for _ in 0..400 {
            let f = h.fins;
            h.step(rep);
            if h.dead {
                break;
            }
            if h.fins == f || did >= 6 {
                continue;
            }
            did += 1;
            for p in 0..2 {
                h.jit.select_page(p);
                h.page = p;
                let Some(b) = h.blocks[p].last().copied() else { continue };
                let want = h.mem(p)[b.0..b.1].to_vec();
                progress_text("dump_code");
                let j = &mut *h.jit;
                let got = match caught(|| j.dump_code()) {
                    Ok(Ok(s)) => s,
                    e => {
                        rep.violate("C08: dump_code failed", format!("block {:x?}: {:?}", b, e));
                        return;
                    }
                };
                let refd = reference_dump(&want);
                rep.add("dumps", 1);
                rep.add("dump_bytes", want.len() as u64);
                rep.distinct.insert(hash(&want));
                let (g, w) = (parse(&got), parse(&refd));
                if g != w {
                    let i = (0..g.len().max(w.len())).find(|i| g.get(*i) != w.get(*i)).unwrap();
                    rep.violate("C08: dump differs from the emitted bytes", format!("page {} block {:x?}: line {} is {:?}, expected {:?}", p, b, i, g.get(i), w.get(i)));
                }
                rep.sample(format!("dump of page {} block {:x?}: {} lines", p, b, g.len()));
            }
        }
        h.exec = Exec::None;
        h.end(rep);
    }
}

fn reference_dump(b: &[u8]) -> String {
    let dir = std::env::var("TMPDIR").unwrap_or("/tmp".into());
    let p = format!("{}/ref{}.bin", dir, std::process::id());
    std::fs::write(&p, b).unwrap();
    let o = std::process::Command::new("objdump").args(["-D", "-Mintel,x86-64", "-b", "binary", "-m", "i386", &p]).output().unwrap();
    let _ = std::fs::remove_file(&p);
    String::from_utf8_lossy(&o.stdout).to_string()
}

/// (offset, bytes and text) of every disassembly line
fn parse(s: &str) -> Vec<(u64, String)> {
    s.lines()
        .filter_map(|l| {
            let t = l.trim();
            if t == "..." {
                return Some((u64::MAX, "...".into()));
            }
            let (o, rest) = t.split_once(':')?;
            let o = u64::from_str_radix(o, 16).ok()?;
            if rest.trim().is_empty() {
                return None;
            }
            Some((o, rest.split_whitespace().collect::<Vec<_>>().join(" ")))
        })
        .collect()
}
