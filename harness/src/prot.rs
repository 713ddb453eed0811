//! Monitor of memory protection: compares the kernel's view of the address space with what the instances own.
use crate::eng::{self, St};
use crate::galloc;
use crate::hist::*;
use crate::rng::Rng;
use crate::util::*;
use std::os::unix::fs::FileExt;

type Maps = Vec<(u64, u64, u8)>; // start, end, r=1 w=2 x=4

fn snapshot(f: &std::fs::File) -> Maps {
    let mut b = vec![];
    let mut chunk = vec![0u8; 1 << 16];
    loop {
        let n = f.read_at(&mut chunk, b.len() as u64).unwrap();
        if n == 0 {
            break;
        }
        b.extend_from_slice(&chunk[..n]);
    }
    String::from_utf8_lossy(&b)
        .lines()
        .filter_map(|l| {
            let mut w = l.split_whitespace();
            let (a, p) = (w.next()?, w.next()?.as_bytes());
            let (lo, hi) = a.split_once('-')?;
            let perm = (p[0] == b'r') as u8 | ((p[1] == b'w') as u8) << 1 | ((p[2] == b'x') as u8) << 2;
            Some((u64::from_str_radix(lo, 16).ok()?, u64::from_str_radix(hi, 16).ok()?, perm))
        })
        .collect()
}

/// first address in [lo, hi) that does not have exactly this protection
fn differs(m: &Maps, lo: u64, hi: u64, perm: u8) -> Option<(u64, Option<u8>)> {
    let mut a = lo;
    while a < hi {
        match m.iter().find(|r| r.0 <= a && a < r.1) {
            Some(r) if r.2 == perm => a = r.1,
            Some(r) => return Some((a, Some(r.2))),
            None => return Some((a, None)),
        }
    }
    None
}

fn perm(p: u8) -> String {
    [(1, 'r'), (2, 'w'), (4, 'x')].iter().map(|(b, c)| if p & b != 0 { *c } else { '-' }).collect()
}

fn check(rep: &mut Report, f: &std::fs::File, before: &Maps, inst: &[[u64; 3]], why: &str) -> bool {
    let now = snapshot(f);
    rep.add("maps_checked", 1);
    rep.add("regions_seen", now.len() as u64);
    for (k, b) in inst.iter().enumerate() {
        for p in 0..3 {
            let want = if p < 2 { 7 } else { 3 };
            if let Some((a, got)) = differs(&now, b[p], b[p] + PAGE, want) {
                rep.violate(
                    if p < 2 { "C18: protection of a code page" } else { "C18: protection of the data page" },
                    format!("{}: instance {} page {} at {:#x}: {} at offset {:#x}, expected {}", why, k, p, b[p], got.map(perm).unwrap_or("unmapped".into()), a - b[p], perm(want)),
                );
                return false;
            }
        }
        // the block's guard regions
        if let Some((lo, hi)) = galloc::block(b[0] as usize) {
            let g = galloc::GUARD as u64;
            for (x, y) in [(lo as u64 - g, lo as u64), (hi as u64, hi as u64 + g)] {
                rep.add("guard_checks", 1);
                if let Some((a, got)) = differs(&now, x, y, 0) {
                    rep.violate("C18: protection outside the instance changed", format!("{}: guard next to instance {}: {:?} at {:#x}", why, k, got.map(perm), a));
                    return false;
                }
            }
        }
    }
    let ours = |a: u64| inst.iter().any(|b| (0..3).any(|p| b[p] <= a && a < b[p] + PAGE));
    let code = |a: u64| inst.iter().any(|b| (0..2).any(|p| b[p] <= a && a < b[p] + PAGE));
    for r in &now {
        // walk the region at the granularity of boundaries
        let mut pts: Vec<u64> = vec![r.0];
        for o in before {
            for x in [o.0, o.1] {
                if x > r.0 && x < r.1 {
                    pts.push(x);
                }
            }
        }
        for b in inst {
            for p in 0..3 {
                for x in [b[p], b[p] + PAGE] {
                    if x > r.0 && x < r.1 {
                        pts.push(x);
                    }
                }
            }
        }
        for a in pts {
            let old = before.iter().find(|o| o.0 <= a && a < o.1).map(|o| o.2);
            if ours(a) {
                continue;
            }
            if let Some(o) = old {
                if o != r.2 {
                    rep.violate("C18: protection outside the instance changed", format!("{}: {:#x} was {}, is {}", why, a, perm(o), perm(r.2)));
                    return false;
                }
            } else if r.2 & 4 != 0 && !code(a) {
                rep.violate("C18: foreign executable memory", format!("{}: {:#x} is {}", why, a, perm(r.2)));
                return false;
            }
        }
    }
    true
}

/// use the memory: write everywhere, run code everywhere in the code pages, nowhere in the data page
fn probe(rep: &mut Report, r: &mut Rng, arena: u64, b: &[u64; 3], why: &str) {
    for p in 0..3 {
        let mut offs: Vec<u64> = vec![0, 1, 4095, 4096, PAGE / 2 - 1, PAGE / 2, PAGE - 4096, PAGE - 4097, PAGE - 1];
        for _ in 0..6 {
            offs.push(r.below(PAGE));
        }
        for o in offs {
            let a = b[p] + o;
            progress_text(&format!("{}: probing page {} offset {:#x}", why, p, o));
            progress(o, 4);
            let save = unsafe { (a as *const u8).read_volatile() };
            unsafe { (a as *mut u8).write_volatile(0xc3) };
            let mut st = St { gpr: [0; 16], flags: 0, mxcsr: 0x1f80, xmm: [[0; 2]; 16] };
            st.gpr[4] = arena + 2048;
            unsafe { ((arena + 2048) as *mut u64).write(eng::exit_addr()) };
            let out = eng::run(a, &st);
            unsafe { (a as *mut u8).write_volatile(save) };
            rep.add("probes", 1);
            rep.distinct.insert(hash((p, o, why)));
            let ok = if p < 2 { out.sig == 0 } else { out.sig == libc::SIGSEGV as u64 && out.rip == a };
            if !ok {
                rep.violate(
                    if p < 2 { "C18: code page not executable" } else { "C18: data page executable" },
                    format!("{}: running code at page {} offset {:#x}: signal {} at {:#x}", why, p, o, out.sig, out.rip),
                );
                return;
            }
        }
    }
}

/// Creation while the system refuses memory or protection, in a copy of this process: it fails (panic or abort),
/// or the instance has everything it needs.
fn refused(rep: &mut Report, others: &[[u64; 3]], prot: i64, mem: i64, all: bool) {
    let what = format!("creation, mprotect call {} and allocation {} refused{}", prot, mem, if all { ", and all later ones" } else { "" });
    progress(0, 4);
    progress_text(&what);
    let mut fd = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fd[0]);
            libc::alarm(60);
            let say = |s: String| {
                libc::write(fd[1], s.as_ptr() as *const _, s.len());
            };
            let pages = |j: &monoasm::JitMemory| [page_base(j, 0), page_base(j, 1), page_base(j, 2)];
            let mine = std::fs::File::open("/proc/self/maps").unwrap();
            let judge = |p: &[u64; 3], why: &str| {
                let now = snapshot(&mine);
                for (k, b) in p.iter().enumerate() {
                    if let Some((a, got)) = differs(&now, *b, *b + PAGE, if k < 2 { 7 } else { 3 }) {
                        say(format!("{}: page {} at {:#x} is {} at {:#x}\n", why, k, b, got.map(perm).unwrap_or("unmapped".into()), a));
                        return;
                    }
                }
            };
            crate::fault::arm(prot, mem, all);
            let j = caught(monoasm::JitMemory::new);
            let n = crate::fault::disarm();
            match &j {
                Ok(j) => judge(&pages(j), &format!("an instance was created although {} calls were refused, but", n)),
                Err(_) => say(format!("+refused {}\n", n)),
            }
            for o in others {
                judge(o, "another instance, created before");
            }
            match caught(new_jit) {
                Ok(k) => judge(&pages(&k), "the next instance"),
                Err(e) => say(format!("the next creation, with nothing refused, fails: {}\n", e)),
            }
            std::mem::forget(j);
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fd[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        rep.add("creation_faults", 1);
        rep.distinct.insert(hash((&what, "fault")));
        for l in String::from_utf8_lossy(&out).lines() {
            if l.starts_with('+') {
                rep.add("creations_refused", 1);
            } else {
                rep.violate("C18: creation under refused memory or protection", format!("{}: {}", what, l));
            }
        }
        if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGABRT {
            rep.add("creations_refused", 1);
        } else if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            rep.violate("C18: creation under refused memory or protection", format!("{}: the process ended with status {:#x}", what, st));
        }
    }
}

pub fn run(rep: &mut Report, seed: u64, part: u64, scale: u64) {
    let f = std::fs::File::open("/proc/self/maps").unwrap();
    let arena = eng::init(seed);
    let old = monoasm::JitMemory::new();
    let old = [page_base(&old, 0), page_base(&old, 1), page_base(&old, 2)];
    for (p, m) in [(0, -1), (1, -1), (2, -1), (-1, 0), (-1, 1)] {
        for every in [false, true] {
            refused(rep, &[old], p, m, every);
        }
    }
    eng::confine();
    let mut r = Rng::sub(seed, 0x9407 + part);
    for round in 0..scale {
        let mut hs: Vec<Hist> = vec![];
        let before = snapshot(&f);
        let n = 1 + r.below(4);
        for k in 0..n {
            let id = part << 32 | round << 8 | k;
            // the mappings of the instances made before must not change either
            let mid = snapshot(&f);
            let prof = profile(["mix", "patch", "items"][r.below(3) as usize]);
            let h = if r.chance(1, 2) {
                Hist::new(seed, id, prof, Exec::Eng(arena.base), rep)
            } else {
                // much of the pages is in use already
                let mut off = [0usize; 3];
                for o in off.iter_mut() {
                    *o = match r.below(4) {
                        0 => 0,
                        1 => PAGE as usize - LIM,
                        2 => (r.below((PAGE as usize - LIM) as u64 / 4096) * 4096) as usize,
                        _ => (1 << r.range(12, 27)) as usize,
                    };
                }
                progress(id, 4);
                progress_text("JitMemory::new");
                Hist::with(Box::new(new_jit()), off, seed, id, prof, Exec::Eng(arena.base), rep)
            };
            let mut all: Vec<[u64; 3]> = hs.iter().map(Hist::pages).collect();
            all.push(h.pages());
            if !check(rep, &f, &mid, &all, "after creation") {
                return;
            }
            hs.push(h);
        }
        let all: Vec<[u64; 3]> = hs.iter().map(Hist::pages).collect();
        for b in &all {
            probe(rep, &mut r, arena.base, b, "fresh");
        }
        for s in 0..r.range(40, 160) {
            let i = r.below(hs.len() as u64) as usize;
            let fins = hs[i].fins;
            let mut quiet = Report::silent();
            hs[i].step(&mut quiet);
            rep.add("api_steps", 1);
            if hs[i].fins != fins || s % 16 == 0 {
                rep.distinct.insert(hash((part, round, s, hs[i].sig)));
                if !check(rep, &f, &before, &all, "during use") {
                    return;
                }
            }
        }
        if r.chance(1, 3) {
            // items of many megabytes, in any page that has room
            let i = r.below(hs.len() as u64) as usize;
            let n = (1usize << r.range(12, 26)) + r.below(5000) as usize;
            let sel = r.below(2) as usize;
            let h = &mut hs[i];
            h.dead = true; // its shadow image ends here
            h.jit.select_page(sel);
            for p in [sel, 2] {
                if h.off[p] + LIM + n + 4096 < PAGE as usize {
                    let _ = if p == 2 { h.jit.data(n) } else { h.jit.constant(n) };
                }
            }
            progress_text(&format!("finalize with items of {:#x} bytes", n));
            h.jit.finalize();
            rep.add("large_items", 1);
            if !check(rep, &f, &before, &all, "after large items") {
                return;
            }
        }
        for b in &all {
            probe(rep, &mut r, arena.base, b, "used");
        }
        check(rep, &f, &before, &all, "at the end");
        rep.sample(format!("round {}: {} instances at {:x?}", round, n, all));
        for h in hs {
            let mut quiet = Report::silent();
            h.end(&mut quiet);
        }
    }
}
