//! Many threads do the same few operations on instances of their own, as fast as they can: whatever state the
//! instances share, they collide on it.
use crate::hist::page_base;
use crate::rng::Rng;
use crate::util::*;
use monoasm::*;
use monoasm_macro::monoasm;
use std::sync::{Arc, Barrier};

pub const KINDS: [&str; 9] = ["patch", "labels", "emission", "instructions", "references", "items", "creation", "queries", "all of them"];

struct C {
    a: u64,
    b: u64,
    x: u64,
    d: i32,
    i: i64,
    f: u64,
}

fn combos(seed: u64, t: u64) -> Vec<C> {
    let mut r = Rng::sub(seed, 0xC0 + t);
    (0..64)
        .map(|_| {
            let x = *r.pick(&[0u64, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
            let d = match r.below(3) {
                0 => 0,
                1 => r.next() as i8 as i32,
                _ => r.next() as i32,
            };
            C { a: r.below(16), b: r.below(16), x, d, i: if r.chance(1, 2) { r.next() as i8 as i64 } else { r.next() as i32 as i64 }, f: r.below(8) }
        })
        .collect()
}

fn inst(jit: &mut JitMemory, c: &C) {
    let (a, b, x, d, i) = (c.a, c.b, c.x, c.d, c.i);
    match c.f {
        0 => monoasm! { jit, movq R(a), [R(b) + R(x) * 8 + (d)]; },
        1 => monoasm! { jit, addq R(a), (i); },
        2 => monoasm! { jit, movl [R(b) + (d)], R(a); },
        3 => monoasm! { jit, movq R(a), (i); },
        4 => monoasm! { jit, cmpb R(a), R(b); },
        5 => monoasm! { jit, movsd xmm(a), [R(b) + R(x) * 2]; },
        6 => monoasm! { jit, xchgq R(a), R(b); },
        _ => monoasm! { jit, pushq R(a); popq R(b); },
    }
}

/// what each instruction looks like when nobody else is at work
fn alone(v: &[C]) -> Vec<Vec<u8>> {
    let mut jit = JitMemory::new();
    let base = page_base(&jit, 0);
    let out = v
        .iter()
        .map(|c| {
            let p = jit.get_current();
            inst(&mut jit, c);
            unsafe { std::slice::from_raw_parts((base as usize + p) as *const u8, jit.get_current() - p) }.to_vec()
        })
        .collect();
    crate::galloc::free_big(base as usize);
    out
}

fn rd<T: Copy>(a: u64) -> T {
    unsafe { (a as *const T).read_unaligned() }
}

macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

fn work(kind: usize, seed: u64, t: u64, n: u64, cs: &[C], reference: &[Vec<u8>]) -> Result<u64, String> {
    let mut r = Rng::sub(seed, 0x4A44 + t * 16 + kind as u64);
    let mut jit = new_jit();
    let base = [page_base(&jit, 0), page_base(&jit, 1), page_base(&jit, 2)];
    let mut ops = 0;
    match kind {
        0 => {
            let (s, u) = (jit.label(), jit.label());
            let mut ds = vec![];
            for k in 0..8u64 {
                jit.select_page((k & 1) as usize);
                jit.emit(&vec![0x90; (t * 131 + k * 17) as usize + 1]);
                let l = jit.label();
                jit.bind_label(l);
                ds.push((l, base[(k & 1) as usize] + jit.get_current() as u64));
            }
            jit.bind_label(s);
            let at = base[1] + jit.get_current() as u64;
            let d = ds[0].0;
            monoasm! { &mut jit, jmp d; }
            jit.finalize();
            for _ in 0..n {
                let (l, a) = *r.pick(&ds);
                if r.chance(1, 2) {
                    jit.apply_jmp_patch(s, l);
                } else {
                    jit.apply_jmp_patch_address(CodePtr::from(at as *mut u8), l);
                }
                let got = (at + 5).wrapping_add(rd::<i32>(at + 1) as i64 as u64);
                ensure!(got == a && rd::<u8>(at) == 0xe9, "jump at {:#x} patched to {:#x} leads to {:#x}", at, a, got);
                ops += 1;
            }
            let _ = u;
        }
        1 => {
            let idle = jit.label();
            for k in 0..n {
                let l = jit.label();
                if k % 3 == 0 {
                    jit.select_page((k % 2) as usize);
                    jit.emitb(t as u8);
                }
                let p = jit.get_page();
                let want = base[p] + jit.get_current() as u64;
                jit.bind_label(l);
                let got = (jit.get_label_u64(l), jit.get_label_address(l).as_ptr() as u64);
                ensure!(got == (want, want), "label bound at {:#x} is at {:x?}", want, got);
                ops += 1;
            }
            ensure!(caught(|| jit.get_label_u64(idle)).is_err(), "a label nobody bound has an address");
        }
        2 => {
            let mut p = [0u64; 2];
            for k in 0..n.min(4_000_000) {
                let v = r.next() ^ t;
                let s = (k / 7 % 2) as usize;
                if k % 7 == 0 {
                    jit.select_page(s);
                }
                let m = match k % 5 {
                    0 => {
                        jit.emitb(v as u8);
                        1
                    }
                    1 => {
                        jit.emitw(v as u16);
                        2
                    }
                    2 => {
                        jit.emitl(v as u32);
                        4
                    }
                    3 => {
                        jit.emitq(v);
                        8
                    }
                    _ => {
                        jit.emit(&v.to_le_bytes()[..6]);
                        6
                    }
                };
                let got: u64 = rd(base[s] + p[s]);
                let mask = if m == 8 { u64::MAX } else { (1 << (m * 8)) - 1 };
                ensure!(got & mask == v & mask, "{} bytes of {:#x} emitted at {:#x}: {:#x}", m, v, base[s] + p[s], got);
                p[s] += m;
                ensure!(jit.get_current() as u64 == p[s] && jit.get_page() == s, "position {:#x} of page {} instead of {:#x} of page {}", jit.get_current(), jit.get_page(), p[s], s);
                ops += 1;
            }
        }
        3 => {
            for _ in 0..n {
                let k = r.below(cs.len() as u64) as usize;
                let p = jit.get_current();
                inst(&mut jit, &cs[k]);
                let got = unsafe { std::slice::from_raw_parts((base[0] as usize + p) as *const u8, jit.get_current() - p) };
                ensure!(got == reference[k], "an instruction is {:02x?}, alone it is {:02x?}", got, reference[k]);
                ops += 1;
            }
        }
        4 => {
            for k in 0..n / 8 {
                jit.select_page((k % 2) as usize);
                let at = base[(k % 2) as usize] + jit.get_current() as u64;
                let l = jit.label();
                monoasm! { &mut jit, lea rax, [rip + l]; ret; }
                jit.emit(&vec![0xcc; r.below(24) as usize]);
                if r.chance(1, 3) {
                    jit.select_page((k % 2 ^ 1) as usize);
                }
                let want = base[jit.get_page()] + jit.get_current() as u64;
                monoasm! { &mut jit, l: int3; }
                jit.finalize();
                let f: extern "C" fn() -> u64 = unsafe { std::mem::transmute(at) };
                let to = (at + 7).wrapping_add(rd::<i32>(at + 3) as i64 as u64);
                ensure!(rd::<[u8; 3]>(at) != [0x48, 0x8d, 0x05] || to == want, "a reference to {:#x} leads to {:#x}", want, to);
                let got = f();
                ensure!(got == want, "a reference to {:#x} leads to {:#x}", want, got);
                ops += 1;
            }
        }
        5 => {
            for k in 0..n / 16 {
                jit.select_page((k % 2) as usize);
                let (v, w, z) = (r.next(), r.next(), r.next());
                let c = jit.const_i64(v as i64);
                let d = jit.data_i64(w as i64);
                let e = jit.data_i32(z as i32);
                let cell = jit.abs_address(d);
                let blk = jit.data(16);
                jit.finalize();
                let (c, d, e, cell, blk) = (jit.get_label_u64(c), jit.get_label_u64(d), jit.get_label_u64(e), jit.get_label_u64(cell), jit.get_label_u64(blk));
                ensure!(rd::<u64>(c) == v, "constant {:#x} is {:#x}", v, rd::<u64>(c));
                ensure!(rd::<u64>(d) == w, "data {:#x} is {:#x}", w, rd::<u64>(d));
                ensure!(rd::<u32>(e) == z as u32, "data {:#x} is {:#x}", z as u32, rd::<u32>(e));
                ensure!(rd::<u64>(cell) == d, "cell {:#x} is {:#x}", d, rd::<u64>(cell));
                ensure!(rd::<u128>(blk) == 0, "block is {:#x}", rd::<u128>(blk));
                ensure!(c - base[(k % 2) as usize] < crate::hist::PAGE && [d, e, blk].iter().all(|x| x - base[2] < crate::hist::PAGE), "items of {:x?} at {:x?}", base, [c, d, e, cell, blk]);
                ops += 1;
            }
        }
        6 => {
            for k in 0..(n / 4000).max(3) {
                let mut j = new_jit();
                let b = [page_base(&j, 0), page_base(&j, 1), page_base(&j, 2)];
                for p in 0..2 {
                    j.select_page(p);
                    let v = (t << 32 | k << 8 | p as u64) as i64;
                    let c = j.const_i64(v);
                    let l = j.label();
                    monoasm! { &mut j, l: movq rax, [rip + c]; ret; }
                    j.finalize();
                    let f: extern "C" fn(u64) -> i64 = j.get_label_addr(l);
                    let got = f(0);
                    ensure!(got == v && j.get_label_u64(l) == b[p], "a new instance computes {:#x} instead of {:#x}", got, v);
                }
                for p in 0..3 {
                    unsafe { ((b[p] + crate::hist::PAGE - 8) as *mut u64).write(t ^ k) };
                    ensure!(rd::<u64>(b[p] + crate::hist::PAGE - 8) == t ^ k, "the end of page {} of a new instance changes by itself", p);
                }
                crate::galloc::free_big(b[0] as usize);
                ops += 1;
            }
        }
        7 => {
            let ls: Vec<(DestLabel, u64)> = (0..200u64)
                .map(|k| {
                    jit.select_page((k % 2) as usize);
                    jit.emit(&vec![1; 1 + (t as usize * 3 + k as usize) % 29]);
                    let l = jit.label();
                    jit.bind_label(l);
                    (l, base[(k % 2) as usize] + jit.get_current() as u64)
                })
                .collect();
            for k in 0..n {
                let (l, a) = *r.pick(&ls);
                let got = match k % 4 {
                    0 => jit.get_label_u64(l),
                    1 => jit.get_label_address(l).as_ptr() as u64,
                    2 => jit.get_label_addr::<u64, u64>(l) as usize as u64,
                    _ => jit.get_label_addr2::<u64, u64, u64>(l) as usize as u64,
                };
                ensure!(got == a, "label bound at {:#x} is at {:#x}", a, got);
                let off = r.next() % (3 * crate::hist::PAGE);
                ensure!(jit.include((base[0] + off) as *mut u8) == (off < 2 * crate::hist::PAGE), "membership of offset {:#x}", off);
                ops += 1;
            }
        }
        _ => {
            for k in 0..8u64 {
                ops += work(((k + t) % 8) as usize, seed, t, n / 8, cs, reference)?;
            }
        }
    }
    crate::galloc::free_big(base[0] as usize);
    Ok(ops)
}

pub fn run(rep: &mut Report, seed: u64, part: u64, scale: u64, nt: u64, only: u64) {
    progress(part, 4);
    progress_text("threads at the same operations");
    progress_off();
    for (kind, name) in KINDS.iter().enumerate() {
        if only != u64::MAX && only != kind as u64 {
            continue;
        }
        let n = 40_000 * scale;
        let s = seed.wrapping_mul(1000) + part;
        let start = Arc::new(Barrier::new(nt as usize));
        let prepared: Vec<_> = (0..nt)
            .map(|t| {
                let c = combos(s, t);
                let a = alone(&c);
                (c, a)
            })
            .collect();
        let js: Vec<_> = prepared
            .into_iter()
            .enumerate()
            .map(|(t, (c, a))| {
                let start = start.clone();
                std::thread::spawn(move || {
                    start.wait();
                    caught(|| work(kind, s, t as u64, n, &c, &a)).unwrap_or_else(|e| Err(format!("panic: {}", e)))
                })
            })
            .collect();
        for (t, j) in js.into_iter().enumerate() {
            match j.join().unwrap_or(Err("panic".into())) {
                Ok(k) => {
                    rep.add("concurrent_operations", k);
                    rep.add(&format!("concurrent: {}", name), k);
                }
                Err(e) => {
                    let d = format!("{}, {} threads at once: thread {}: {}", name, nt, t, e);
                    let key = "C16: an instance misbehaves while other threads do the same";
                    if nt == 1 {
                        rep.violate(key, d);
                    } else {
                        let args: Vec<String> = [("mode", "hammer".into()), ("seed", seed.to_string()), ("part", part.to_string()), ("scale", scale.to_string()), ("threads", "1".into()), ("kind", kind.to_string())]
                            .iter()
                            .map(|(k, v): &(&str, String)| format!("--{}={}", k, v))
                            .collect();
                        rep.suspect(key, d, &args);
                    }
                }
            }
        }
        rep.distinct.insert(hash(("hammer", part, kind, nt)));
    }
    rep.sample(format!("{} threads: {:?}", nt, KINDS));
}
