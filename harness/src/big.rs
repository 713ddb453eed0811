//! Monitor at scale: thousands of references to one label, items in one finalization, finalizations, labels and
//! patches in one instance, and emissions and blocks of many megabytes.
use crate::hist::{page_base, un};
use crate::rng::Rng;
use crate::util::*;
use monoasm::*;
use monoasm_macro::monoasm;

type F0 = extern "C" fn() -> u64;

fn call(a: u64) -> u64 {
    let f: F0 = unsafe { std::mem::transmute(a as usize) };
    f()
}

struct B<'a> {
    jit: JitMemory,
    base: [u64; 3],
    rep: &'a mut Report,
    r: Rng,
    what: String,
    bad: bool,
}

impl<'a> B<'a> {
    fn new(rep: &'a mut Report, seed: u64, what: String) -> B<'a> {
        progress_text(&what);
        progress(0, 4);
        let jit = new_jit();
        let base = [page_base(&jit, 0), page_base(&jit, 1), page_base(&jit, 2)];
        rep.add("big_histories", 1);
        rep.sample(what.clone());
        rep.distinct.insert(hash(("big", &what)));
        B { jit, base, rep, r: Rng::new(seed), what, bad: false }
    }
    fn violate(&mut self, tags: &[&str], key: &str, d: String) {
        self.bad = true;
        for t in tags {
            self.rep.violate(&format!("{}: {}", t, key), format!("{}: {}", self.what, d));
        }
    }
    fn here(&self) -> u64 {
        self.base[self.jit.get_page()] + self.jit.get_current() as u64
    }
    fn fin(&mut self) -> bool {
        let j = &mut self.jit;
        match caught(|| j.finalize()) {
            Ok(()) => true,
            Err(m) => {
                self.violate(&["C06", "C07", "C08", "C09", "C12"], "finalize panicked", m);
                false
            }
        }
    }
    fn addr(&mut self, l: DestLabel) -> Option<u64> {
        let j = &mut self.jit;
        caught(|| j.get_label_u64(l)).ok()
    }
    /// something else in the memory before the history begins
    fn dirty(&mut self, n: usize) {
        for p in 0..3 {
            unsafe { std::ptr::write_bytes(self.base[p] as *mut u8, 0xa5, n) };
        }
    }
    fn pad(&mut self, l: DestLabel, magic: u32) -> u64 {
        let a = self.here();
        self.jit.bind_label(l);
        let mut b = vec![0xb8u8]; // mov eax, magic; ret
        b.extend(magic.to_le_bytes());
        b.push(0xc3);
        self.jit.emit(&b);
        a
    }
    fn end(self) {
        let b = self.base[0] as usize;
        drop(self.jit);
        crate::galloc::free_big(b);
    }
}

const NREF: u64 = 7;

fn emit_ref(jit: &mut JitMemory, form: u64, l: DestLabel) {
    match form {
        0 => monoasm! { jit, lea rax, [rip + l]; ret; },
        1 => monoasm! { jit, jmp l; },
        2 => monoasm! { jit, call l; ret; },
        3 => monoasm! { jit, cmpq rax, rax; je l; int3; },
        4 => monoasm! { jit, movl rax, [rip + l]; ret; },
        5 => monoasm! { jit, cmpq rax, rax; jge l; int3; },
        _ => monoasm! { jit, xorq rax, rax; cmpb [rip + l], 0x5a; ret; },
    }
}

/// `n` references to few labels, from both pages, before and after the binding, over several finalizations
pub fn many_refs(rep: &mut Report, seed: u64, n: u64) {
    let mut b = B::new(rep, seed, format!("{} references (seed {})", n, seed));
    // the longest ones all wait for one label
    let nl = if n > 200_000 { 1 } else { 1 + b.r.below(3) };
    let ls: Vec<DestLabel> = (0..nl).map(|_| b.jit.label()).collect();
    let bind_at: Vec<u64> = (0..nl).map(|_| b.r.below(n + 1)).collect();
    let mut la = vec![0u64; nl as usize];
    let every = if n > 200_000 { 0 } else { *b.r.pick(&[0, 50, n / 7 + 1, n / 2 + 1]) };
    let mut refs = vec![];
    let mut cells = vec![];
    for k in 0..=n {
        for i in 0..nl as usize {
            if bind_at[i] == k {
                b.jit.select_page(b.r.clone().below(2) as usize);
                la[i] = b.pad(ls[i], 0x1000_0000 + i as u32);
            }
        }
        if b.r.chance(1, 40) {
            let p = b.r.below(2) as usize;
            b.jit.select_page(p);
        }
        if every != 0 && k % every == every - 1 && !b.fin() {
            return b.end();
        }
        let i = b.r.below(nl) as usize;
        if b.r.chance(1, 20) {
            let l = ls[i];
            cells.push((b.jit.abs_address(l), i));
        } else {
            let f = b.r.below(NREF);
            let pre = b.r.below(3) as usize;
            b.jit.emit(&vec![0x90u8; pre]);
            let at = b.here();
            let l = ls[i];
            let j = &mut b.jit;
            if let Err(m) = caught(|| emit_ref(j, f, l)) {
                b.violate(&["C06"], "emission panicked", m);
                return b.end();
            }
            refs.push((at, f, i));
        }
    }
    if !b.fin() || !b.fin() {
        return b.end();
    }
    let step = 1 + refs.len() / 6000;
    progress(n, 3);
    for (k, (at, f, i)) in refs.iter().enumerate() {
        if k % step != 0 && k > 300 && k + 300 < refs.len() {
            continue;
        }
        if k % 64 == 0 {
            progress_text(&format!("{}: reference {} of {} at {:#x} form {}", b.what, k, refs.len(), at, f));
        }
        let want = match f {
            0 => la[*i],
            4 => 0xb8 | (0x1000_0000 + *i as u64) << 8 & 0xffff_ff00,
            6 => 0,
            _ => 0x1000_0000 + *i as u64,
        };
        let got = call(*at);
        b.rep.add("reference_runs", 1);
        if got != want {
            let d = format!("reference {} of {} (form {}) at {:#x} gives {:#x}, expected {:#x}", k, refs.len(), f, at, got, want);
            b.violate(&["C06"], "reference does not reach its label", d);
            break;
        }
    }
    for (k, (c, i)) in cells.iter().enumerate() {
        let Some(a) = b.addr(*c) else {
            b.violate(&["C06", "C07"], "item not placed", format!("cell {}", k));
            break;
        };
        let v = unsafe { std::ptr::read_unaligned(a as *const u64) };
        b.rep.add("item_value_checks", 1);
        if v != la[*i] || a % 8 != 0 {
            let d = format!("cell {} of {} at {:#x} holds {:#x}, expected {:#x}", k, cells.len(), a, v, la[*i]);
            b.violate(&["C06", "C07"], "address cell", d);
            break;
        }
    }
    b.end();
}

/// `n` items of all kinds in `fins` finalizations
pub fn many_items(rep: &mut Report, seed: u64, n: u64, fins: u64) {
    let mut b = B::new(rep, seed, format!("{} items in {} finalizations (seed {})", n, fins, seed));
    b.dirty((n as usize * 20).max(1 << 16));
    let mut items: Vec<(DestLabel, usize, u64, Vec<u8>)> = vec![]; // label, page, align, value
    let mut placed: Vec<(u64, usize)> = vec![]; // address, length
    let mut lo = 0;
    for f in 0..fins {
        let code = [b.r.below(50) as usize, b.r.below(50) as usize];
        for p in 0..2 {
            b.jit.select_page(p);
            b.jit.emit(&vec![0x90u8; code[p]]);
        }
        for _ in 0..n / fins {
            let p = b.r.below(2) as usize;
            b.jit.select_page(p);
            let v = if b.r.chance(1, 3) { b.r.below(5) } else { b.r.next() };
            let s = if b.r.chance(1, 50) { b.r.below(400) } else { b.r.below(20) } as usize;
            let j = &mut b.jit;
            items.push(match b.r.below(9) {
                0 => (j.const_i64(v as i64), p, 16, v.to_le_bytes().to_vec()),
                1 => (j.const_f64(f64::from_bits(v)), p, 16, v.to_le_bytes().to_vec()),
                2 => (j.const_i32(v as i32), p, 4, (v as u32).to_le_bytes().to_vec()),
                3 => (j.constant(s), p, 16, vec![0; s]),
                4 => (j.const_align8(), p, 8, vec![]),
                5 => (j.data_i64(v as i64), 2, 16, v.to_le_bytes().to_vec()),
                6 => (j.data_i32(v as i32), 2, 4, (v as u32).to_le_bytes().to_vec()),
                7 => (j.data(s), 2, 16, vec![0; s]),
                _ => (j.const_f64(-f64::from_bits(v)), p, 16, (-f64::from_bits(v)).to_bits().to_le_bytes().to_vec()),
            });
        }
        if !b.fin() {
            return b.end();
        }
        for k in lo..items.len() {
            let (l, p, al, ref v) = items[k];
            let Some(a) = b.addr(l) else {
                b.violate(&["C07"], "item not placed", format!("item {}", k));
                return b.end();
            };
            let off = a.wrapping_sub(b.base[p]);
            if off >= crate::hist::PAGE || a % al != 0 {
                let d = format!("item {} ({} bytes, page {}, alignment {}) at {:#x}", k, v.len(), p, al, a);
                b.violate(&["C07"], "item alignment or page", d);
                return b.end();
            }
            placed.push((a, v.len()));
        }
        lo = items.len();
        // everything declared so far
        for k in 0..items.len() {
            if f + 1 < fins && k % 17 != 0 {
                continue;
            }
            let (a, n) = placed[k];
            let got = unsafe { std::slice::from_raw_parts(a as *const u8, n) };
            b.rep.add("item_value_checks", 1);
            if got != &items[k].3[..] {
                let d = format!("finalization {}: item {} of {} at {:#x} holds {:02x?}, expected {:02x?}", f, k, items.len(), a, &got[..n.min(32)], &items[k].3[..n.min(32)]);
                b.violate(&["C07"], "item value", d);
                return b.end();
            }
            if b.addr(items[k].0) != Some(a) {
                b.violate(&["C12", "C07"], "item moved", format!("item {}", k));
                return b.end();
            }
        }
    }
    let mut s = placed.clone();
    s.retain(|x| x.1 > 0);
    s.sort();
    for w in s.windows(2) {
        if w[0].0 + w[0].1 as u64 > w[1].0 {
            b.violate(&["C07"], "items overlap", format!("{:#x?}", w));
            break;
        }
    }
    b.end();
}

/// blocks of many megabytes over memory that was used before
pub fn blocks(rep: &mut Report, seed: u64, size: usize) {
    let mut b = B::new(rep, seed, format!("block of {} bytes (seed {})", size, seed));
    b.dirty(size + (1 << 16));
    for p in 0..2 {
        b.jit.select_page(p);
        let k = b.r.below(40) as usize;
        b.jit.emit(&vec![0x90u8; k]);
    }
    let first = b.jit.data_i32(0x11223344);
    let d1 = b.jit.data(size);
    let d2 = b.jit.data_i64(0x5566778899aabbcc);
    let c1 = b.jit.constant(size);
    let c2 = b.jit.const_i32(0x0badcafe);
    if !b.fin() {
        return b.end();
    }
    let v: Vec<Option<u64>> = [first, d1, d2, c1, c2].iter().map(|l| b.addr(*l)).collect();
    if v.iter().any(|x| x.is_none()) {
        b.violate(&["C07"], "item not placed", format!("{:x?}", v));
        return b.end();
    }
    let v: Vec<u64> = v.into_iter().flatten().collect();
    let rd = |a: u64, n: usize| unsafe { std::slice::from_raw_parts(a as *const u8, n) };
    b.rep.add("item_value_checks", 5);
    for (name, blk, next, page) in [("data", v[1], v[2], 2usize), ("constant", v[3], v[4], 1)] {
        if blk.wrapping_sub(b.base[page]) >= crate::hist::PAGE || blk % 16 != 0 {
            b.violate(&["C07"], "item alignment or page", format!("{} block at {:#x}", name, blk));
        }
        if next < blk + size as u64 {
            b.violate(&["C07"], "items overlap", format!("{} block {:#x}..{:#x}, next item {:#x}", name, blk, blk + size as u64, next));
        }
        if let Some(k) = rd(blk, size).iter().position(|x| *x != 0) {
            b.violate(&["C07"], "block not zero", format!("{} block, byte {:#x}", name, k));
        }
    }
    if rd(v[0], 4) != 0x11223344u32.to_le_bytes() || rd(v[2], 8) != 0x5566778899aabbccu64.to_le_bytes() || rd(v[4], 4) != 0x0badcafeu32.to_le_bytes() {
        b.violate(&["C07"], "item value", "next to a large block".into());
    }
    for p in 0..3 {
        let e = un(b.jit[Page(p)].code_block.last().unwrap().2);
        let tail = rd(b.base[p] + e as u64, 64);
        if e < size + (1 << 15) && tail.iter().any(|x| *x != 0xa5) {
            b.violate(&["C10", "C08"], "wrote beyond the position", format!("page {} behind {:#x}: {:02x?}", p, e, tail));
        }
    }
    b.end();
}

/// slices of any length, in one call
pub fn slices(rep: &mut Report, seed: u64, max: usize) {
    let mut b = B::new(rep, seed, format!("slices up to {} bytes (seed {})", max, seed));
    let mut want: [Vec<u8>; 2] = [vec![], vec![]];
    let mut fins = 0;
    for k in 0..24 {
        let n = match b.r.below(4) {
            0 => b.r.below(max as u64) as usize,
            1 => (1usize << b.r.below(64 - (max as u64).leading_zeros() as u64)) + b.r.below(3) as usize - 1,
            2 => b.r.below(5000) as usize,
            _ => b.r.below(300) as usize,
        }
        .min(max);
        let p = b.r.below(2) as usize;
        let n = n.min((200 << 20) - want[p].len());
        b.jit.select_page(p);
        let mut x = b.r.next();
        let s: Vec<u8> = (0..n)
            .map(|_| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (x >> 56) as u8
            })
            .collect();
        progress_text(&format!("emit {} bytes on page {}", n, p));
        let j = &mut b.jit;
        if let Err(m) = caught(|| j.emit(&s)) {
            b.violate(&["C08"], "emission panicked", m);
            return b.end();
        }
        want[p].extend(&s);
        b.rep.add("image_compares", 1);
        b.rep.distinct.insert(hash(("slice", n)));
        if b.jit.get_current() != want[p].len() {
            let d = format!("position {:#x} after emitting {} bytes, expected {:#x}", b.jit.get_current(), n, want[p].len());
            b.violate(&["C08"], "reported position", d);
            return b.end();
        }
        if b.r.chance(1, 3) {
            if !b.fin() {
                return b.end();
            }
            fins += 1;
        }
        if k % 8 == 7 {
            for q in 0..2 {
                b.jit.select_page(q);
                let got = unsafe { std::slice::from_raw_parts(b.base[q] as *const u8, want[q].len()) };
                if got != &want[q][..] {
                    let k = (0..got.len()).find(|k| got[*k] != want[q][*k]).unwrap();
                    b.violate(&["C08"], "emitted bytes", format!("page {} byte {:#x}", q, k));
                    return b.end();
                }
                let sl = b.jit.as_slice();
                if sl.len() > want[q].len() || sl != &want[q][..sl.len()] || (fins > 0 && !b.jit[Page(q)].code_block.is_empty() && sl.len() != un(b.jit[Page(q)].code_block.last().unwrap().1)) {
                    let d = format!("page {} as_slice has {} bytes", q, sl.len());
                    b.violate(&["C08"], "code slice", d);
                    return b.end();
                }
            }
        }
    }
    b.end();
}

/// `n` finalizations
pub fn many_fins(rep: &mut Report, seed: u64, n: u64) {
    let mut b = B::new(rep, seed, format!("{} finalizations (seed {})", n, seed));
    let mut pend: Vec<(u64, u64, DestLabel)> = vec![]; // reference, form, label
    let mut open: Vec<(DestLabel, u64)> = vec![]; // label, bind at
    let mut bound: Vec<(DestLabel, u64, u32)> = vec![]; // address, magic
    let mut data: Vec<(DestLabel, u64, u64)> = vec![];
    let mut blocks: [Vec<(usize, usize, usize)>; 2] = [vec![], vec![]];
    let mut top = [0usize; 2];
    let mut end = [0usize; 2];
    for f in 0..n {
        let act = b.r.below(6);
        if act == 0 && open.len() < 6 {
            let l = b.jit.label();
            let at = f + [1, 2, 300, n / 2, n][b.r.below(5) as usize].max(1);
            open.push((l, at.min(n - 1)));
        }
        if act == 1 && !open.is_empty() && pend.len() < 40 {
            let l = b.r.pick(&open.clone()).0;
            let p = b.r.below(2) as usize;
            b.jit.select_page(p);
            let form = [0, 1, 2, 3, 5][b.r.below(5) as usize];
            pend.push((b.here(), form, l));
            emit_ref(&mut b.jit, form, l);
        }
        if act == 2 && data.len() < 60 {
            let v = b.r.next();
            data.push((b.jit.data_i64(v as i64), v, 0));
        }
        let due: Vec<DestLabel> = open.iter().filter(|x| x.1 <= f).map(|x| x.0).collect();
        for l in due {
            open.retain(|x| x.0 != l);
            let m = b.r.next() as u32;
            let a = b.pad(l, m);
            bound.push((l, a, m));
        }
        let cp = b.jit.get_page();
        for p in 0..2 {
            b.jit.select_page(p);
            end[p] = b.jit.get_current();
        }
        b.jit.select_page(cp);
        if !b.fin() {
            return b.end();
        }
        b.rep.add("finalizations", 1);
        for p in 0..2 {
            b.jit.select_page(p);
            let now = b.jit.get_current();
            b.jit.select_page(cp);
            blocks[p].push((top[p], end[p], now));
            top[p] = now;
            let got = &b.jit[Page(p)].code_block;
            let last = got.last().map(|x| (un(x.0), un(x.1), un(x.2)));
            if got.len() != blocks[p].len() || last != blocks[p].last().copied() {
                let d = format!("finalization {}: page {} has {} blocks, last {:x?}; expected {}, {:x?}", f, p, got.len(), last, blocks[p].len(), blocks[p].last());
                b.violate(&["C08"], "code block list", d);
                return b.end();
            }
        }
        if f % 997 == 0 || f + 1 == n {
            for p in 0..2 {
                let got: Vec<(usize, usize, usize)> = b.jit[Page(p)].code_block.iter().map(|x| (un(x.0), un(x.1), un(x.2))).collect();
                b.rep.add("image_compares", 1);
                if got != blocks[p] {
                    b.violate(&["C08"], "code block list", format!("finalization {}: page {}", f, p));
                    return b.end();
                }
            }
            for (l, a, _) in bound.clone() {
                b.rep.add("label_queries", 1);
                if b.addr(l) != Some(a) {
                    b.violate(&["C12"], "label address", format!("finalization {}: bound at {:#x}", f, a));
                    return b.end();
                }
            }
        }
        for d in 0..data.len() {
            if data[d].2 == 0 {
                data[d].2 = b.addr(data[d].0).unwrap_or(0);
            }
            if data[d].2 == 0 || f % 97 == 0 && unsafe { *(data[d].2 as *const u64) } != data[d].1 {
                b.violate(&["C07"], "item value", format!("finalization {}: data item {}", f, d));
                return b.end();
            }
        }
        if f % 61 == 0 || f + 1 == n {
            progress(f, 3);
            let mut keep = vec![];
            for (at, form, l) in std::mem::take(&mut pend) {
                let Some((_, a, m)) = bound.iter().find(|x| x.0 == l) else {
                    keep.push((at, form, l));
                    continue;
                };
                progress_text(&format!("{}: reference at {:#x} form {} to {:#x}", b.what, at, form, a));
                let want = if form == 0 { *a } else { *m as u64 };
                let got = call(at);
                b.rep.add("reference_runs", 1);
                if got != want {
                    b.violate(&["C06"], "reference does not reach its label", format!("finalization {}: form {} at {:#x} gives {:#x}, expected {:#x}", f, form, at, got, want));
                    return b.end();
                }
            }
            pend = keep;
            progress(f, 4);
            if bound.len() > 60 {
                bound.drain(..40);
            }
        }
    }
    b.end();
}

/// `n` labels bound at their own places
pub fn many_labels(rep: &mut Report, seed: u64, n: u64) {
    let mut b = B::new(rep, seed, format!("{} labels (seed {})", n, seed));
    let mut v: Vec<(DestLabel, u64)> = vec![];
    let mut later: Vec<DestLabel> = vec![];
    for _ in 0..n {
        let l = b.jit.label();
        if b.r.chance(1, 3) {
            later.push(l);
        }
        if b.r.chance(1, 6) {
            let p = b.r.below(2) as usize;
            b.jit.select_page(p);
        }
        let k = b.r.below(4) as usize;
        b.jit.emit(&vec![0x90u8; k]);
        let l = if later.len() > 100 && b.r.chance(1, 2) { later.swap_remove(b.r.clone().below(later.len() as u64) as usize) } else { b.jit.label() };
        let a = b.here();
        b.jit.bind_label(l);
        v.push((l, a));
    }
    for round in 0..2 {
        for (k, (l, a)) in v.iter().enumerate() {
            let (l, a) = (*l, *a);
            b.rep.add("label_queries", 4);
            let j = &mut b.jit;
            let got = caught(|| {
                [
                    j.get_label_u64(l),
                    j.get_label_address(l).as_ptr() as u64,
                    j.get_label_addr::<u64, u64>(l) as usize as u64,
                    j.get_label_addr2::<u64, u64, u64>(l) as usize as u64,
                ]
            });
            if got.as_ref().ok() != Some(&[a; 4]) {
                b.violate(&["C12"], "label address", format!("round {}: label {} of {} bound at {:#x}: queries answer {:x?}", round, k, n, a, got));
                return b.end();
            }
        }
        for l in later.iter().take(2000) {
            if let Some(a) = b.addr(*l) {
                b.violate(&["C12", "C11"], "unbound label has an address", format!("{:#x}", a));
                return b.end();
            }
        }
        let p = b.r.below(2) as usize;
        b.jit.select_page(p);
        if !b.fin() {
            return b.end();
        }
    }
    b.end();
}

/// a few used labels among very many unused ones
pub fn idle(rep: &mut Report, seed: u64, n: u64) {
    let mut b = B::new(rep, seed, format!("{} labels, few of them used (seed {})", n, seed));
    let mut used = vec![];
    let mut at: Vec<u64> = (0..40).map(|_| b.r.below(n)).collect();
    for k in 8..=24u64 {
        for d in [0, 1] {
            at.push((1 << k) - 1 + d);
        }
    }
    // and the first ones, with those a power of two above them
    for d in 0..3 {
        at.push(d);
        for k in 16..=24u64 {
            at.push((1 << k) + d);
        }
    }
    at.push(n - 1);
    at.retain(|x| *x < n);
    at.sort();
    at.dedup();
    let mut last = 0;
    for x in at {
        for _ in last..x {
            let _ = b.jit.label();
        }
        last = x + 1;
        let l = b.jit.label();
        used.push(l);
    }
    let mut refs = vec![];
    let mut where_ = vec![0u64; used.len()];
    for pass in 0..3 {
        for (k, l) in used.clone().into_iter().enumerate() {
            let p = b.r.below(2) as usize;
            b.jit.select_page(p);
            if pass == 1 {
                where_[k] = b.pad(l, 0x2000_0000 + k as u32);
            } else {
                let f = b.r.below(4);
                refs.push((b.here(), f, k));
                emit_ref(&mut b.jit, f, l);
            }
        }
        if !b.fin() {
            return b.end();
        }
    }
    for (k, l) in used.iter().enumerate() {
        b.rep.add("label_queries", 1);
        let got = b.addr(*l);
        if got != Some(where_[k]) {
            b.violate(&["C12"], "label address", format!("used label {} of {} bound at {:#x}: the query answers {:x?}", k, n, where_[k], got));
            break;
        }
    }
    for (at, form, k) in refs {
        progress(k as u64, 3);
        progress_text(&format!("{}: reference at {:#x} form {}", b.what, at, form));
        let want = if form == 0 { where_[k] } else { 0x2000_0000 + k as u64 };
        let got = call(at);
        b.rep.add("reference_runs", 1);
        if got != want {
            b.violate(&["C06"], "reference does not reach its label", format!("form {} at {:#x} to label {} gives {:#x}, expected {:#x}", form, at, k, got, want));
            return b.end();
        }
        let a = b.addr(used[k]);
        b.rep.add("label_queries", 1);
        if a != Some(where_[k]) {
            b.violate(&["C12"], "label address", format!("label {} bound at {:#x}: {:x?}", k, where_[k], a));
            return b.end();
        }
    }
    progress(0, 4);
    b.end();
}

/// many patched sites, many patches of the same site
pub fn many_patches(rep: &mut Report, seed: u64, n: u64) {
    let mut b = B::new(rep, seed, format!("{} patches (seed {})", n, seed));
    let nd = 40;
    let mut dest = vec![];
    let ns = 1 + b.r.below(2000);
    let mut sites = vec![];
    for k in 0..ns.max(nd) {
        let p = b.r.below(2) as usize;
        b.jit.select_page(p);
        if k < nd {
            let l = b.jit.label();
            let a = b.pad(l, 0x2000_0000 + k as u32);
            dest.push((l, a));
        }
        if k < ns {
            let d = b.r.below(dest.len() as u64) as usize;
            let (s, l) = (b.jit.label(), dest[d].0);
            let j = &mut b.jit;
            j.bind_label(s);
            let at = j.get_current_address();
            if k % 2 == 0 {
                monoasm! { j, jmp l; ret; };
            } else {
                monoasm! { j, call l; ret; };
            }
            sites.push((s, at, d));
        }
    }
    if !b.fin() {
        return b.end();
    }
    let total = [b.jit[Page(0)].code_block[0].2, b.jit[Page(1)].code_block[0].2].map(un);
    let mut img: Vec<Vec<u8>> = (0..2).map(|p| unsafe { std::slice::from_raw_parts(b.base[p] as *const u8, total[p] + 64) }.to_vec()).collect();
    for k in 0..n {
        let i = b.r.below(sites.len() as u64) as usize;
        let d = b.r.below(dest.len() as u64) as usize;
        let (s, at, _) = sites[i];
        let l = dest[d].0;
        let j = &mut b.jit;
        let res = if k % 2 == 0 { caught(|| j.apply_jmp_patch(s, l)) } else { caught(|| j.apply_jmp_patch_address(at, l)) };
        b.rep.add("patches", 1);
        if let Err(m) = res {
            b.violate(&["C09"], "patch panicked", m);
            return b.end();
        }
        sites[i].2 = d;
        if k % 5000 == 4999 && !b.fin() {
            return b.end();
        }
        progress(k, 3);
        let got = call(at.as_ptr() as u64);
        progress(k, 4);
        if got != 0x2000_0000 + d as u64 {
            b.violate(&["C09"], "patched jump goes elsewhere", format!("patch {} of site {}: reached {:#x}, expected {:#x}", k, i, got, 0x2000_0000 + d));
            return b.end();
        }
    }
    // all sites, and nothing but the sites
    for (k, (_, at, d)) in sites.iter().enumerate() {
        let a = at.as_ptr() as u64;
        progress(k as u64, 3);
        let got = call(a);
        if got != 0x2000_0000 + *d as u64 {
            let d = format!("site {}: reached {:#x}, expected {:#x}", k, got, 0x2000_0000 + *d);
            b.violate(&["C09"], "patched jump goes elsewhere", d);
            return b.end();
        }
        let p = if a.wrapping_sub(b.base[0]) < crate::hist::PAGE { 0 } else { 1 };
        let o = (a - b.base[p]) as usize;
        let m = unsafe { std::slice::from_raw_parts(a as *const u8, 5) };
        img[p][o..o + 5].copy_from_slice(m);
    }
    for p in 0..2 {
        let m = unsafe { std::slice::from_raw_parts(b.base[p] as *const u8, total[p]) };
        if m != &img[p][..total[p]] {
            let k = (0..m.len()).find(|k| m[*k] != img[p][*k]).unwrap();
            b.violate(&["C09"], "patching changed something else", format!("page {} byte {:#x}", p, k));
        }
    }
    b.end();
}

pub fn run(rep: &mut Report, mode: &str, seed: u64, part: u64, parts: u64, scale: u64) {
    crate::eng::confine();
    for k in 0..4 * scale {
        let id = k * parts + part;
        let s = hash((seed, id, "big"));
        let mut r = Rng::new(s);
        // one of three sizes, the largest beyond 2^16
        let n = match id % 3 {
            // once beyond 2^20, and labels beyond 2^24
            _ if id == 2 && mode == "big-labels" => (1 << 24) + 77,
            _ if id == 2 && mode == "big-refs" => (1 << 20) + 77,
            _ if id == 5 && mode == "big-refs" => (1 << 18) + (1 << 16) + 77,
            0 => 257 + r.below(300),
            1 => 3000 + r.below(4000),
            _ => 65537 + r.below(6000),
        };
        match mode {
            "big-refs" => {
                if id == 2 {
                    idle(rep, s, n);
                    continue;
                }
                many_refs(rep, s, n);
                if id % 4 == 0 {
                    many_fins(rep, s, n);
                }
            }
            "big-items" => {
                let f = *r.pick(&[1u64, 1, 3, 40]);
                many_items(rep, s, n, f);
                let b = match r.below(3) {
                    0 => (1usize << r.range(8, 24)) + r.below(3) as usize - 1,
                    1 => r.below(20 << 20) as usize,
                    _ => r.below(200_000) as usize,
                };
                blocks(rep, s, b);
            }
            "big-emit" => {
                slices(rep, s, if id % 2 == 0 { 20 << 20 } else { 70_000 });
                if id % 4 == 1 {
                    many_fins(rep, s, n);
                }
            }
            "big-patch" => many_patches(rep, s, n),
            "big-labels" => {
                if id == 2 {
                    idle(rep, s, n);
                    continue;
                }
                many_labels(rep, s, n);
                if id % 8 == 3 {
                    many_fins(rep, s, n);
                }
            }
            _ => panic!("mode"),
        }
    }
}
