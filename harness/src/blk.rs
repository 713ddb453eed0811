//! Monitor of whole invocations: a block of statements written in one monoasm! invocation, with any expression
//! for the instance, must emit what the same statements emit one by one; inline data must be its value.
use crate::diff::release;
use crate::util::*;
use monoasm::*;

pub struct H {
    pub jit: JitMemory,
    pub n: u32,
}

impl H {
    pub fn get(&mut self) -> &mut JitMemory {
        self.n += 1;
        &mut self.jit
    }
}

pub struct Blk {
    pub name: &'static str,
    /// the instance expression counts its evaluations
    pub counted: bool,
    /// must be refused
    pub fail: bool,
    pub labels: usize,
    pub one: fn(&mut H, &[DestLabel]),
    pub sep: fn(&mut H, &[DestLabel]),
}

type Res = (Vec<u8>, Vec<u64>, Option<String>);

fn go(f: fn(&mut H, &[DestLabel]), n: usize, pre: usize, page: usize) -> (Res, u32) {
    let mut h = H { jit: JitMemory::new(), n: 0 };
    h.jit.select_page(page);
    h.jit.emit(&vec![0x90; pre]);
    let l: Vec<DestLabel> = (0..n).map(|_| h.jit.label()).collect();
    let e = caught(|| {
        f(&mut h, &l);
        h.jit.finalize();
    })
    .err();
    let len = h.jit.get_current();
    let base = &h.jit[Page(page)][Pos::from(0)] as *const u8 as u64;
    let code = unsafe { std::slice::from_raw_parts(base as *const u8, len).to_vec() };
    let at = l.iter().map(|l| caught(|| h.jit.get_label_u64(*l)).map(|a| a - base).unwrap_or(u64::MAX)).collect();
    let c = h.n;
    release(&mut h.jit);
    ((code, at, e), c)
}

pub fn run(rep: &mut Report, bs: &[Blk], part: u64, parts: u64) {
    for (k, b) in bs.iter().enumerate() {
        if k as u64 % parts != part {
            continue;
        }
        for (pre, page) in [(0usize, 0usize), (k % 37, 1)] {
            progress(k as u64, 1);
            progress_text(b.name);
            let (one, n) = go(b.one, b.labels, pre, page);
            if b.fail {
                rep.add("cases", 1);
                rep.distinct.insert(hash(b.name.as_bytes()));
                if one.2.is_none() {
                    rep.violate("C11: displacement outside 32 bits accepted", format!("{} emits {:02x?}", b.name, &one.0[pre..]));
                }
                continue;
            }
            let (sep, _) = go(b.sep, b.labels, pre, page);
            rep.add("cases", 1);
            rep.add("blocks", 1);
            rep.distinct.insert(hash(&one.0));
            if one != sep {
                let d = (0..one.0.len().max(sep.0.len())).find(|i| one.0.get(*i) != sep.0.get(*i));
                rep.violate(
                    "one invocation and separate ones differ",
                    format!("block {} page {} after {} bytes: first difference at {:?}; together {:02x?} labels {:x?} {:?}; separately {:02x?} labels {:x?} {:?} | {}",
                        k, page, pre, d, one.0, one.1, one.2, sep.0, sep.1, sep.2, b.name),
                );
            }
            if b.counted && n != 1 {
                rep.violate("the instance expression is evaluated more or less than once", format!("{} times: {}", n, b.name));
            }
            if k % 41 == 3 && page == 0 {
                rep.sample(format!("block of {} bytes equals its statements one by one: {}", one.0.len(), b.name.chars().take(200).collect::<String>()));
            }
        }
    }
}

pub fn main_with(bs: Vec<Blk>) {
    let a = Args::parse();
    install_panic_hook();
    progress_init(a.s("progress"));
    hashes_init(a.s("hashes"));
    let mut rep = Report::default();
    run(&mut rep, &bs, a.u("part", 0), a.u("parts", 1));
    rep.finish(a.s("hashes"));
}
