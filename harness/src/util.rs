//! Command line, JSON-lines reporting and crash progress record.
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::*};

pub struct Args(pub BTreeMap<String, String>, pub Vec<String>);

impl Args {
    pub fn parse() -> Self {
        let mut m = BTreeMap::new();
        let mut pos = vec![];
        for a in std::env::args().skip(1) {
            if let Some(r) = a.strip_prefix("--") {
                if let Some((k, v)) = r.split_once('=') {
                    m.insert(k.to_string(), v.to_string());
                } else {
                    m.insert(r.to_string(), "1".into());
                }
            } else {
                pos.push(a);
            }
        }
        Args(m, pos)
    }
    pub fn u(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|v| v.parse().expect("number")).unwrap_or(d)
    }
    pub fn s(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    pub fn cmd(&self) -> &str {
        self.1.first().map(|s| s.as_str()).unwrap_or("")
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

/// Collects what the monitors observed; printed as JSON lines.
#[derive(Default)]
pub struct Report {
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: u64,
    /// hashes of the distinct non-trivial cases
    pub distinct: std::collections::HashSet<u64>,
    seen: BTreeMap<String, u64>,
    /// keep violations instead of printing them
    quiet: Option<String>,
}

pub fn hash<T: std::hash::Hash>(t: T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Report {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 12 {
            self.samples.push(s);
        }
    }
    pub fn silent() -> Report {
        Report { quiet: Some(String::new()), ..Default::default() }
    }
    pub fn first(&self) -> String {
        self.quiet.clone().unwrap_or_default()
    }
    /// take over the counts of another report
    pub fn absorb(&mut self, o: &mut Report) {
        for (k, v) in std::mem::take(&mut o.counts) {
            self.add(&k, v);
        }
        self.distinct.extend(o.distinct.drain());
    }
    /// `key`: what is wrong (deduplicates), `detail`: the witness.
    pub fn violate(&mut self, key: &str, detail: String) {
        self.violations += 1;
        let n = self.seen.entry(key.to_string()).or_insert(0);
        *n += 1;
        if let Some(q) = &mut self.quiet {
            if q.is_empty() {
                *q = format!("{} - {}", key, detail);
            }
            return;
        }
        if *n <= 2 && self.seen.len() <= 40 {
            let mut o = std::io::stdout().lock();
            let _ = writeln!(o, "{{\"violation\":{},\"detail\":{}}}", js(key), js(&detail));
            let _ = o.flush();
        }
    }
    /// Something went wrong that may also go wrong elsewhere: the driver runs `args` in a process of its own and
    /// reports a violation only if that goes well.
    pub fn suspect(&mut self, key: &str, detail: String, args: &[String]) {
        self.add("suspects", 1);
        let n = self.seen.entry(key.to_string()).or_insert(0);
        *n += 1;
        if *n <= 4 {
            let a: Vec<String> = args.iter().map(|x| js(x)).collect();
            println!("{{\"suspect\":{},\"detail\":{},\"args\":[{}]}}", js(key), js(&detail), a.join(","));
        }
    }
    pub fn finish(&self, hashes: Option<&str>) {
        if let Some(p) = hashes {
            let mut b = vec![];
            for h in &self.distinct {
                b.extend_from_slice(&h.to_le_bytes());
            }
            if HASHFD.load(SeqCst) >= 0 {
                use std::os::fd::FromRawFd;
                let mut f = unsafe { std::fs::File::from_raw_fd(HASHFD.load(SeqCst)) };
                let _ = f.write_all(&b);
            } else {
                std::fs::write(p, b).unwrap();
            }
        }
        let mut s = String::from("{\"done\":true,\"violations\":");
        s += &self.violations.to_string();
        s += ",\"counts\":{";
        s += &self.counts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
        s += "},\"samples\":[";
        s += &self.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",");
        s += "]}";
        println!("{}", s);
    }
}

static HASHFD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

/// Open the result file before the process confines itself.
pub fn hashes_init(path: Option<&str>) {
    use std::os::fd::IntoRawFd;
    if let Some(p) = path {
        HASHFD.store(std::fs::File::create(p).unwrap().into_raw_fd(), SeqCst);
    }
}

static PROG: AtomicU64 = AtomicU64::new(0);

/// Map the progress file: the driver reads it when this process dies.
pub fn progress_init(path: Option<&str>) {
    let Some(path) = path else { return };
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(4096).unwrap();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, 3, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        PROG.store(p as u64, SeqCst);
    }
}

/// No more progress notes (several threads): the last one stays.
pub fn progress_off() {
    PROG.store(0, SeqCst);
}

/// stage: 1 emitting, 2 running the reference, 3 running generated code, 4 API call
#[inline]
pub fn progress(case: u64, stage: u64) {
    let p = PROG.load(Relaxed) as *mut u64;
    if !p.is_null() {
        unsafe {
            p.write_volatile(case);
            p.add(1).write_volatile(stage);
        }
    }
}

pub fn progress_text(s: &str) {
    let p = PROG.load(Relaxed) as *mut u8;
    if !p.is_null() {
        let b = s.as_bytes();
        let n = b.len().min(4000);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(24), n);
            (p.add(16) as *mut u64).write_volatile(n as u64);
        }
    }
}

thread_local! { static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()));
            MSG.with(|x| *x.borrow_mut() = m.unwrap_or_default());
        } else {
            old(i)
        }
    }));
}

/// Run `f`; Err(message) if it panicked.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.map_err(|_| MSG.with(|x| x.borrow().clone()))
}

/// An instance by either constructor.
pub fn new_jit() -> monoasm::JitMemory {
    static N: AtomicU64 = AtomicU64::new(0);
    if N.fetch_add(1, SeqCst) % 3 == 1 {
        monoasm::JitMemory::default()
    } else {
        monoasm::JitMemory::new()
    }
}
