//! Random numbers, case running, budgets, evidence and violation reporting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64, u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed), mix(seed ^ 0x5bd1e995_1234_5678) | 1, 150_000)
    }
    /// A length around a power of two, which buffers and counters like, or `n` if enough of these were given out.
    pub fn long(&mut self, max: u64, n: u64) -> u64 {
        let base = *self.pick(&[64u64, 128, 128, 256, 256, 512, 1024, 4096, 8192, 65536]);
        let base = base.min(max);
        let rv = base + self.below(5) - 2 + if self.chance(1, 4) { self.below(base) } else { 0 };
        if rv > self.2 {
            return n;
        }
        self.2 -= rv;
        rv
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1 | 1);
        mix(self.0)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    /// true with probability n/d
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.idx(s.len())]
    }
}

// ---------------------------------------------------------------- allocator

/// Counts live blocks and bytes per thread and enforces a per-case budget.
pub struct CountingAlloc;

thread_local! {
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static BUDGET: Cell<i64> = const { Cell::new(i64::MAX) };
    static PAUSED: Cell<bool> = const { Cell::new(false) };
    static PEAK_BYTES: Cell<i64> = const { Cell::new(0) };
    static TOTAL_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static TOTAL_BYTES: Cell<i64> = const { Cell::new(0) };
}

/// Runs bookkeeping whose memory is not part of an experiment.
pub fn unaccounted<R>(f: impl FnOnce() -> R) -> R {
    let old = PAUSED.with(|p| p.replace(true));
    let rv = f();
    PAUSED.with(|p| p.set(old));
    rv
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            track(1, l.size() as i64);
            total(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // poison: whatever still looks at this memory sees garbage
        if l.size() <= 1 << 16 {
            std::ptr::write_bytes(p, 0xfd, l.size());
        }
        track(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            track(0, n as i64 - l.size() as i64);
            // the content may have moved
            total(n);
        }
        q
    }
}

fn total(bytes: usize) {
    if PAUSED.try_with(|p| p.get()).unwrap_or(true) {
        return;
    }
    let _ = TOTAL_BYTES.try_with(|c| c.set(c.get() + bytes as i64));
}

fn track(blocks: i64, bytes: i64) {
    if PAUSED.try_with(|p| p.get()).unwrap_or(true) {
        return;
    }
    let _ = LIVE_BLOCKS.try_with(|c| c.set(c.get() + blocks));
    if blocks > 0 {
        let _ = TOTAL_BLOCKS.try_with(|c| c.set(c.get() + blocks));
    }
    let _ = LIVE_BYTES.try_with(|c| {
        let n = c.get() + bytes;
        c.set(n);
        if bytes > 0 {
            let _ = PEAK_BYTES.try_with(|p| p.set(p.get().max(n)));
            let _ = BUDGET.try_with(|b| {
                if n > b.get() {
                    b.set(i64::MAX);
                    runaway("memory");
                }
            });
        }
    });
}

/// (blocks, bytes) allocated and not yet freed by this thread.
pub fn heap() -> (i64, i64) {
    (LIVE_BLOCKS.with(|c| c.get()), LIVE_BYTES.with(|c| c.get()))
}

/// What a piece of work needed on this thread.
#[derive(Debug, Clone, Copy)]
pub struct Usage {
    /// most bytes in use at a time, beyond those at the begin
    pub peak: i64,
    /// bytes still in use at the end
    pub kept: i64,
    /// blocks allocated
    pub blocks: i64,
    /// bytes allocated altogether, again for every change of a block's size
    pub bytes: i64,
    /// CPU time in ns
    pub cpu: u64,
}

pub fn measure<R>(f: impl FnOnce() -> R) -> (Usage, R) {
    let before = heap().1;
    PEAK_BYTES.with(|p| p.set(before));
    let blocks = TOTAL_BLOCKS.with(|c| c.get());
    let bytes = TOTAL_BYTES.with(|c| c.get());
    let t = clock_ns(libc::CLOCK_THREAD_CPUTIME_ID);
    let rv = f();
    let cpu = clock_ns(libc::CLOCK_THREAD_CPUTIME_ID) - t;
    let usage = Usage {
        peak: PEAK_BYTES.with(|p| p.get()) - before,
        kept: heap().1 - before,
        blocks: TOTAL_BLOCKS.with(|c| c.get()) - blocks,
        bytes: TOTAL_BYTES.with(|c| c.get()) - bytes,
        cpu,
    };
    (usage, rv)
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    start: std::time::Instant,
    evals: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    distinct_n: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String)>>,
    harness_errors: Mutex<Vec<String>>,
    stop: AtomicBool,
}

const MAX_VIOLATIONS: usize = 8;
const CASE_CPU_LIMIT_S: u64 = 40;
const CASE_MEM_LIMIT: i64 = 3 << 30;

struct Slot {
    active: AtomicU64, // clock id + 1 of the running case, 0 when idle
    since: AtomicU64,  // thread cpu ns when the case began
    group: AtomicUsize,
    idx: AtomicU64,
}
static SLOTS: [Slot; 64] = [const {
    Slot { active: AtomicU64::new(0), since: AtomicU64::new(0), group: AtomicUsize::new(0), idx: AtomicU64::new(0) }
}; 64];
static GROUPS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static CTX: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn the_ctx() -> Option<&'static Ctx> {
    let p = CTX.load(Acquire) as *const Ctx;
    unsafe { p.as_ref() }
}

fn runaway(what: &str) -> ! {
    BUDGET.with(|b| b.set(i64::MAX));
    let slot = MY_SLOT.with(|s| s.get());
    if let Some(ctx) = the_ctx() {
        if slot < 64 {
            report_runaway(ctx, slot, what);
        }
    }
    eprintln!("budget ({}) exceeded outside a case", what);
    unsafe { libc::_exit(2) }
}

fn report_runaway(ctx: &Ctx, slot: usize, what: &str) -> ! {
    let g = GROUPS.lock().unwrap()[SLOTS[slot].group.load(Relaxed)].clone();
    let i = SLOTS[slot].idx.load(Relaxed);
    let msg = format!("case {}:{} does not terminate within the {} budget", g, i, what);
    ctx.violations.lock().unwrap().push((format!("{}:{}", g, i), msg));
    ctx.write_out();
    unsafe { libc::_exit(1) }
}

fn clock_ns(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::clock_gettime(clock, &mut ts);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

/// Marker payload of panics that a workload injects on purpose.
pub struct Injected;

impl Ctx {
    pub fn new(prop: &'static str) -> &'static Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let only = std::env::var("MON_CASE").ok().and_then(|x| {
            let (g, i) = x.rsplit_once(':')?;
            Some((g.to_string(), i.parse().ok()?))
        });
        let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
            prop,
            tier,
            seed,
            only,
            start: std::time::Instant::now(),
            evals: AtomicU64::new(0),
            distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            distinct_n: AtomicU64::new(0),
            counters: Mutex::default(),
            samples: Mutex::default(),
            violations: Mutex::default(),
            harness_errors: Mutex::default(),
            stop: AtomicBool::new(false),
        }));
        CTX.store(ctx as *const Ctx as usize, Release);
        std::panic::set_hook(Box::new(|info| {
            let old = PAUSED.with(|p| p.replace(true));
            let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<opaque>".into()
            };
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((loc, msg)));
            PAUSED.with(|p| p.set(old));
        }));
        if !cfg!(miri) {
            ctx.watch();
        }
        ctx
    }

    /// Ends the process when a case does not end.
    fn watch(&'static self) {
        let ctx = self;
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (n, s) in SLOTS.iter().enumerate() {
                let a = s.active.load(Acquire);
                if a != 0 {
                    let idx = s.idx.load(Relaxed);
                    let since = s.since.load(Relaxed);
                    let now = clock_ns((a - 1) as u32 as i32);
                    if s.active.load(Acquire) == a
                        && s.idx.load(Relaxed) == idx
                        && s.since.load(Relaxed) == since
                        && now > since + CASE_CPU_LIMIT_S * 1_000_000_000
                    {
                        report_runaway(ctx, n, "CPU time");
                    }
                }
            }
        });
    }

    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Quick if cfg!(miri) || self.prop == "C01" => quick,
            Tier::Quick => quick * 2,
            Tier::Thorough => thorough,
        }
    }

    pub fn count(&self, key: &str, n: u64) {
        if n > 0 {
            *self.counters.lock().unwrap().entry(key.to_string()).or_default() += n;
        }
    }

    /// Runs `count` numbered cases on all cores.
    pub fn group(&'static self, name: &str, count: u64, f: impl Fn(&mut Case) + Sync) {
        if let Some((g, _)) = &self.only {
            if g != name {
                return;
            }
        }
        let gid = {
            let mut g = GROUPS.lock().unwrap();
            g.push(name.to_string());
            g.len() - 1
        };
        let next = AtomicU64::new(0);
        if cfg!(miri) {
            return self.group_here(name, gid, count, f);
        }
        let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 16);
        let workers = if self.only.is_some() { 1 } else { workers };
        std::thread::scope(|s| {
            for w in 0..workers {
                let next = &next;
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut clock: libc::clockid_t = 0;
                        unsafe {
                            libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock);
                        }
                        MY_SLOT.with(|m| m.set(w));
                        loop {
                            let i = match &self.only {
                                Some((_, i)) => {
                                    if next.fetch_add(1, Relaxed) > 0 {
                                        break;
                                    }
                                    *i
                                }
                                None => next.fetch_add(1, Relaxed),
                            };
                            if (i >= count && self.only.is_none()) || self.stop.load(Relaxed) {
                                break;
                            }
                            let slot = &SLOTS[w];
                            slot.group.store(gid, Relaxed);
                            slot.idx.store(i, Relaxed);
                            slot.since.store(clock_ns(clock), Relaxed);
                            slot.active.store(clock as u32 as u64 + 1, Release);
                            BUDGET.with(|b| b.set(heap().1 + CASE_MEM_LIMIT));
                            self.one(name, i, Some(slot), f);
                        }
                    })
                    .unwrap();
            }
        });
    }

    /// The cases of one shard, one after the other, for a limited time.
    fn group_here(&'static self, name: &str, _gid: usize, count: u64, f: impl Fn(&mut Case)) {
        let shard = std::env::var("MON_SHARD").ok().and_then(|x| {
            let (k, n) = x.split_once('/')?;
            Some((k.parse::<u64>().ok()?, n.parse::<u64>().ok()?))
        });
        let (k, n) = shard.unwrap_or((0, 1));
        let limit = std::env::var("MON_GROUP_S").ok().and_then(|x| x.parse().ok()).unwrap_or(1e9);
        if let Some((_, i)) = &self.only {
            return self.one(name, *i, None, &f);
        }
        let start = std::time::Instant::now();
        let mut i = k;
        while i < count && !self.stop.load(Relaxed) && start.elapsed().as_secs_f64() < limit {
            if std::env::var("MON_TRACE").is_ok() {
                eprintln!("case {}:{}", name, i);
            }
            self.one(name, i, None, &f);
            self.count(&format!("cases in {}", name), 1);
            i += n;
        }
    }

    fn one(&'static self, name: &str, i: u64, slot: Option<&Slot>, f: &impl Fn(&mut Case)) {
        let mut case = Case {
            ctx: self,
            group: name,
            idx: i,
            rng: Rng::new(mix(self.seed ^ hash_bytes(name.as_bytes())) ^ mix(i)),
            counts: BTreeMap::new(),
            label: String::new(),
        };
        let began = clock_ns(libc::CLOCK_THREAD_CPUTIME_ID);
        let rv = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
        let ms = (clock_ns(libc::CLOCK_THREAD_CPUTIME_ID) - began) / 1_000_000;
        if ms > 200 {
            self.slowest(ms, &format!("{}:{}", name, i));
        }
        BUDGET.with(|b| b.set(i64::MAX));
        if let Some(slot) = slot {
            slot.active.store(0, Release);
        }
        if rv.is_err() {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness_loc(&loc) {
                self.harness_errors.lock().unwrap().push(format!(
                    "{}:{} [{}] harness panic at {}: {}",
                    name, i, case.label, loc, msg
                ));
                self.stop.store(true, Relaxed);
            } else {
                let d = format!("panic in the library at {}: {}", loc, msg);
                case.violation(&d);
            }
        }
        for (k, v) in std::mem::take(&mut case.counts) {
            self.count(&k, v);
        }
    }

    fn slowest(&self, ms: u64, case: &str) {
        let mut c = self.counters.lock().unwrap();
        let m = c.entry("slowest case, CPU ms".to_string()).or_insert(0);
        if ms > *m {
            *m = ms;
            if std::env::var("MON_SLOW").is_ok() {
                eprintln!("slow: {} {} ms", case, ms);
            }
        }
    }

    pub fn report(&self, case: &str, detail: &str) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < MAX_VIOLATIONS {
            eprintln!("violation in {}: {}", case, detail);
            v.push((case.to_string(), detail.to_string()));
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
        }
    }

    fn write_out(&self) {
        let mut o = String::from("{");
        let violations = self.violations.lock().unwrap();
        let errors = self.harness_errors.lock().unwrap();
        o += &format!("\"property\":{},", js(self.prop));
        o += &format!("\"evaluations\":{},", self.evals.load(Relaxed));
        o += &format!("\"distinct\":{},", self.distinct_n.load(Relaxed));
        o += &format!("\"wall_s\":{:.3},", self.start.elapsed().as_secs_f64());
        o += "\"counters\":{";
        let c = self.counters.lock().unwrap();
        o += &c.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
        o += "},\"samples\":[";
        let s = self.samples.lock().unwrap();
        o += &s.iter().map(|x| js(x)).collect::<Vec<_>>().join(",");
        o += "],\"harness_errors\":[";
        o += &errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(",");
        o += "],\"violations\":[";
        o += &violations
            .iter()
            .map(|(c, d)| format!("{{\"case\":{},\"detail\":{}}}", js(c), js(d)))
            .collect::<Vec<_>>()
            .join(",");
        o += "]}\n";
        match std::env::var("MON_OUT") {
            Ok(p) => std::fs::write(p, o).unwrap(),
            Err(_) => print!("{}", o),
        }
    }

    /// Writes the result file and exits.
    pub fn finish(&'static self) -> ! {
        self.write_out();
        let code = if !self.violations.lock().unwrap().is_empty() {
            1
        } else if !self.harness_errors.lock().unwrap().is_empty()
            || (self.evals.load(Relaxed) == 0 && self.only.is_none())
        {
            for e in self.harness_errors.lock().unwrap().iter() {
                eprintln!("{}", e);
            }
            2
        } else {
            0
        };
        std::process::exit(code)
    }
}

fn is_harness_loc(loc: &str) -> bool {
    // derived code reports the place of its derive attribute, so files with derives
    // (zoo types, generated types) count as library code
    loc.starts_with("src/") && !loc.contains("derived") && !loc.contains("gen_run")
}

pub fn last_panic() -> (String, String) {
    let kept = unaccounted(|| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default());
    let copy = kept.clone();
    unaccounted(|| drop(kept));
    copy
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Case<'a> {
    pub ctx: &'static Ctx,
    pub group: &'a str,
    pub idx: u64,
    pub rng: Rng,
    counts: BTreeMap<String, u64>,
    pub label: String,
}

impl<'a> Case<'a> {
    /// One execution was judged; `fp` identifies it if it was not trivial.
    pub fn eval(&mut self, fp: Option<u64>) {
        unaccounted(|| self.eval_inner(fp))
    }
    fn eval_inner(&mut self, fp: Option<u64>) {
        self.ctx.evals.fetch_add(1, Relaxed);
        if let Some(h) = fp {
            if self.ctx.distinct_n.load(Relaxed) < 4_000_000
                && self.ctx.distinct[(h % 64) as usize].lock().unwrap().insert(h)
            {
                self.ctx.distinct_n.fetch_add(1, Relaxed);
            }
        }
    }
    pub fn count(&mut self, key: &str, n: u64) {
        if n > 0 {
            unaccounted(|| match self.counts.get_mut(key) {
                Some(x) => *x += n,
                None => {
                    self.counts.insert(key.to_string(), n);
                }
            })
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        unaccounted(|| self.sample_inner(f))
    }
    fn sample_inner(&mut self, f: impl FnOnce() -> String) {
        if self.idx % 1009 == 3 || self.ctx.only.is_some() {
            let mut s = self.ctx.samples.lock().unwrap();
            if s.len() < 12 {
                let mut t = f();
                if t.len() > 600 {
                    let mut n = 600;
                    while !t.is_char_boundary(n) {
                        n -= 1;
                    }
                    t.truncate(n);
                    t += "...";
                }
                s.push(format!("{}:{} {}", self.group, self.idx, t));
            }
        }
    }
    pub fn violation(&mut self, detail: &str) {
        unaccounted(|| self.violation_inner(detail))
    }
    fn violation_inner(&mut self, detail: &str) {
        let d = if self.label.is_empty() { detail.to_string() } else { format!("[{}] {}", self.label, detail) };
        let d: String = if d.len() > 6000 { d.chars().take(4000).collect::<String>() + "..." } else { d };
        self.ctx.report(&format!("{}:{}", self.group, self.idx), &d);
    }
    pub fn check(&mut self, ok: bool, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.violation(&d);
        }
        ok
    }
}
