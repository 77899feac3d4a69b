//! Case-space enumeration, choice-tape exploration, evidence and violations.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static PANIC_AT: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// Marker used by the harness when it is itself inconsistent (never a verdict about the code).
pub const HARNESS: &str = "HARNESS-ERROR";

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Run code; a panic located in the harness is a harness error, one located elsewhere is Err(text).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_AT.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC_AT.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if msg.starts_with("library-loop") {
                Err(msg)
            } else if loc.starts_with("src/") || loc.contains("/verif/mc/") {
                Err(format!("{}: harness panicked at {}: {}", HARNESS, loc, msg))
            } else {
                Err(format!("library panicked at {}: {}", loc, msg))
            }
        }
    }
}

#[derive(Default)]
pub struct Case {
    pub transitions: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub note: String,
    pub devs: u32,
}
impl Case {
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() < 4_000_000 {
            self.states.insert(hash_of(t));
        }
    }
    /// one complete execution compared with the model; `o` = the observed outcome
    pub fn trace<T: Hash + ?Sized>(&mut self, o: &T) {
        self.traces += 1;
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.insert(hash_of(o));
        }
    }
}

pub struct Violation {
    pub section: String,
    pub index: u64,
    pub text: String,
}

pub struct SectionStat {
    name: String,
    cases: u64,
    done: u64,
    transitions: u64,
    traces: u64,
    wall: f64,
    sample: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: i64,
    pub only: Option<(String, u64)>,
    pub deadline: Instant,
    pub start: Instant,
    pub threads: usize,
    pub states: Mutex<HashSet<u64>>,
    pub outcomes: Mutex<HashSet<u64>>,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub sections: Mutex<Vec<SectionStat>>,
    pub violations: Mutex<Vec<Violation>>,
    pub harness_errors: Mutex<Vec<String>>,
    pub capped: AtomicBool,
    pub assumptions: Mutex<Vec<String>>,
    pub bounds: Mutex<Vec<String>>,
    /// seconds after which one case counts as hung
    pub case_limit: AtomicU64,
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, only: Option<(String, u64)>) -> Ctx {
        let cap = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 420 });
        Ctx {
            prop: prop.to_string(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            only,
            start: Instant::now(),
            deadline: Instant::now() + Duration::from_secs(cap),
            threads: std::env::var("MC_THREADS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
            states: Default::default(),
            outcomes: Default::default(),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            sections: Default::default(),
            violations: Default::default(),
            harness_errors: Default::default(),
            capped: AtomicBool::new(false),
            assumptions: Default::default(),
            bounds: Default::default(),
            case_limit: AtomicU64::new(if thorough { 900 } else { 150 }),
        }
    }
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn bound(&self, s: &str) {
        self.bounds.lock().unwrap().push(s.to_string());
    }

    /// so late that one violation is enough
    fn slow(&self) -> bool {
        self.start.elapsed() > Duration::from_secs(60)
    }
    /// Enumerate all `n` cases of a section, in parallel.
    pub fn section(&self, name: &str, n: u64, f: impl Fn(&mut Case, u64) -> Res + Sync) {
        self.section_t(name, n, self.threads, f)
    }
    pub fn section_t(&self, name: &str, n: u64, threads: usize, f: impl Fn(&mut Case, u64) -> Res + Sync) {
        if let Some((s, _)) = &self.only {
            if s != name {
                return;
            }
        }
        // the verdict is known already
        if self.slow() && !self.violations.lock().unwrap().is_empty() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let bad = AtomicUsize::new(0);
        let (tr0, tc0) = (self.transitions.load(Relaxed), self.traces.load(Relaxed));
        let block = (n / (threads as u64 * 32)).max(1).min(512);
        let sample = Mutex::new(String::new());
        let slots: Vec<AtomicU64> = (0..threads.max(1) * 2).map(|_| AtomicU64::new(0)).collect();
        let slot_no = AtomicUsize::new(0);
        let finished = AtomicBool::new(false);
        let work = |only: Option<u64>| {
            let slot = &slots[slot_no.fetch_add(1, Relaxed) % slots.len()];
            let mut c = Case::default();
            loop {
                let (lo, hi) = match only {
                    Some(i) => (i, i + 1),
                    None => {
                        let lo = next.fetch_add(block, Relaxed);
                        (lo, (lo + block).min(n))
                    }
                };
                if lo >= n {
                    break;
                }
                for i in lo..hi {
                    if bad.load(Relaxed) >= if self.slow() { 1 } else { 8 } {
                        break;
                    }
                    if Instant::now() > self.deadline {
                        self.capped.store(true, Relaxed);
                        break;
                    }
                    c.note.clear();
                    slot.store(((t0.elapsed().as_secs() + 1) << 40) | (i & ((1 << 40) - 1)), Relaxed);
                    let r = match guarded(|| f(&mut c, i)) {
                        Ok(r) => r,
                        Err(e) => Err(e),
                    };
                    slot.store(0, Relaxed);
                    done.fetch_add(1, Relaxed);
                    if let Err(e) = r {
                        if e.starts_with(HARNESS) {
                            self.harness_errors.lock().unwrap().push(format!("{}[{}]: {}", name, i, e));
                        } else {
                            bad.fetch_add(1, Relaxed);
                            self.violations.lock().unwrap().push(Violation {
                                section: name.to_string(),
                                index: i,
                                text: format!("{}\n{}", e, c.note),
                            });
                        }
                    } else if i == n / 2 {
                        *sample.lock().unwrap() = c.note.clone();
                    }
                }
                if c.states.len() > 50_000 {
                    let mut s = self.states.lock().unwrap();
                    if s.len() < 40_000_000 {
                        s.extend(c.states.drain());
                    }
                }
                if only.is_some() || bad.load(Relaxed) >= if self.slow() { 1 } else { 8 } || self.capped.load(Relaxed) {
                    break;
                }
            }
            self.states.lock().unwrap().extend(c.states.drain());
            self.outcomes.lock().unwrap().extend(c.outcomes.drain());
            self.transitions.fetch_add(c.transitions, Relaxed);
            self.traces.fetch_add(c.traces, Relaxed);
        };
        let limit = self.case_limit.load(Relaxed);
        std::thread::scope(|s| {
            s.spawn(|| {
                // a case that never returns is a hang of the code under test: nothing else can end it
                while !finished.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(5));
                    let now = t0.elapsed().as_secs() + 1;
                    for x in &slots {
                        let v = x.load(Relaxed);
                        if v != 0 && now > (v >> 40) + limit {
                            self.hung(name, v & ((1 << 40) - 1), limit);
                        }
                    }
                }
            });
            if let Some((_, i)) = &self.only {
                if *i < n {
                    work(Some(*i));
                }
            } else {
                std::thread::scope(|s| {
                    for _ in 0..threads.min(n as usize).max(1) {
                        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || work(None)).unwrap();
                    }
                });
            }
            finished.store(true, Relaxed);
        });
        let st = SectionStat {
            name: name.to_string(),
            cases: n,
            done: done.load(Relaxed),
            transitions: self.transitions.load(Relaxed) - tr0,
            traces: self.traces.load(Relaxed) - tc0,
            wall: t0.elapsed().as_secs_f64(),
            sample: sample.into_inner().unwrap(),
        };
        println!(
            "  {:<34} cases {:>9}/{:<9} traces {:>10} transitions {:>11}  {:.1}s",
            st.name, st.done, st.cases, st.traces, st.transitions, st.wall
        );
        self.sections.lock().unwrap().push(st);
    }

    fn hung(&self, section: &str, index: u64, limit: u64) -> ! {
        let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
        let key = format!("{}#{}", section, index);
        let _ = std::fs::create_dir_all(format!("{}/replays", root));
        let path = format!("{}/replays/{}-{}-{}.txt", root, self.prop, section.replace('/', "_").replace(' ', "_"), index);
        let _ = std::fs::write(
            &path,
            format!(
                "property: {}\ntier: {}\nsection: {}\nindex: {}\nreplay: cd /verif && ./run.sh replay {}\n\nno progress: the case did not return within {} s\n",
                self.prop,
                if self.thorough { "thorough" } else { "quick" },
                section,
                index,
                path,
                limit
            ),
        );
        println!("  counterexample [{}]: no progress: the case did not return within {} s", key, limit);
        println!("VIOLATION property={} replay={}", self.prop, path);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(1)
    }

    pub fn finish(self, root: &str) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let mut v = self.violations.into_inner().unwrap();
        v.sort_by(|a, b| (&a.section, a.index).cmp(&(&b.section, b.index)));
        let herr = self.harness_errors.into_inner().unwrap();
        let known = load_known(root, &self.prop);
        let mut real = 0;
        let mut lines = vec![];
        let mut seen: HashSet<String> = HashSet::new();
        let mut known_hit: HashSet<String> = HashSet::new();
        for x in &v {
            let key = format!("{}#{}", x.section, x.index);
            if known.iter().any(|(k, _)| *k == key) {
                known_hit.insert(key);
                continue;
            }
            real += 1;
            if !seen.insert(x.section.clone()) {
                continue;
            }
            let dir = format!("{}/replays", root);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{}-{}.txt", dir, self.prop, x.section.replace('/', "_").replace(' ', "_"), x.index);
            let body = format!(
                "property: {}\ntier: {}\nsection: {}\nindex: {}\nreplay: cd /verif && ./run.sh replay {}\n\n{}\n",
                self.prop,
                if self.thorough { "thorough" } else { "quick" },
                x.section,
                x.index,
                path,
                x.text
            );
            let _ = std::fs::write(&path, body);
            let mut t = x.text.replace('\n', " | ");
            if t.len() > 1500 {
                let mut k = 1500;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
            }
            println!("  counterexample [{}#{}]: {}", x.section, x.index, t);
            lines.push(format!("VIOLATION property={} replay={}", self.prop, path));
        }
        for (k, t) in &known {
            if known_hit.contains(k) {
                println!("KNOWN-FINDING: property={} {}", self.prop, t);
            }
        }
        let secs = self.sections.into_inner().unwrap();
        let states = self.states.into_inner().unwrap().len();
        let outcomes = self.outcomes.into_inner().unwrap().len();
        let capped = self.capped.load(Relaxed);
        if self.only.is_none() {
            let mut j = String::new();
            j.push_str(&format!(
                "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{",
                js(&self.prop),
                js(if self.thorough { "thorough" } else { "quick" }),
                self.seed
            ));
            j.push_str(&format!(
                "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"exhaustive\":{},",
                states,
                self.transitions.load(Relaxed),
                self.traces.load(Relaxed),
                outcomes,
                !capped
            ));
            j.push_str("\"sections\":[");
            for (i, s) in secs.iter().enumerate() {
                if i > 0 {
                    j.push(',');
                }
                j.push_str(&format!(
                    "{{\"name\":{},\"cases\":{},\"cases_run\":{},\"traces\":{},\"transitions\":{},\"wall_s\":{:.2}}}",
                    js(&s.name),
                    s.cases,
                    s.done,
                    s.traces,
                    s.transitions,
                    s.wall
                ));
            }
            j.push_str("],\"bounds\":[");
            j.push_str(&self.bounds.into_inner().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
            j.push_str("],\"samples\":[");
            let mut samples: Vec<String> = secs
                .iter()
                .filter(|s| !s.sample.is_empty())
                .map(|s| {
                    let mut t = s.sample.clone();
                    if t.len() > 400 {
                        let mut k = 400;
                        while !t.is_char_boundary(k) {
                            k -= 1;
                        }
                        t.truncate(k);
                    }
                    js(&format!("{}: {}", s.name, t))
                })
                .collect();
            if samples.is_empty() {
                samples = secs.iter().map(|s| js(&format!("{}: {} cases", s.name, s.done))).collect();
            }
            j.push_str(&samples.join(","));
            j.push_str("],\"state_rule\":\"distinct hashes of (configuration, input consumed so far, model state) at which the implementation was compared with the model\"}");
            let mut a = self.assumptions.into_inner().unwrap();
            a.push("bounded exploration: nothing is claimed about inputs, histories or schedules outside the stated alphabets and bounds".into());
            j.push_str(&format!(",\"assumptions\":[{}]", a.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
            j.push_str(&format!(",\"wall_s\":{:.2},\"violations\":{}}}\n", wall, real));
            let _ = std::fs::create_dir_all(format!("{}/evidence", root));
            std::fs::write(format!("{}/evidence/{}.json", root, self.prop), j).unwrap();
        }
        println!(
            "{}: states {} transitions {} traces {} distinct outcomes {} violations {} harness errors {} capped {} wall {:.1}s",
            self.prop,
            states,
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            outcomes,
            real,
            herr.len(),
            capped,
            wall
        );
        for h in herr.iter().take(5) {
            println!("  {}", h);
        }
        for l in &lines {
            println!("{}", l);
        }
        if real > 0 {
            1
        } else if !herr.is_empty() {
            2
        } else {
            0
        }
    }
}

fn load_known(root: &str, prop: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)) {
        for l in s.lines() {
            let p = format!("known: property={} key=", prop);
            if let Some(r) = l.strip_prefix(&p) {
                let mut it = r.splitn(2, ' ');
                let k = it.next().unwrap_or("").to_string();
                let t = it.next().unwrap_or("").to_string();
                out.push((k, t));
            }
        }
    }
    out
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Choice tape: replays a prefix, then takes the default (0) everywhere.
#[derive(Default, Debug)]
pub struct Tape {
    prefix: Vec<u8>,
    pub log: Vec<(u8, u8)>,
    pub diverged: bool,
}
impl Tape {
    pub fn choose(&mut self, n: usize) -> usize {
        let i = self.log.len();
        let n8 = n.min(255) as u8;
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c >= n8 {
            self.diverged = true;
            self.log.push((0, n8));
            return 0;
        }
        self.log.push((c, n8));
        c as usize
    }
}
pub type SharedTape = Arc<Mutex<Tape>>;

/// Breadth-first over deviations: all tapes with at most `bound` non-default choices.
pub fn explore(bound: usize, max_runs: usize, c: &mut Case, mut run: impl FnMut(SharedTape, &mut Case) -> Res) -> Result<usize, String> {
    let mut q: VecDeque<Vec<u8>> = VecDeque::new();
    q.push_back(vec![]);
    let mut runs = 0;
    while let Some(prefix) = q.pop_front() {
        let plen = prefix.len();
        let tape = Arc::new(Mutex::new(Tape { prefix, log: vec![], diverged: false }));
        let r = match guarded(|| run(tape.clone(), c)) {
            Ok(r) => r,
            Err(e) => Err(e),
        };
        runs += 1;
        let t = tape.lock().unwrap_or_else(|e| e.into_inner());
        if t.diverged || t.log.len() < plen {
            return Err(format!("{}: replay diverged {:?} of {:?}", HARNESS, t.log, t.prefix));
        }
        if let Err(e) = r {
            return Err(format!("{}\n  tape (choice/alternatives): {:?}", e, t.log));
        }
        let devs = t.prefix.iter().filter(|x| **x != 0).count();
        if devs < bound {
            for i in plen..t.log.len() {
                for alt in 1..t.log[i].1 {
                    let mut p: Vec<u8> = t.log[..i].iter().map(|x| x.0).collect();
                    p.push(alt);
                    q.push_back(p);
                }
            }
        }
        if runs >= max_runs {
            return Err(format!("{}: tape exploration exceeded its run cap {}", HARNESS, max_runs));
        }
    }
    Ok(runs)
}

/// Mixed-radix decoding of an index.
pub struct Ix(pub u64);
impl Ix {
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.take(s.len());
        &s[i]
    }
}

/// All sequences over an alphabet of `k` symbols with length 0..=depth; number of them.
pub fn seq_count(k: usize, depth: usize) -> u64 {
    (0..=depth).map(|d| (k as u64).pow(d as u32)).sum()
}
pub fn seq_of(k: usize, mut i: u64) -> Vec<usize> {
    let mut len = 0;
    let mut block = 1u64;
    while i >= block {
        i -= block;
        len += 1;
        block *= k as u64;
    }
    (0..len)
        .map(|_| {
            let r = (i % k as u64) as usize;
            i /= k as u64;
            r
        })
        .collect()
}

/// Length of the shortest linear recurrence that produces these bits (Berlekamp-Massey, 64 bits at a time).
/// About half the number of bits when they are random: off by more than k with probability around 4^-k.
pub fn linear_complexity(bits: &[bool]) -> usize {
    let n = bits.len();
    let words = n / 64 + 2;
    let (mut c, mut b) = (vec![0u64; words], vec![0u64; words]);
    c[0] = 1;
    b[0] = 1;
    // the last bits seen, the newest at position 0
    let mut seen = vec![0u64; words];
    let (mut l, mut m) = (0usize, 1usize);
    for i in 0..n {
        let top = (i / 64 + 1).min(words);
        let mut carry = bits[i] as u64;
        for w in seen[..top].iter_mut() {
            let out = *w >> 63;
            *w = *w << 1 | carry;
            carry = out;
        }
        let used = l / 64 + 1;
        let mut d = 0u64;
        for k in 0..used {
            d ^= c[k] & seen[k];
        }
        if d.count_ones() % 2 == 0 {
            m += 1;
            continue;
        }
        let keep = if 2 * l <= i { Some(c.clone()) } else { None };
        let (ws, bs) = (m / 64, m % 64);
        for k in (ws..words).rev() {
            let mut v = b[k - ws] << bs;
            if bs > 0 && k > ws {
                v |= b[k - ws - 1] >> (64 - bs);
            }
            c[k] ^= v;
        }
        match keep {
            Some(t) => {
                l = i + 1 - l;
                b = t;
                m = 1;
            }
            None => m += 1,
        }
    }
    l
}
/// Refuses keys that follow from earlier ones by a linear rule: each of their bits alone, and all bits in a row.
pub fn judge_unpredictable(keys: &[Vec<u8>]) -> Res {
    let bit = |k: &[u8], b: usize| k[b / 8] >> (b % 8) & 1 == 1;
    let width = keys[0].len() * 8;
    let mut streams: Vec<(String, Vec<bool>)> =
        (0..width).map(|b| (format!("bit {} of each key", b), keys.iter().map(|k| bit(k, b)).collect())).collect();
    streams.push(("all bits in a row".into(), keys.iter().flat_map(|k| (0..width).map(move |b| bit(k, b))).collect()));
    streams.push(("all bits in a row, keys read from the end".into(), keys.iter().flat_map(|k| (0..width).rev().map(move |b| bit(k, b))).collect()));
    for (what, s) in &streams {
        let l = linear_complexity(s);
        if l + 50 < s.len() / 2 {
            return Err(format!("the keys are predictable: {} of {} keys follow a linear recurrence of length {} ({} bits)", what, keys.len(), l, s.len()));
        }
    }
    Ok(())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}
