//! Case runner: every case has a name, a generator seeded from (seed, name), and a verdict.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

/// numbers and byte strings that the code under test names in lines it did not have when the harness was written
/// (VP_DICT: decimal numbers, VP_DICT_BYTES: hexadecimal strings; both empty on the unchanged tree). They only steer
/// the choice of inputs: what is expected of the code does not depend on them.
static DICT: OnceLock<(Vec<u64>, Vec<Vec<u8>>)> = OnceLock::new();
fn parse_dict(n: &str, b: &str) -> (Vec<u64>, Vec<Vec<u8>>) {
    (
        n.split(',').filter_map(|x| x.parse().ok()).collect(),
        b.split(',').filter(|x| x.len() > 1).map(|x| (0..x.len() / 2).filter_map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).ok()).collect()).collect(),
    )
}
pub fn dict() -> &'static (Vec<u64>, Vec<Vec<u8>>) {
    DICT.get_or_init(|| parse_dict(&std::env::var("VP_DICT").unwrap_or_default(), &std::env::var("VP_DICT_BYTES").unwrap_or_default()))
}
/// sizes in [min, max] around the numbers of the dictionary
pub fn dict_sizes(min: usize, max: usize) -> Vec<usize> {
    let d = &dict().0;
    let mut v = vec![];
    for &x in d {
        v.extend([x, x.wrapping_add(1), x.wrapping_sub(1)].iter());
    }
    for &x in d {
        v.extend([x.wrapping_mul(2), x.wrapping_mul(2).wrapping_add(1)].iter());
        v.extend(d.iter().map(|y| x.wrapping_add(*y)));
    }
    let (mut o, mut sum) = (vec![], 0);
    for x in v.into_iter().map(|x| x as usize) {
        if x >= min && x <= max && o.len() < 60 && !o.contains(&x) && sum + x <= 6 * max {
            o.push(x);
            sum += x;
        }
    }
    o
}

#[derive(Clone)]
pub struct Rng(u64, bool);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s, false)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    /// a number made from the dictionary, when this generator uses it
    pub fn named(&mut self, one_in: u64) -> Option<u64> {
        let d = &dict().0;
        if !self.1 || d.is_empty() || self.u64() % one_in != 0 {
            return None;
        }
        let (x, y) = (d[self.below(d.len() as u64) as usize], d[self.below(d.len() as u64) as usize]);
        Some(match self.below(8) {
            0 => x.wrapping_add(1),
            1 => x.wrapping_sub(1),
            2 => x.wrapping_mul(self.below(20)).wrapping_add(y),
            3 => x.wrapping_mul(self.below(20)),
            4 => x.wrapping_mul(self.u64() >> self.below(64)).wrapping_add(y),
            _ => x,
        })
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        match self.named(4) {
            Some(x) if x >= a as u64 && x <= b as u64 => x as usize,
            _ => a + self.below((b - a) as u64 + 1) as usize,
        }
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        if n > 0 {
            self.mark(&mut v);
        }
        v
    }
    /// put something from the dictionary into a byte string: a number in either byte order, one of the byte strings, small numbers here and there
    fn mark(&mut self, v: &mut Vec<u8>) {
        if !self.1 || self.u64() % 4 != 0 {
            return;
        }
        let n = v.len();
        let d = dict();
        let mut put: Vec<u8> = vec![];
        match self.below(4) {
            0 if !d.1.is_empty() => { put = d.1[self.below(d.1.len() as u64) as usize].clone(); if self.bool() { put.reverse() } }
            1 => {
                let small: Vec<u8> = d.0.iter().filter(|x| **x < 256).map(|x| *x as u8).collect();
                for i in 0..n { if !small.is_empty() && self.below(2) == 0 { v[i] = small[self.below(small.len() as u64) as usize] } }
            }
            _ => if let Some(x) = self.named(1) {
                put = x.to_le_bytes().to_vec();
                let k = *self.pick(&[8, 4, 2, 1]);
                put.truncate(k);
                if self.bool() { put.reverse() }
            },
        }
        put.truncate(n);
        let at = match self.below(4) { 0 => 0, 1 => n - put.len(), _ => self.below((n - put.len()) as u64 + 1) as usize };
        v[at..at + put.len()].copy_from_slice(&put);
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

const BEFORE: &str = "call before ";
pub struct Runner {
    pub property: String,
    pub seed: u64,
    pub deep: bool,
    out: String,
    only: Option<String>,
    deadline: Instant,
    cases: u64,
    sections: BTreeMap<String, u64>,
    current: Arc<Mutex<(String, Instant, u64)>>,
    done: bool,
    violation: Option<(String, String)>,
    notes: Vec<String>,
    slowest: (String, Duration),
    /// calls that fail or are given up, made before some of the cases: what they leave behind must not matter
    pub disturb: Option<fn(&str, &mut Rng)>,
}

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }
static ALIVE: Mutex<Option<Instant>> = Mutex::new(None);
/// a long case made progress: the time limit is on what happens between two calls
pub fn alive() {
    *ALIVE.lock().unwrap() = Some(Instant::now());
}
static TICK: AtomicU64 = AtomicU64::new(0);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = i.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
        LAST.with(|l| *l.borrow_mut() = format!("panic at {}: {}", loc, m));
    }));
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn field(t: &str, k: &str) -> Option<String> {
    let i = t.find(&format!("\"{}\"", k))? + k.len() + 2;
    let t = t[i..].trim_start().strip_prefix(':')?.trim_start();
    if let Some(s) = t.strip_prefix('"') {
        let mut o = String::new();
        let mut it = s.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(o),
                '\\' => match it.next()? {
                    'n' => o.push('\n'),
                    'u' => {
                        for _ in 0..4 {
                            it.next();
                        }
                    }
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
        None
    } else {
        Some(t.chars().take_while(|c| c.is_alphanumeric()).collect())
    }
}

impl Runner {
    pub fn new(property: &str, secs: f64, seed: u64, out: &str, deep: bool) -> Runner {
        let r = Runner {
            property: property.into(),
            seed,
            deep,
            out: out.into(),
            only: None,
            deadline: Instant::now() + Duration::from_secs_f64(secs),
            cases: 0,
            sections: BTreeMap::new(),
            current: Arc::new(Mutex::new((String::new(), Instant::now(), 0))),
            done: false,
            violation: None,
            notes: vec![],
            slowest: (String::new(), Duration::from_secs(0)),
            disturb: None,
        };
        r.watchdog();
        r
    }
    pub fn from_replay(p: &str) -> Runner {
        let t = std::fs::read_to_string(p).expect("replay file");
        if let (Some(n), Some(b)) = (field(&t, "dict"), field(&t, "dict_bytes")) {
            let _ = DICT.set(parse_dict(&n, &b));
        }
        let mut r = Runner::new(&field(&t, "property").unwrap(), 3600.0, field(&t, "seed").unwrap().parse().unwrap(), "", true);
        r.only = Some(field(&t, "case").expect("the replay file names no case (the verifier gave no input)"));
        r
    }
    /// a case that makes no progress for 200 s is reported as not terminating
    fn watchdog(&self) {
        let c = self.current.clone();
        let (prop, seed, out) = (self.property.clone(), self.seed, self.out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(5));
            let (name, mut t, limit) = c.lock().unwrap().clone();
            if let Some(a) = *ALIVE.lock().unwrap() {
                t = t.max(a);
            }
            if name.starts_with(BEFORE) && t.elapsed() > Duration::from_secs(limit) {
                // nothing is promised of such a call, not even that it returns
                write_out(&out, &prop, seed, 0, &BTreeMap::new(), &None, &[format!("ended early: no return {}", name)]);
                std::process::exit(0);
            }
            if !name.is_empty() && t.elapsed() > Duration::from_secs(limit) {
                let v = (name, format!("the call did not return within {} s", limit));
                write_out(&out, &prop, seed, 0, &BTreeMap::new(), &Some(v), &[]);
                std::process::exit(1);
            }
        });
    }
    pub fn rng(&self, name: &str) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ self.seed.wrapping_mul(0x100000001b3);
        for b in name.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        // every other case draws on the dictionary
        Rng(h, !(dict().0.is_empty() && dict().1.is_empty()) && h >> 17 & 1 == 1)
    }
    pub fn time_left(&self) -> bool {
        !self.done && (self.only.is_some() || Instant::now() < self.deadline)
    }
    pub fn stop(&self) -> bool {
        self.done
    }
    pub fn note(&mut self, s: &str) {
        self.notes.push(s.into());
    }
    /// run one case; `f` gets a generator that depends on (seed, name) only
    pub fn case<F: FnOnce(&mut Rng) -> Result<(), String>>(&mut self, name: &str, f: F) {
        self.case_limit(name, 200, f)
    }
    pub fn case_limit<F: FnOnce(&mut Rng) -> Result<(), String>>(&mut self, name: &str, limit: u64, f: F) {
        if self.done {
            return;
        }
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        TICK.fetch_add(1, Ordering::Relaxed);
        let begun = Instant::now();
        *self.current.lock().unwrap() = (name.to_string(), begun, limit);
        let mut rng = self.rng(name);
        if let Some(d) = self.disturb {
            let mut dist = self.rng(&format!("before {}", name));
            if dist.below(4) == 0 {
                self.current.lock().unwrap().0 = format!("{}{}", BEFORE, name);
                let _ = catch_unwind(AssertUnwindSafe(|| d(&self.property, &mut dist)));
                *self.current.lock().unwrap() = (name.to_string(), Instant::now(), limit);
            }
        }
        LAST.with(|l| l.borrow_mut().clear());
        let res = match catch_unwind(AssertUnwindSafe(|| f(&mut rng))) {
            Ok(r) => r,
            Err(_) => Err(LAST.with(|l| l.borrow().clone())),
        };
        self.current.lock().unwrap().0.clear();
        if begun.elapsed() > self.slowest.1 {
            self.slowest = (name.to_string(), begun.elapsed());
        }
        self.cases += 1;
        *self.sections.entry(name.split('/').next().unwrap().to_string()).or_insert(0) += 1;
        if let Err(e) = res {
            self.violation = Some((name.to_string(), e));
            self.done = true;
        }
    }
    pub fn finish(self) {
        if self.only.is_some() {
            match &self.violation {
                Some((n, e)) => {
                    println!("property {} fails on case {}: {}", self.property, n, e);
                    std::process::exit(1);
                }
                None => {
                    println!("property {}: case {:?} holds ({} run)", self.property, self.only, self.cases);
                    std::process::exit(if self.cases == 0 { 2 } else { 0 });
                }
            }
        }
        let mut notes = self.notes.clone();
        notes.push(format!("slowest case: {} ({:.1} s)", self.slowest.0, self.slowest.1.as_secs_f64()));
        write_out(&self.out, &self.property, self.seed, self.cases, &self.sections, &self.violation, &notes);
        std::process::exit(if self.violation.is_some() { 1 } else { 0 });
    }
}

fn write_out(out: &str, prop: &str, seed: u64, cases: u64, sections: &BTreeMap<String, u64>, v: &Option<(String, String)>, notes: &[String]) {
    let sec: Vec<String> = sections.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    let nt: Vec<String> = notes.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let viol = match v {
        None => "null".to_string(),
        Some((n, e)) => format!("{{\"property\": \"{}\", \"seed\": {}, \"case\": \"{}\", \"what\": \"{}\"}}", prop, seed, esc(n), esc(e)),
    };
    let t = format!("{{\"property\": \"{}\", \"cases\": {}, \"sections\": {{{}}}, \"notes\": [{}], \"violation\": {}}}\n", prop, cases, sec.join(", "), nt.join(", "), viol);
    if out.is_empty() {
        println!("{}", t);
    } else {
        std::fs::write(out, t).unwrap();
    }
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 400 {
        return format!("{}... ({} bytes)", hex(&b[..64]), b.len());
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn eq(what: impl Fn() -> String, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: got {} want {}", what(), hex(got), hex(want))) }
}

/// a call of which nothing is promised
pub fn try_call<O>(f: impl FnOnce() -> O) {
    let _ = catch_unwind(AssertUnwindSafe(f));
}
