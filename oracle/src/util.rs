//! Seeded generation, case bookkeeping and panic capture.
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(u64);

impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn byte(&mut self) -> u8 {
        match self.below(6) {
            0 => [0, 1, 0x7f, 0x80, 0x81, 0xff][self.below(6)],
            _ => self.u64() as u8,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// a length or count next to a number which the source newly mentions
    pub fn new_len(&mut self, max: usize) -> Option<usize> {
        let d = &crate::dict::dict().new_num;
        if d.is_empty() || !self.one_in(4) {
            return None;
        }
        let n = (*self.pick(d) as usize).wrapping_add(self.below(3)).wrapping_sub(1);
        if n <= max { Some(n) } else { None }
    }
    /// how many elements a list has: few as a rule, now and then very many
    pub fn count(&mut self, few: usize, max: usize) -> usize {
        if let Some(n) = self.new_len(max) {
            return n;
        }
        if self.one_in(60) { self.below(max.min(600)) } else { self.below(few) }
    }
    /// a piece of text which the source mentions
    pub fn literal(&mut self) -> String {
        let d = crate::dict::dict();
        if !d.new_text.is_empty() && !self.one_in(4) { self.pick(&d.new_text).clone() } else if d.all_text.is_empty() { String::new() } else { self.pick(&d.all_text).clone() }
    }
    pub fn fresh_literals(&self) -> bool {
        !crate::dict::dict().new_text.is_empty()
    }
    pub fn blob(&mut self) -> Vec<u8> {
        if let Some(n) = self.new_len(70000) {
            if n < 2000 || self.one_in(16) { return self.bytes(n) }
        }
        let n = match self.below(5) {
            0 => 0,
            1 => self.below(4),
            2 => self.below(40),
            3 => 32,
            _ => self.below(300),
        };
        self.bytes(n)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn num64(&mut self) -> u64 {
        let d = &crate::dict::dict().new_num;
        if !d.is_empty() && self.one_in(4) {
            return self.pick(d).wrapping_add(self.below(3) as u64).wrapping_sub(1);
        }
        match self.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << self.below(64),
            3 => self.below(1000) as u64,
            _ => self.u64(),
        }
    }
    /// text without ASCII white space
    pub fn word(&mut self) -> String {
        if self.fresh_literals() && self.one_in(6) {
            let l = self.literal();
            if !l.is_empty() && l.chars().all(|c| !c.is_whitespace() && !c.is_control() && !"\",#\\".contains(c)) {
                return match self.below(3) { 0 => format!("{}a", l), 1 => format!("b{}", l), _ => l };
            }
        }
        if let Some(n) = self.new_len(300) {
            if n > 0 { return "w".repeat(n) }
        }
        let n = 1 + self.below(12);
        (0..n).map(|_| *self.pick(&['a', 'b', 'Z', '0', '9', '-', '_', '.', '@', '/', 'é', '世', '=', ':', '+'])).collect()
    }
    pub fn text(&mut self) -> String {
        if self.fresh_literals() && self.one_in(3) || self.one_in(24) {
            let (w, l) = (self.word(), self.literal());
            return match self.below(6) { 0 => w + &l, 1 => l + &w, 2 => w.clone() + &l + &w, _ => l };
        }
        if let Some(n) = self.new_len(70000) {
            if n < 2000 || self.one_in(16) { return "y".repeat(n) }
        }
        match self.below(8) {
            0 => String::new(),
            1 => "permit-pty".into(),
            2 => format!("{} {}", self.word(), self.word()),
            3 => {
                // lengths around the limits of one and two bytes now and then
                let n = match self.below(64) { 0 => 65520 + self.below(40), 1..=12 => 245 + self.below(30), _ => self.below(200) };
                "x".repeat(n)
            }
            // white space and control characters at the ends and inside, letters of both cases
            4 => {
                let n = self.below(6);
                (0..n).map(|_| *self.pick(&[' ', '\t', 'a', 'A', '\u{a0}', 'É', 'ß', 'İ', '"', '\\', '\0', '\n', '\r', '\u{2028}'])).collect()
            }
            _ => self.word(),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! { pub static PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = format!("{}", i));
    }));
}

/// run library code, turning a panic into Err
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", PANIC.with(|p| p.borrow().clone())))
}

pub struct Ctx {
    pub rng: Rng,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    pub viols: Vec<String>,
    end: Instant,
    pub panics_only: bool,
}

impl Ctx {
    pub fn new(seed: u64, secs: u64) -> Ctx {
        Ctx { rng: Rng::new(seed), evals: 0, distinct: HashSet::new(), samples: vec![], viols: vec![], end: Instant::now() + Duration::from_secs(secs), panics_only: false }
    }
    pub fn more(&self) -> bool {
        self.viols.len() < 3 && Instant::now() < self.end
    }
    /// one case: `input` describes it completely
    pub fn case(&mut self, what: &str, input: impl FnOnce() -> String, f: impl FnOnce() -> Result<bool, String>) {
        self.evals += 1;
        let r = match guard(f) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        let r = match r {
            Err(e) if self.panics_only && !e.starts_with("panic") => Ok(false),
            r => r,
        };
        match r {
            Ok(ok) => {
                if self.distinct.len() < 200_000 || self.samples.len() < 5 {
                    let i = input();
                    let mut h: u64 = 0xcbf29ce484222325;
                    for b in what.bytes().chain(i.bytes()) {
                        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                    }
                    if self.distinct.insert(h) && (self.samples.len() < 3 || (ok && self.samples.len() < 5)) {
                        self.samples.push(format!("{} [{}] {}", what, if ok { "accepted" } else { "refused" }, &i.chars().take(400).collect::<String>()));
                    }
                }
            }
            Err(e) => {
                if self.viols.len() < 5 {
                    let i = input();
                    self.viols.push(format!("{{\"tag\": {}, \"what\": {}, \"input\": {}, \"replay\": {}}}", jstr(what), jstr(&e.chars().take(2000).collect::<String>()), jstr(&i), jstr("call the named function on this input")));
                }
            }
        }
    }
    pub fn absorb(&mut self, d: Ctx) {
        self.evals += d.evals;
        self.distinct.extend(d.distinct);
        self.samples.extend(d.samples.into_iter().take(1));
        self.viols.extend(d.viols);
    }
    pub fn report(&self) {
        println!("{{\"evaluations\": {}, \"distinct\": {}, \"samples\": [{}], \"violations\": [{}]}}", self.evals, self.distinct.len(),
            self.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "), self.viols.join(", "));
    }
}
