use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn bits(&mut self) -> bool { self.next() & 1 == 1 }
}

pub struct Violation { pub key: String, pub input: String, pub detail: String }
/// What one replay run did.
pub struct Run {
    pub seed: u64,
    pub thorough: bool,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub exhaustive: Vec<String>,
    pub only: Option<String>,
}
fn h(s: &str) -> u64 {
    let mut x: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { x = (x ^ u64::from(b)).wrapping_mul(0x100000001b3); }
    x
}
impl Run {
    pub fn new(seed: u64, thorough: bool, only: Option<String>) -> Run {
        Run { seed, thorough, evaluations: 0, distinct: HashSet::new(), samples: vec![], violations: vec![], exhaustive: vec![], only }
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }
    pub fn rng(&self, salt: u64) -> Rng { Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt)) }
    pub fn distinct(&self) -> usize { self.distinct.len() }
    /// Run one case: `input` is the full, human readable input; `f` is the executable contract.
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, key: &str, input: &str, f: F) {
        if let Some(o) = &self.only { if !input.contains(o.as_str()) { return; } }
        self.evaluations += 1;
        let fresh = self.distinct.insert(h(&format!("{key}|{input}")));
        if fresh && (self.samples.len() < 4 || (self.samples.len() < 12 && self.evaluations % 997 == 0)) {
            self.samples.push(format!("{key}: {}", clip(input)));
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let detail = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
                format!("PANIC {m} {}", LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default())
            }
        };
        if self.violations.len() < 200 && self.violations.iter().filter(|v| v.key == key).count() < 20 {
            self.violations.push(Violation { key: key.to_string(), input: input.to_string(), detail });
        }
    }
}
pub fn clip(s: &str) -> String {
    let t: String = s.chars().take(300).collect();
    t.escape_debug().to_string()
}
pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if let (Ok(mut g), Some(l)) = (LAST_PANIC.lock(), i.location()) { *g = format!("at {}:{}", l.file(), l.line()); }
    }));
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
/// strings that reach the corners of the escaping rules
pub const NASTY: &[&str] = &[
    "", " ", "a", "&", "<", ">", "\"", "'", "&amp;", "&lt;b&gt;", "<r>x</r>", "<r><t>x</t></r>", "]]>", "<!-- x -->", "a\nb", "a\tb", "a\rb", "\n", "\t", " lead", "trail ", "\tlead",
    "_x0000_", "_x005F_", "_x005F_x0041_", "_x", "_x00", "_x0041", "_x0041_", "__x0041_", "_x_x0041_", "_x0041_x0042_", "_X0041_", "_xZZZZ_", "_x00e9_", "_x004", "_x12\u{e9}4_", "é", "日本語", "😀", "\u{1}", "\u{8}", "\u{b}", "\u{1f}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{FFFD}",
    "\u{FFFE}", "\u{FFFF}", "=A1", "{=A1}", "http://a.b", "A1", "'", "''", "\\", "%20", "x]]>y", "&#10;", "%", "{0}", "$1", "\u{202e}abc", "e\u{301}", "\u{10FFFF}",
];
pub fn rand_string(r: &mut Rng, max: u64) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    while (s.chars().count() as u64) < n {
        match r.below(14) {
            0 => s.push_str(*r.pick(NASTY)),
            1 => s.push_str("_x"),
            2 => { let h = format!("{:04X}", r.below(0x100)); s.push_str(&h); }
            3 => s.push('_'),
            4 => s.push(char::from(r.below(32) as u8)),
            5 => s.push(*r.pick(&['&', '<', '>', '"', '\'', ' ', '\n', '\t'])),
            6 => s.push(char::from_u32(r.below(0x800) as u32).unwrap_or('x')),
            7 => s.push(char::from_u32(0x800 + r.below(0x10F000) as u32).unwrap_or('y')),
            _ => s.push((b'a' + r.below(26) as u8) as char),
        }
    }
    s
}
