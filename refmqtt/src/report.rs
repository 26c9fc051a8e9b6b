//! Evidence / violation reporting shared by all checks.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::Instant;

pub fn verif_root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
/// hex, shortened in the middle for reports
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 120 {
        hex(b)
    } else {
        format!("{}..({} bytes)..{}", hex(&b[..60]), b.len(), hex(&b[b.len() - 30..]))
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn listed(property: &str, what: &str) -> bool {
    static FILE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let lines = FILE.get_or_init(|| {
        std::fs::read_to_string(format!("{}/known-findings.txt", verif_root())).unwrap_or_default().lines().map(|l| l.trim().to_string()).collect()
    });
    lines.contains(&format!("known: property={property} {what}"))
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub detail: String,
}

pub struct Report {
    pub property: String,
    pub rule: String,
    pub start: Instant,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
    pub assumptions: Vec<String>,
}
impl Report {
    pub fn new(property: &str, rule: &str) -> Report {
        Report {
            property: property.into(),
            rule: rule.into(),
            start: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            violations: vec![],
            known: BTreeMap::new(),
            assumptions: vec![],
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 8 {
            self.samples.push(s.into());
        }
    }
    pub fn violate(&mut self, what: impl Into<String>, detail: impl Into<String>) {
        if self.violations.len() < 20 {
            self.violations.push(Violation { what: what.into(), detail: detail.into() });
        }
        self.count("violations_seen", 1);
    }
    /// A defect recorded in known-findings.txt; anything not listed there is a violation.
    pub fn known_finding(&mut self, what: &str) {
        if !self.known.contains_key(what) && !listed(&self.property, what) {
            self.violate("defect that is not a listed known finding", what);
            return;
        }
        *self.known.entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for s in o.samples {
            self.sample(s);
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for v in o.violations {
            if self.violations.len() < 20 {
                self.violations.push(v);
            }
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        for a in o.assumptions {
            if !self.assumptions.contains(&a) {
                self.assumptions.push(a);
            }
        }
    }
    /// Write the evidence file, print violations and known findings; returns the exit code.
    pub fn finish(self) -> i32 {
        let root = verif_root();
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        let mut j = String::new();
        let tier = if thorough() { "thorough" } else { "quick" };
        let _ = write!(
            j,
            "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}]",
            esc(&self.property), tier, seed(), self.evaluations, self.distinct.len(), esc(&self.rule),
            self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
        );
        for (k, v) in &self.counters {
            let _ = write!(j, ",{}:{}", esc(k), v);
        }
        let _ = write!(
            j,
            "}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}",
            self.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            self.start.elapsed().as_secs_f64(),
            self.violations.len()
        );
        std::fs::write(format!("{root}/evidence/{}.json", self.property), j).expect("write evidence");
        for (k, n) in &self.known {
            println!("KNOWN-FINDING: property={} {} (seen {} times in this run)", self.property, k, n);
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {:.1}s; counters {:?}",
            self.property, self.evaluations, self.distinct.len(), self.start.elapsed().as_secs_f64(), self.counters
        );
        if self.violations.is_empty() {
            return 0;
        }
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-seed{}-{}.txt", self.property, seed(), std::process::id());
        let mut t = format!("property {}\nseed {}\ntier {}\n", self.property, seed(), tier);
        for v in &self.violations {
            let _ = write!(t, "\n== {}\n{}\n", v.what, v.detail);
        }
        let _ = std::fs::write(&path, t);
        for v in self.violations.iter().take(5) {
            println!("  violated: {}", v.what);
            println!("    {}", v.detail.chars().take(1500).collect::<String>().replace('\n', "\n    "));
        }
        println!("VIOLATION property={} replay={}", self.property, path);
        1
    }
}
