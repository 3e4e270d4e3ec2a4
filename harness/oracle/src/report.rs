//! Counters, verdicts, replay files and evidence files.
use crate::rng::hash_str;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone)]
pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub evidence: String,
    pub replay_dir: String,
    pub known: String,
    pub rest: Vec<String>,
}

impl Opts {
    /// `<PROP> [--tier T] [--seed N] [--evidence F] [--replay-dir D] [--known F] [rest…]`
    pub fn parse() -> Opts {
        let mut a = std::env::args().skip(1);
        let mut o = Opts {
            prop: a.next().expect("property id"),
            tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
            seed: std::env::var("VERIF_SEED").ok().and_then(|m| m.parse().ok()).unwrap_or(1),
            evidence: String::new(),
            replay_dir: String::from("."),
            known: String::new(),
            rest: vec![],
        };
        while let Some(k) = a.next() {
            match k.as_str() {
                "--tier" => o.tier = a.next().unwrap(),
                "--seed" => o.seed = a.next().unwrap().parse().unwrap(),
                "--evidence" => o.evidence = a.next().unwrap(),
                "--replay-dir" => o.replay_dir = a.next().unwrap(),
                "--known" => o.known = a.next().unwrap(),
                _ => o.rest.push(k),
            }
        }
        o
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Number of cases: quick, or thorough.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let base = if self.thorough() { thorough } else { quick };
        match std::env::var("VERIF_SCALE").ok().and_then(|m| m.parse::<f64>().ok()) {
            Some(f) => ((base as f64) * f).max(1.0) as usize,
            None => base,
        }
    }
}

pub struct Report {
    pub opts: Opts,
    start: Instant,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub rule: String,
    pub assumptions: Vec<String>,
    minimums: Vec<(String, u64)>,
    known: BTreeMap<String, String>,
    known_hit: BTreeSet<String>,
    violations: Vec<(String, String)>,
    pub inconclusive: Vec<String>,
    pub level: &'static str,
}

/// What the run has counted so far: the sign of life the watchdog goes by.
static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// A sign of life.
pub fn alive() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

/// CPU seconds of this process and of those it started (its process group).
fn group_cpu() -> f64 {
    let me = std::process::id();
    let stat = |pid: &str| -> Option<Vec<u64>> {
        let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
        Some(s.rsplit_once(')')?.1.split_whitespace().skip(1).map(|m| m.parse().unwrap_or(0)).collect())
    };
    let Some(group) = stat(&me.to_string()).map(|m| m[1]) else { return 0.0 };
    let mut ticks = 0;
    for d in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
        let name = d.file_name();
        let Some(name) = name.to_str().filter(|m| m.bytes().all(|c| c.is_ascii_digit())) else { continue };
        if let Some(f) = stat(name).filter(|f| f.len() > 13 && f[1] == group) {
            ticks += f[10] + f[11] + f[12] + f[13];
        }
    }
    ticks as f64 / 100.0
}

/// CPU seconds without a single thing counted after which the code under test
/// is said not to return (what is counted takes well under a second otherwise).
const STUCK: f64 = 200.0;

fn watch(opts: Opts) {
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut since = group_cpu();
        let mut longest: f64 = 0.0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let (now, cpu) = (PROGRESS.load(Ordering::Relaxed), group_cpu());
            if now != last {
                longest = longest.max(cpu - since);
                (last, since) = (now, cpu);
                if std::env::var_os("VERIF_WATCH").is_some() {
                    eprintln!("watch: longest {longest:.1} s");
                }
            } else if cpu - since > STUCK {
                let path = format!("{}/{}-stuck.txt", opts.replay_dir, opts.prop);
                let text = format!(
                    "property: {}\nseed: {}\ntier: {}\n\nthe code under test did not return: {:.0} s of CPU time after the {}th thing counted\n",
                    opts.prop, opts.seed, opts.tier, cpu - since, now
                );
                let _ = std::fs::create_dir_all(&opts.replay_dir);
                let _ = std::fs::write(&path, &text);
                println!("VIOLATION property={} replay={}", opts.prop, path);
                println!("    {}", text.trim().replace('\n', "\n    "));
                std::process::exit(1);
            }
        }
    });
}

impl Report {
    pub fn new(opts: Opts, rule: &str) -> Report {
        watch(opts.clone());
        let mut known = BTreeMap::new();
        if !opts.known.is_empty() {
            let text = std::fs::read_to_string(&opts.known).unwrap_or_default();
            for l in text.lines() {
                // finding: property=P05 sig=probe:xyz | description
                if let Some(l) = l.strip_prefix("finding: ") {
                    let (head, desc) = l.split_once('|').unwrap_or((l, ""));
                    let mut p = "";
                    let mut sig = "";
                    for w in head.split_whitespace() {
                        if let Some(v) = w.strip_prefix("property=") {
                            p = v;
                        }
                        if let Some(v) = w.strip_prefix("sig=") {
                            sig = v;
                        }
                    }
                    if p == opts.prop {
                        known.insert(sig.to_string(), desc.trim().to_string());
                    }
                }
            }
        }
        Report {
            opts,
            start: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            rule: rule.to_string(),
            assumptions: vec![],
            minimums: vec![],
            known,
            known_hit: BTreeSet::new(),
            violations: vec![],
            inconclusive: vec![],
            level: "exploration",
        }
    }
    /// One evaluated case; `nontrivial` by the stated rule.
    pub fn case(&mut self, fingerprint: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(hash_str(fingerprint));
        }
        self.count("cases", 1);
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 6 {
            let mut s = s.into();
            if s.len() > 700 {
                let mut k = 700;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str(" …");
            }
            self.samples.push(s);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        alive();
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        alive();
        let e = self.counters.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    pub fn get(&self, k: &str) -> u64 {
        self.counters.get(k).copied().unwrap_or(0)
    }
    /// The run is inconclusive unless counter `k` reached `n`.
    pub fn require(&mut self, k: &str, n: u64) {
        self.minimums.push((k.into(), n));
    }
    pub fn is_violated(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn too_many(&self) -> bool {
        self.violations.len() >= 10
    }
    /// `sig` identifies the failing input; a listed signature is a known finding.
    pub fn violation(&mut self, sig: &str, detail: impl Into<String>) {
        let detail = detail.into();
        if let Some(d) = self.known.get(sig) {
            if self.known_hit.insert(sig.to_string()) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.opts.prop, d, sig);
            }
            return;
        }
        self.violations.push((sig.to_string(), detail));
    }
    pub fn finish(mut self) -> i32 {
        for (k, n) in self.minimums.clone() {
            let v = if k == "distinct" { self.distinct.len() as u64 } else { self.get(&k) };
            if v < n {
                self.inconclusive.push(format!("observed only {v} of at least {n} {k}"));
            }
        }
        let _ = std::fs::create_dir_all(&self.opts.replay_dir);
        let mut n = 0;
        for (sig, detail) in &self.violations {
            if n == 5 {
                break;
            }
            n += 1;
            let path = format!("{}/{}-{}.txt", self.opts.replay_dir, self.opts.prop, n);
            let _ = std::fs::write(
                &path,
                format!(
                    "property: {}\nseed: {}\ntier: {}\ncase: {}\n\n{}\n",
                    self.opts.prop, self.opts.seed, self.opts.tier, sig, detail
                ),
            );
            let mut brief: String = detail.chars().take(1500).collect();
            brief = brief.replace('\n', "\n    ");
            println!("VIOLATION property={} replay={}", self.opts.prop, path);
            println!("    case {sig}\n    {brief}");
        }
        if !self.opts.evidence.is_empty() {
            let mut c = String::new();
            for (k, v) in &self.counters {
                c.push_str(&format!(",\n    {}: {}", js(k), v));
            }
            let samples: Vec<String> = self.samples.iter().map(|s| js(s)).collect();
            let ass: Vec<String> = self.assumptions.iter().map(|s| js(s)).collect();
            let text = format!(
                "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}]{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
                js(&self.opts.prop),
                js(&self.opts.tier),
                self.opts.seed,
                js(self.level),
                self.evaluations,
                self.distinct.len(),
                js(&self.rule),
                samples.join(", "),
                c,
                ass.join(", "),
                self.start.elapsed().as_secs_f64(),
                self.violations.len()
            );
            if let Some(d) = std::path::Path::new(&self.opts.evidence).parent() {
                let _ = std::fs::create_dir_all(d);
            }
            if let Err(e) = std::fs::write(&self.opts.evidence, text) {
                eprintln!("cannot write evidence: {e}");
                return 3;
            }
        }
        if !self.violations.is_empty() {
            return 1;
        }
        if !self.inconclusive.is_empty() {
            for i in &self.inconclusive {
                println!("INCONCLUSIVE property={} {}", self.opts.prop, i);
            }
            return 3;
        }
        println!(
            "HELD property={} on {} evaluations, {} distinct non-trivial",
            self.opts.prop,
            self.evaluations,
            self.distinct.len()
        );
        0
    }
}
