//! Violations, evidence and replay files.
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    path::PathBuf,
    time::Instant,
};

/// A broken property: the properties it speaks against, and what was observed.
#[derive(Debug, Clone)]
pub struct Viol {
    /// Ids of the properties this observation refutes; "ALL" for any.
    pub tags: Vec<&'static str>,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(tags: &[&'static str], msg: impl Into<String>) -> R<T> {
    Err(Viol {
        tags: tags.to_vec(),
        msg: msg.into(),
    })
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub sched: HashSet<u64>,
}

impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.counts.entry(k).or_default() += n;
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        self.counts.get(k).copied().unwrap_or(0)
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        self.sched.extend(o.sched);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
}

/// What to replay, and the story of the violation.
pub struct Found {
    pub engine: &'static str,
    pub case: u64,
    pub config: String,
    pub viol: Viol,
    pub log: Vec<String>,
}

pub struct Run {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub stats: Stats,
    pub found: Vec<Found>,
    pub other: BTreeMap<String, u64>,
    pub inconclusive: Vec<String>,
    pub rules: Vec<String>,
    pub assumptions: Vec<String>,
    pub extra: Vec<(String, String)>,
}

/// The unrepaired defects listed in KNOWN_FINDINGS.md: `known: property=<id> [<name>] <text>`.
pub fn known_list() -> &'static [(String, String, String)] {
    static L: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let s = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.md")).unwrap_or_default();
        s.lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (p, l) = l.split_once(" [")?;
                let (n, t) = l.split_once("] ")?;
                Some((p.to_string(), n.to_string(), t.to_string()))
            })
            .collect()
    })
}

pub fn known(prop: &str, name: &str) -> bool {
    known_list().iter().any(|k| k.0 == prop && k.1 == name)
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

impl Run {
    pub fn accepts(&self, v: &Viol) -> bool {
        v.tags.iter().any(|t| *t == self.prop || *t == "ALL")
    }

    /// Records what an engine found, if it speaks against the property of this run.
    pub fn note(&mut self, f: Found) {
        if self.accepts(&f.viol) {
            self.found.push(f);
        } else {
            let k = format!("{}: {}", f.viol.tags.join("+"), f.viol.msg);
            let k: String = k.chars().take(300).collect();
            if std::env::var("VERIF_SHOW_OTHER").is_ok() {
                eprintln!("OTHER {} case={} {} :: {}", f.engine, f.case, k, f.config);
                if std::env::var("VERIF_SHOW_OTHER").as_deref() == Ok("full") {
                    for l in &f.log {
                        eprintln!("    {l}");
                    }
                }
            }
            *self.other.entry(k).or_default() += 1;
        }
    }

    pub fn write_replay(&self, f: &Found) -> PathBuf {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!(
            "{}-{}-{}-{}.json",
            self.prop, f.engine, self.seed, f.case
        ));
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": {},\n \"engine\": {},\n \"seed\": {},\n \"tier\": {},\n \"case\": {},\n \"replay_cmd\": {},\n \"config\": {},\n \"violation\": {},\n \"log\": [\n",
            jstr(&self.prop),
            jstr(f.engine),
            self.seed,
            jstr(&self.tier),
            f.case,
            jstr(&format!(
                "cd /verif && VERIF_SEED={} VERIF_TIER={} VERIF_ONLY={}:{} ./check.sh {}",
                self.seed, self.tier, f.engine, f.case, self.prop
            )),
            jstr(&f.config),
            jstr(&f.viol.msg)
        );
        for (i, l) in f.log.iter().enumerate() {
            let _ = writeln!(
                s,
                "  {}{}",
                jstr(l),
                if i + 1 == f.log.len() { "" } else { "," }
            );
        }
        s.push_str(" ]\n}\n");
        let _ = std::fs::write(&path, s);
        path
    }

    pub fn write_evidence(&self, violations: usize) {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
            jstr(&self.prop),
            jstr(&self.tier),
            self.seed,
            self.stats.evaluations,
            self.stats.distinct.len(),
            jstr(&self.rules.join(" | "))
        );
        let _ = writeln!(s, "  \"samples\": [");
        for (i, l) in self.stats.samples.iter().enumerate() {
            let _ = writeln!(
                s,
                "   {}{}",
                jstr(l),
                if i + 1 == self.stats.samples.len() {
                    ""
                } else {
                    ","
                }
            );
        }
        let _ = write!(
            s,
            "  ],\n  \"distinct_interleavings\": {},\n  \"observed\": {{",
            self.stats.sched.len()
        );
        for (i, (k, v)) in self.stats.counts.iter().enumerate() {
            let _ = write!(
                s,
                "{}\n   {}: {}",
                if i == 0 { "" } else { "," },
                jstr(k),
                v
            );
        }
        let _ = write!(s, "\n  }}");
        for (k, v) in &self.extra {
            let _ = write!(s, ",\n  {}: {}", jstr(k), v);
        }
        let _ = write!(s, ",\n  \"inconclusive\": [");
        for (i, l) in self.inconclusive.iter().enumerate() {
            let _ = write!(s, "{}{}", if i == 0 { "" } else { ", " }, jstr(l));
        }
        let _ = write!(s, "],\n  \"observations_against_other_properties\": {{");
        for (i, (k, v)) in self.other.iter().take(20).enumerate() {
            let _ = write!(
                s,
                "{}\n   {}: {}",
                if i == 0 { "" } else { "," },
                jstr(k),
                v
            );
        }
        let _ = write!(s, "\n  }}\n }},\n \"assumptions\": [");
        for (i, l) in self.assumptions.iter().enumerate() {
            let _ = write!(s, "{}{}", if i == 0 { "" } else { ", " }, jstr(l));
        }
        let _ = write!(
            s,
            "],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            self.start.elapsed().as_secs_f64(),
            violations
        );
        let _ = std::fs::write(dir.join(format!("{}.json", self.prop)), s);
    }
}
