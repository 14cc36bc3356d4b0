//! Seeds, tiers, evidence, replays and findings.
use std::path::PathBuf;
use std::time::Instant;

use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}

/// The folder the checks live in.
pub fn root() -> PathBuf {
    std::env::var("FM_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

pub fn fnv(parts: &[&str]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.bytes().chain([0xff]) {
            h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
        }
    }
    h
}

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

pub fn runner(id: &str, part: &str) -> TestRunner {
    let mut r = Rng(fnv(&[id, part, &seed().to_string()]));
    let mut bytes = [0u8; 32];
    for c in bytes.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    let config = Config { failure_persistence: None, verbose: 0, ..Config::default() };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

pub fn work_dir(id: &str) -> PathBuf {
    let d = PathBuf::from(std::env::var("FM_WORK").unwrap_or_else(|_| "/verif/work".into())).join(id);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// The findings of this property which are listed as known.
pub fn known_findings(property: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let head = format!("known: property={property} id=");
    text.lines().filter_map(|l| l.strip_prefix(&head)?.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn write_replay(id: &str, v: &serde_json::Value) -> PathBuf {
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let body = serde_json::to_string_pretty(v).unwrap();
    let p = dir.join(format!("{id}-{:016x}.json", fnv(&[&body])));
    std::fs::write(&p, body).unwrap();
    p
}

pub struct Evidence {
    pub id: &'static str,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub rule: &'static str,
    pub samples: Vec<serde_json::Value>,
    pub more: serde_json::Value,
    pub assumptions: Vec<&'static str>,
    pub violations: usize,
    pub start: Instant,
}

impl Evidence {
    pub fn write(&self) {
        let mut cov = serde_json::json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct_nontrivial,
            "rule": self.rule,
            "samples": self.samples,
        });
        for (k, v) in self.more.as_object().unwrap() {
            cov[k] = v.clone();
        }
        let v = serde_json::json!({
            "property": self.id,
            "tier": if thorough() { "thorough" } else { "quick" },
            "seed": seed(),
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations,
        });
        let dir = root().join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
    }
}
