//! Evidence files, VIOLATION / KNOWN-FINDING lines, replay artefacts.
use crate::pool::*;
use std::io::Write;

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub root: std::path::PathBuf,
    pub replay: Option<String>,
    pub t0: std::time::Instant,
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

impl Ctx {
    /// argv: PROP [--replay FILE]; environment VERIF_TIER, VERIF_SEED, VERIF_ROOT
    pub fn from_env() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        let replay = a.iter().position(|x| x == "--replay").map(|k| a[k + 1].clone());
        Ctx {
            prop: a[1].clone(),
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            root: std::env::var("VERIF_ROOT").unwrap_or("/verif".into()).into(),
            replay,
            t0: std::time::Instant::now(),
        }
    }
    /// keys of recorded, unrepaired findings of this property
    pub fn known(&self) -> Vec<(String, String)> {
        let f = std::fs::read_to_string(self.root.join("known_findings.txt")).unwrap_or_default();
        f.lines()
            .filter_map(|l| {
                let r = l.strip_prefix(&format!("known: property={} key=", self.prop))?;
                let (k, d) = r.split_once(' ').unwrap_or((r, ""));
                Some((k.to_string(), d.to_string()))
            })
            .collect()
    }
    /// Write the evidence file and finish the process with the verdict.
    /// `coverage` is the inner text of the coverage object.
    pub fn finish(&self, level: &str, coverage: &str, assumptions: &[&str], pool: &Pool, exhaustive: bool) -> ! {
        let v = pool.violation();
        for (k, (_, d)) in self.known().iter().enumerate() {
            if pool.known_hit(k) > 0 {
                println!("KNOWN-FINDING: property={} {}", self.prop, d);
            }
        }
        eprintln!("address space of a worker: up to {} GB", pool.get(NCNT - 1));
        self.finish_v(level, coverage, assumptions, v, exhaustive)
    }
    pub fn finish_v(&self, level: &str, coverage: &str, assumptions: &[&str], v: Option<Violation>, exhaustive: bool) -> ! {
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let a: Vec<String> = assumptions.iter().map(|s| js(s)).collect();
        let tier = if self.thorough { "thorough" } else { "quick" };
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n{},\n  \"exhaustive\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            js(&self.prop), tier, self.seed, level, coverage, exhaustive && v.is_none(), a.join(", "),
            self.t0.elapsed().as_secs_f64(), v.is_some() as u32
        );
        let mut f = match std::fs::File::create(dir.join(format!("{}.json", self.prop))) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("harness: cannot write evidence: {}", e);
                std::process::exit(2)
            }
        };
        let _ = f.write_all(body.as_bytes());
        if let Some(v) = v {
            let rp = dir.join(format!("replay-{}.txt", self.prop));
            let _ = std::fs::write(&rp, format!("property {}\nkey {}\nunit {}\n{}\n", self.prop, v.key, v.unit, v.text));
            println!("{}", v.text);
            println!("VIOLATION property={} replay={}", self.prop, rp.display());
            std::process::exit(1)
        }
        println!("{}: held on everything explored ({})", self.prop, coverage.split("\"samples\"").next().unwrap_or("").replace('\n', " "));
        std::process::exit(0)
    }
}
