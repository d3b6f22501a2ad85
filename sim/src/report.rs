//! The evidence file and the verdict lines.

use crate::Ctl;
use crate::build::{Corpus, ShardOut};
use crate::verdict::Violation;
use pomsim::json::J;
use pomsim::obj;
use std::collections::BTreeMap;

pub struct Report {
    sums: BTreeMap<String, i128>,
    faults: BTreeMap<String, i128>,
    samples: Vec<J>,
    tags: BTreeMap<String, u64>,
    features: BTreeMap<String, u64>,
    others: BTreeMap<String, u64>,
    grams: u64,
    refused: u64,
    lr_states: u64,
    compile_s: f64,
    sim_s: f64,
    pub candidates: u64,
    pub deterministic: Option<(u64, bool)>,
    crashes: u64,
    notes: Vec<String>,
    listings: Option<(J, u64, u64)>,
}

impl Report {
    pub fn new(_c: &Ctl) -> Report {
        Report {
            sums: BTreeMap::new(),
            faults: BTreeMap::new(),
            samples: vec![],
            tags: BTreeMap::new(),
            features: BTreeMap::new(),
            others: BTreeMap::new(),
            grams: 0,
            refused: 0,
            lr_states: 0,
            compile_s: 0.0,
            sim_s: 0.0,
            candidates: 0,
            deterministic: None,
            crashes: 0,
            notes: vec![],
            listings: None,
        }
    }
    pub fn listings(&mut self, j: J, n: u64, distinct: u64) {
        self.listings = Some((j, n, distinct));
    }
    pub fn other(&mut self, s: &str) {
        *self.others.entry(s.to_string()).or_default() += 1;
    }
    pub fn corpus(&mut self, k: &Corpus) {
        self.grams += k.shards.iter().map(|s| s.n as u64).sum::<u64>() - k.refused.len().min(k.shards.iter().map(|s| s.n).sum()) as u64;
        self.refused += k.refused.len() as u64;
        self.lr_states += k.states as u64;
        self.compile_s += k.compile_s;
        for (a, n) in &k.tags {
            *self.tags.entry(a.clone()).or_default() += n;
        }
        for (a, n) in &k.features {
            *self.features.entry(a.clone()).or_default() += n;
        }
        for r in &k.refused {
            self.other(&format!("grammar refused: {:?}", r.how));
            if self.notes.len() < 5 {
                self.notes.push(format!("{}: {:?}: {}", r.gram.name, r.how, r.text.chars().take(200).collect::<String>()));
            }
        }
    }
    pub fn add(&mut self, outs: &[ShardOut]) {
        let mut longest = 0;
        for o in outs {
            self.crashes += o.lost + (o.end != "ok") as u64;
            let Some(m) = o.result.obj() else { continue };
            for (k, v) in m {
                match (k.as_str(), v) {
                    (k, J::Int(n)) if k.starts_with("max_") => {
                        let e = self.sums.entry(k.into()).or_default();
                        *e = (*e).max(*n);
                    }
                    ("wall_ms", J::Int(n)) => longest = longest.max(*n),
                    (k, J::Int(n)) => *self.sums.entry(k.into()).or_default() += n,
                    ("faults", J::Obj(f)) => {
                        for (k, v) in f {
                            *self.faults.entry(k.clone()).or_default() += v.int() as i128;
                        }
                    }
                    ("samples", J::Arr(v)) => {
                        for x in v {
                            if self.samples.len() < 4 {
                                self.samples.push(x.clone());
                            }
                        }
                    }
                    ("foreign", J::Arr(v)) => {
                        for x in v {
                            *self.others.entry(x.get("what").str().into()).or_default() += x.get("n").u64();
                            if self.notes.len() < 5 {
                                self.notes.push(x.get("first").get("fail").to_string().chars().take(600).collect());
                            }
                        }
                    }
                    _ => (),
                }
            }
        }
        self.sim_s += longest as f64 / 1000.0;
    }

    pub fn finish(self, c: &Ctl, violations: &[Violation]) -> i32 {
        let get = |k: &str| self.sums.get(k).copied().unwrap_or(0).max(0) as u64;
        let runs = get("runs");
        let mut cov = obj! {
            "evaluations" => runs,
            "distinct_nontrivial" => get("nontrivial"),
            "rule" => rule(&c.prop),
            "samples" => J::Arr(self.samples.clone()),
            "grammars" => self.grams, "grammars_refused" => self.refused, "grammar_families" => self.tags.clone(), "grammar_features" => self.features.clone(),
            "lr_states_of_the_grammars" => self.lr_states,
            "lr_state_and_lookahead_pairs_reached" => get("states"),
            "simulated_runs_per_hour" => if self.sim_s > 0.0 { (runs as f64 * 3600.0 / self.sim_s) as u64 } else { 0 },
            "runs_of_one_session" => get("singles"), "runs_with_a_fault_placed_by_sweep" => get("sweeps"),
            "long_or_deep_runs" => get("marathons"), "runs_of_several_sessions" => get("multis"), "sessions_also_run_alone" => get("compared_alone"),
            "distinct_schedules" => get("schedules"), "distinct_run_digests" => get("distinct"),
            "simulated_ms" => get("sim_ms"), "frames_delivered" => get("frames"),
            "faults_injected" => J::Obj(self.faults.iter().map(|(k, v)| (k.clone(), J::Int(*v))).collect()),
            "real_components" => vec!["pomelo and pomelo-impl of the tree under test (macro, tables, generated parser)", "rustc", "OS threads, run one at a time as the seed decides"],
            "stubbed_components" => vec!["user code of the grammars (actions and callbacks record and fail as told)", "user-supplied stack type", "token source and link (virtual time)", "thread scheduler"],
            "candidates" => self.candidates, "processes_lost" => self.crashes,
            "not_this_property" => self.others.clone(), "notes" => self.notes.clone(),
            "compile_s" => self.compile_s, "simulation_s" => self.sim_s,
            "seeds" => vec![c.seed],
        };
        if let (J::Obj(m), Some((n, ok))) = (&mut cov, self.deterministic) {
            m.insert("determinism_runs_in_other_processes".into(), J::from(n));
            m.insert("determinism_held".into(), J::from(ok));
        }
        if let J::Obj(m) = &mut cov {
            for k in [
                "calls", "hooks", "pushes", "sessions", "moves", "switches", "max_live", "shifts", "reduces", "errors", "via_fallback", "via_wildcard",
                "syntax_error_calls", "parse_fails", "overflows", "accepts", "expected_lists_checked", "arguments_checked", "optional_arguments", "max_depth",
                "shifts_in_recovery", "accepts_after_error", "reports_suppressed", "calls_after_failure", "extra_checks", "live_checks", "user_code_failures",
                "calls_preempted_between_instructions", "preemptions_between_instructions", "calls_stepped", "instructions_stepped", "calls_compared_with_early_ones",
            ] {
                m.insert(k.into(), J::from(get(k)));
            }
        }
        if let (J::Obj(m), Some((j, n, d))) = (&mut cov, self.listings) {
            m.insert("evaluations".into(), J::from(n + runs));
            m.insert("distinct_nontrivial".into(), J::from(d + self.sums.get("nontrivial").copied().unwrap_or(0).max(0) as u64));
            m.insert("listings".into(), j);
        }
        write(c, cov, violations)
    }
}

fn rule(prop: &str) -> String {
    let m = match prop {
        "C01" => "ran at least one rule action",
        "C02" => "had the set of live values compared after at least one call",
        "C04" => "had user code fail, or made a call after a failure",
        "C05" | "C06" => "contained at least one syntax error",
        "C07" => "reached the stack limit",
        "C08" => "had at least one expected-token list checked",
        "C09" => "had at least one token taken through fallback or wildcard",
        "C10" => "had at least one action argument compared",
        "C13" => "had the extra argument compared after at least one call",
        _ => "shifted at least one token",
    };
    format!(
        "A run is a sequence of calls to parsers of generated grammars, made by a simulated token source behind a faulty link (or by a schedule of several sessions), with faults placed in user code; all drawn from VERIF_SEED. Runs are distinct when what the caller and the user code saw differs (64-bit digest), and non-trivial when the run {m}."
    )
}

fn known(c: &Ctl) -> Vec<(String, String, String)> {
    // finding: property=<id> signature=<sig> <what fails>
    let t = std::fs::read_to_string(c.home.join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, l) = l.split_once(" signature=")?;
            let (s, w) = l.split_once(' ')?;
            Some((p.to_string(), s.to_string(), w.to_string()))
        })
        .collect()
}

pub fn write(c: &Ctl, coverage: J, violations: &[Violation]) -> i32 {
    let list = known(c);
    let mut bad = 0;
    for v in violations {
        if let Some(k) = list.iter().find(|k| k.0 == v.prop && k.1 == v.sig) {
            println!("KNOWN-FINDING: property={} {}", v.prop, k.2);
            continue;
        }
        bad += 1;
        println!("{}", v.what);
        println!("signature {}", v.sig);
        println!("VIOLATION property={} replay={}", v.prop, v.replay);
    }
    let wall = c.t0.elapsed().as_secs_f64();
    let j = obj! {
        "property" => &c.prop, "tier" => if c.thorough { "thorough" } else { "quick" }, "seed" => c.seed, "level" => "exploration",
        "coverage" => coverage.clone(),
        "assumptions" => vec![
            "the reference model (LALR(1) construction and parser semantics in /verif/sim, written from the documentation) is right for the grammars generated",
            "sampled: what was not generated is not covered",
        ],
        "wall_s" => (wall * 10.0).round() / 10.0, "violations" => bad as u64,
    };
    let d = c.home.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(d.join(format!("{}.json", c.prop)), j.pretty()) {
        crate::harness(&format!("evidence: {e}"));
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} violations, {wall:.1} s",
        c.prop,
        coverage.get("evaluations").int(),
        coverage.get("distinct_nontrivial").int(),
        bad
    );
    (bad > 0) as i32
}
