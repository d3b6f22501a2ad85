//! pomcheck: the driver of the checks. Makes a corpus of grammars, has the tree's pomelo turn
//! them into parsers, runs the simulation in several processes, and judges what comes back.

mod accept;
mod build;
mod expand;
mod listed;
mod report;
mod selftest;
mod verdict;

use build::*;
use pomsim::gen_;
use pomsim::json::J;
use pomsim::model::{Gx, prepare};
use pomsim::obj;
use std::path::PathBuf;
use std::time::Instant;

pub struct Ctl {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub home: PathBuf,
    pub t0: Instant,
    /// Bins (and processes) at once.
    pub width: usize,
}

fn harness(msg: &str) -> ! {
    eprintln!("pomcheck: {msg}");
    std::process::exit(2)
}

pub struct Plan {
    pub grams: usize,
    pub runs: u64,
    pub secs: u64,
    pub rounds: u64,
}

fn plan(c: &Ctl) -> Plan {
    // grammars per round, runs per shard and round, seconds per round
    let (g, r) = match c.prop.as_str() {
        "C03" => (240, 6_000),
        "C01" => (480, 30_000),
        "C07" | "C12" => (320, 20_000),
        _ => (320, 30_000),
    };
    if c.thorough {
        let secs: u64 = std::env::var("POMSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(720);
        Plan { grams: g * 2, runs: r * 6, secs: 60, rounds: secs / 80 + 1 }
    } else {
        Plan { grams: g, runs: r, secs: if c.prop == "C03" { 60 } else { 25 }, rounds: 1 }
    }
}

pub fn make_grams(prop: &str, seed: u64, from: usize, n: usize) -> Vec<Gx> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let slots: Vec<std::sync::Mutex<Option<Gx>>> = (0..n).map(|_| Default::default()).collect();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    *slots[i].lock().unwrap() = Some(gen_::gram(prop, seed, from + i));
                    if prop == "C16" {
                        slots[i].lock().unwrap().as_mut().unwrap().g.tags.push("verbose".into());
                    }
                }
            });
        }
    });
    slots.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}

fn run(c: &Ctl) -> i32 {
    let p = plan(c);
    let work = Scratch::new(c, "corpus");
    let mut rep = report::Report::new(c);
    let mut violations: Vec<verdict::Violation> = Vec::new();
    if c.prop == "C16" {
        let (j, n, distinct, v) = if c.thorough { listed::listings(c, usize::MAX, p.rounds * 40) } else { listed::listings(c, 100, 240) };
        rep.listings(j, n, distinct);
        violations.extend(v);
    }
    for round in 0..p.rounds {
        if !violations.is_empty() || round > 0 && c.t0.elapsed().as_secs() > p.rounds * 80 {
            break;
        }
        let gxs = make_grams(&c.prop, c.seed, (round as usize) * p.grams, p.grams);
        let corpus = Corpus::build(c, &work.0.join(format!("r{round}")), gxs);
        rep.corpus(&corpus);
        violations.extend(verdict::of_build(c, &corpus));
        if c.prop == "C16" {
            violations.extend(listed::attach(c, &corpus));
        }
        if violations.is_empty() {
            let outs = corpus.run_all(c, round, p.runs, p.secs);
            rep.add(&outs);
            violations.extend(verdict::of_runs(c, &corpus, &outs, round, &mut rep));
        }
        let _ = std::fs::remove_dir_all(work.0.join(format!("r{round}")));
        if !violations.is_empty() {
            break;
        }
    }
    drop(work);
    rep.finish(c, &violations)
}

fn replay(c: &mut Ctl, file: &str) -> i32 {
    let j = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| J::parse(&s)) {
        Ok(j) => j,
        Err(e) => harness(&format!("{file}: {e}")),
    };
    c.prop = j.get("property").str().to_string();
    let (again, what) = match j.get("mode").str() {
        "expand" => expand::replay(c, &j),
        "accept" => accept::replay(c, &j),
        "listing" => listed::replay(c, &j),
        m => {
            let grams: Vec<Gx> = j
                .get("grams")
                .arr()
                .iter()
                .map(|g| prepare(&pomsim::ir::Gram::from_json(g), 5000).unwrap_or_else(|e| harness(&format!("grammar in replay file: {e:?}"))))
                .collect();
            let work = Scratch::new(c, "replay");
            let corpus = Corpus::build_with(c, &work.0, grams, 1, if m == "batch" { j.get("grams").arr().len().max(1) } else { 0 });
            if c.prop == "C16" {
                listed::attach(c, &corpus);
            }
            match m {
                "build" => match corpus.refused.first() {
                    Some(r) => (true, format!("{:?}: {}", r.how, r.text)),
                    None => (false, "pomelo accepts the grammar and its parser compiles".into()),
                },
                "batch" => verdict::replay_batch(c, &corpus, &j),
                _ => verdict::replay_run(c, &corpus, &j),
            }
        }
    };
    println!("{what}");
    if again {
        println!("VIOLATION property={} replay={file}", c.prop);
        1
    } else {
        println!("not reproduced");
        0
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let home = std::env::var("POMSIM_HOME").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let mut c = Ctl {
        prop: a.get(2).cloned().unwrap_or_default(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        home,
        t0: Instant::now(),
        width: 8,
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") if c.prop == "C11" => expand::run(&c),
        Some("run") if c.prop == "C14" => accept::run(&c),
        Some("run") => run(&c),
        Some("replay") => {
            let f = c.prop.clone();
            replay(&mut c, &f)
        }
        Some("selftest") => selftest::run(&c),
        Some("show") => {
            // the grammar text of one generated grammar
            let g = gen_::gram(&c.prop, c.seed, a[3].parse().unwrap());
            println!("{}", pomsim::emit::source(&g.g));
            0
        }
        Some("show-replay") => {
            let j = J::parse(&std::fs::read_to_string(&c.prop).unwrap()).unwrap();
            for g in j.get("grams").arr() {
                println!("{}", pomsim::emit::grammar_text(&pomsim::ir::Gram::from_json(g)));
            }
            println!("{}", obj! {"run" => j.get("run").clone(), "fail" => j.get("expected").clone(), "log" => j.get("log").clone()}.pretty());
            0
        }
        _ => harness("usage: pomcheck run <property> | replay <file> | selftest"),
    };
    std::process::exit(code);
}
