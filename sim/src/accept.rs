//! C14: which grammars become parsers. Grammars with and without mistakes are expanded in
//! simulated rustc processes; the reference tables, or the kind of mistake, say what must
//! become of each.

use crate::build::Scratch;
use crate::expand::{Env, Out, World, statements};
use crate::report;
use crate::verdict::{Violation, write_replay};
use crate::{Ctl, harness};
use pomsim::edit::{self, Must};
use pomsim::emit::grammar_text_as;
use pomsim::ir::Gram;
use pomsim::json::J;
use pomsim::obj;
use pomsim::rng::{Rng, hash_str, mix};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::time::{Duration, Instant};

struct Case {
    gram: Gram,
    text: String,
    /// Statements that must stay for the verdict to hold.
    keep: Vec<String>,
    must: Must,
    why: &'static str,
    done: String,
}

fn text_of(g: &Gram) -> String {
    grammar_text_as(g, "parser", false)
}

fn make(seed: u64, i: usize) -> Case {
    let mut r = Rng::new(mix(mix(seed, hash_str("C14 cases")), i as u64));
    if r.pct(1) {
        // declarations, but no rules
        let g = pomsim::gen_::gram("C14", seed, i).g;
        let most = *r.pick(&[0, 20, 60, 100]);
        let v: Vec<String> = statements(&text_of(&g)).into_iter().filter(|s| s.starts_with('%') && r.pct(most)).collect();
        return Case { gram: g, text: join(&v), keep: v, must: Must::Reject, why: "a grammar without rules", done: "all rules removed".into() };
    }
    if r.pct(35) {
        // a contradiction in a grammar that is fine
        let g = pomsim::gen_::gram("C14", seed, i).g;
        let (add, why) = loop {
            if let Some(x) = edit::contradiction(&g, &mut r) {
                break x;
            }
        };
        let mut v = statements(&text_of(&g));
        for a in &add {
            let at = r.below(v.len() + 1);
            v.insert(at, a.clone());
        }
        let text = join(&v);
        return Case { gram: g, text, keep: add, must: Must::Reject, why, done: "a contradictory statement".into() };
    }
    let (gram, done) = edit::case(seed, i, &mut r);
    let (must, why) = edit::verdict(&gram);
    let text = text_of(&gram);
    Case { gram, text, keep: vec![], must, why, done }
}

fn join(v: &[String]) -> String {
    v.iter().map(|s| format!("    {s}\n")).collect()
}

/// Is the outcome wrong? `diags` is empty for a grammar that became a parser.
fn wrong(must: &Must, diags: &str) -> Option<String> {
    let first = diags.lines().next().unwrap_or("").chars().take(300).collect::<String>();
    if let Some(x) = first.strip_prefix(NOTHING) {
        return Some(format!("no diagnostic:{x}"));
    }
    if diags.contains("panicked") {
        return Some(format!("the macro panics: {first}"));
    }
    match must {
        Must::Accept if !diags.is_empty() => Some(format!("refused: {first}")),
        Must::Reject if diags.is_empty() => Some("accepted".into()),
        _ => None,
    }
}

fn one(e: &Env, dir: &Path, text: &str, w: &World) -> Option<String> {
    match e.expand(dir, &[text.to_string()], &World { order: vec![0], ..w.clone() }) {
        Out::All(v) => Some(v[0].1.clone()),
        // neither a parser nor a diagnostic
        Out::Died(m) => Some(format!("{NOTHING} the compiler dies ({m})")),
        Out::Hang => Some(format!("{NOTHING} the expansion does not end")),
    }
}
const NOTHING: &str = "[nothing]";

fn shrink(e: &Env, dir: &Path, c: &Case, w: &World) -> (String, Gram) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(90);
    if !c.keep.is_empty() || c.why == "a grammar without rules" {
        let mut v = statements(&c.text);
        let mut size = v.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < v.len() && t0.elapsed() < limit {
                let mut u = v.clone();
                let gone: Vec<String> = u.drain(i..(i + size).min(v.len())).collect();
                // whatever is contradicted must stay, too
                let stays = c.keep.iter().all(|k| !gone.contains(k)) && !gone.iter().any(|x| x.starts_with('%'));
                if stays && !u.is_empty() && one(e, dir, &join(&u), w).is_some_and(|d| wrong(&c.must, &d).is_some()) {
                    v = u;
                    any = true;
                } else {
                    i += size;
                }
            }
            if t0.elapsed() >= limit || size == 1 && !any {
                return (join(&v), c.gram.clone());
            }
            size = (size / 2).max(1);
        }
    }
    let mut g = c.gram.clone();
    loop {
        let mut any = false;
        let mut tries: Vec<Gram> = Vec::new();
        for i in 0..g.rules.len() {
            let mut h = g.clone();
            h.rules.remove(i);
            tries.push(h);
        }
        for i in 0..g.assoc.len() {
            let mut h = g.clone();
            h.assoc.remove(i);
            tries.push(h);
        }
        for i in 0..g.fallback.len() {
            let mut h = g.clone();
            h.fallback.remove(i);
            tries.push(h);
        }
        for i in 0..g.rules.len() {
            for k in 0..g.rules[i].rhs.len() {
                let mut h = g.clone();
                h.rules[i].rhs.remove(k);
                h.rules[i].code = true;
                tries.push(h);
            }
        }
        for h in tries {
            if t0.elapsed() > limit {
                return (text_of(&g), g);
            }
            if h.rules.is_empty() || !h.rules.iter().any(|r| r.lhs == h.start) || edit::verdict(&h) != (c.must.clone(), c.why) {
                continue;
            }
            if one(e, dir, &text_of(&h), w).is_some_and(|d| wrong(&c.must, &d).is_some()) {
                g = h;
                any = true;
                break;
            }
        }
        if !any {
            return (text_of(&g), g);
        }
    }
}

pub fn run(c: &Ctl) -> i32 {
    let work = Scratch::new(c, "accept");
    let e = Env::new(c, 100);
    let alone = e.with_limit(25);
    let per = 40;
    let (batches, cap) = if c.thorough {
        (usize::MAX, std::env::var("POMSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(700))
    } else {
        (150, 240)
    };
    #[derive(Default)]
    struct Sum {
        procs: u64,
        expansions: u64,
        texts: BTreeSet<u64>,
        must: BTreeMap<String, u64>,
        why: BTreeMap<String, u64>,
        done: BTreeMap<String, u64>,
        messages: BTreeMap<String, u64>,
        died: u64,
        hung: u64,
        open: BTreeMap<String, u64>,
        samples: Vec<J>,
        found: Option<(usize, usize, World, String)>,
        batches: u64,
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let sum = std::sync::Mutex::new(Sum::default());
    std::thread::scope(|s| {
        for _ in 0..c.width {
            s.spawn(|| {
                loop {
                    let b = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if b >= batches || c.t0.elapsed().as_secs() > cap || sum.lock().unwrap().found.is_some() {
                        break;
                    }
                    let cases: Vec<Case> = (0..per).map(|k| make(c.seed, b * per + k)).collect();
                    let texts: Vec<String> = cases.iter().map(|k| k.text.clone()).collect();
                    let mut r = Rng::new(mix(mix(c.seed, hash_str("C14 worlds")), b as u64));
                    let mut order: Vec<usize> = (0..per).collect();
                    r.shuffle(&mut order);
                    let w = World { hash: r.next(), heap: r.next(), clock: 0, order };
                    let dir = work.0.join(format!("b{b}"));
                    let out = e.expand(&dir, &texts, &w);
                    let _ = std::fs::remove_dir_all(&dir);
                    // which one was it?
                    let culprit = match out {
                        Out::All(_) => None,
                        _ => (0..per).filter(|k| cases[*k].must != Must::Open).find_map(|k| {
                            let d = one(&alone, &dir, &cases[k].text, &w)?;
                            d.starts_with(NOTHING).then(|| (k, wrong(&cases[k].must, &d).unwrap_or_default()))
                        }),
                    };
                    let _ = std::fs::remove_dir_all(&dir);
                    let mut g = sum.lock().unwrap();
                    g.procs += 1;
                    g.batches += 1;
                    if let Some((k, x)) = culprit {
                        if g.found.as_ref().is_none_or(|f| (b, k) < (f.0, f.1)) {
                            g.found = Some((b, k, w.clone(), x));
                        }
                    }
                    match out {
                        Out::Hang => g.hung += 1,
                        Out::Died(_) => g.died += 1,
                        Out::All(v) => {
                            for (p, s) in v.iter().enumerate() {
                                let k = w.order[p];
                                let ca = &cases[k];
                                g.expansions += 1;
                                g.texts.insert(hash_str(&ca.text));
                                *g.must.entry(format!("{:?}", ca.must)).or_default() += 1;
                                *g.why.entry(ca.why.into()).or_default() += 1;
                                for d in ca.done.split(", ") {
                                    *g.done.entry(d.to_string()).or_default() += 1;
                                }
                                if !s.1.is_empty() {
                                    let m: String = s.1.lines().next().unwrap_or("").split('[').next().unwrap_or("").trim().chars().take(60).collect();
                                    *g.messages.entry(m).or_default() += 1;
                                }
                                if ca.must == Must::Open {
                                    let m = format!("{}: {}", ca.why, if s.1.is_empty() { "accepted" } else { "refused" });
                                    *g.open.entry(m).or_default() += 1;
                                }
                                if g.samples.len() < 4 && p == 0 {
                                    let j = obj! {"text" => &ca.text, "done" => &ca.done, "must" => format!("{:?} ({})", ca.must, ca.why), "outcome" => if s.1.is_empty() { "accepted".to_string() } else { s.1.clone() }};
                                    g.samples.push(j);
                                }
                                if let Some(x) = wrong(&ca.must, &s.1) {
                                    if g.found.as_ref().is_none_or(|f| (b, k) < (f.0, f.1)) {
                                        g.found = Some((b, k, w.clone(), x));
                                    }
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    let g = sum.into_inner().unwrap();
    let mut violations = Vec::new();
    if let Some((b, k, w, _)) = &g.found {
        let ca = make(c.seed, b * per + k);
        let dir = work.0.join("settle");
        let (text, gram) = shrink(&alone, &dir, &ca, w);
        let d = one(&alone, &dir, &text, w).unwrap_or_default();
        // company may have made the difference
        let (text, what) = match wrong(&ca.must, &d) {
            Some(x) => (text, x),
            None => (ca.text.clone(), g.found.as_ref().unwrap().3.clone()),
        };
        let sig = format!("{}-{:016x}", if ca.must == Must::Reject { "accepted" } else { "refused" }, hash_str(&text));
        let j = obj! {
            "version" => 1u64, "property" => "C14", "mode" => "accept", "seed" => c.seed, "text" => &text, "must" => format!("{:?}", ca.must),
            "why" => ca.why, "done" => &ca.done, "world" => w.json(), "gram" => gram.to_json(), "expected" => &what,
            "texts" => (0..per).map(|k| make(c.seed, b * per + k).text).collect::<Vec<_>>(), "subject" => *k,
        };
        let what = format!("must {:?} ({}), but: {what}\n{text}", ca.must, ca.why);
        violations.push(Violation { prop: "C14".into(), replay: write_replay(c, &j, &sig), what, sig });
    }
    let secs = c.t0.elapsed().as_secs_f64();
    let cov = obj! {
        "evaluations" => g.expansions, "distinct_nontrivial" => g.texts.len(),
        "rule" => "A case is one expansion of one grammar inside a simulated rustc process (hash seeds, heap layout and company drawn from VERIF_SEED). The grammar is one as generated, or a good one with 0-3 changes to its rules or precedences, judged by the reference tables, or a good one with a contradictory statement. distinct_nontrivial counts distinct grammar texts.",
        "samples" => J::Arr(g.samples), "rustc_processes" => g.procs, "simulated_runs_per_hour" => (g.procs as f64 * 3600.0 / secs) as u64,
        "required_outcome" => g.must, "reasons" => g.why, "faults_injected" => g.done, "diagnostics" => g.messages, "not_decided_by_the_documentation" => g.open,
        "processes_died" => g.died, "processes_hung" => g.hung, "address_space_randomisation_off" => e.fixed,
        "real_components" => vec!["pomelo and pomelo-impl of the tree under test", "rustc"],
        "stubbed_components" => vec!["getrandom, wall clock, initial heap layout"],
        "seeds" => vec![c.seed],
    };
    if g.expansions == 0 {
        harness("no expansion succeeded");
    }
    drop(work);
    report::write(c, cov, &violations)
}

pub fn replay(c: &Ctl, j: &J) -> (bool, String) {
    let work = Scratch::new(c, "accept");
    let e = Env::new(c, 60);
    let w = World::from(j.get("world"));
    let must = if j.get("must").str() == "Accept" { Must::Accept } else { Must::Reject };
    if let Some(d) = one(&e, &work.0, j.get("text").str(), &w) {
        if let Some(x) = wrong(&must, &d) {
            return (true, format!("must {must:?} ({}), but: {x}", j.get("why").str()));
        }
    }
    // in its first company
    let texts: Vec<String> = j.get("texts").arr().iter().map(|x| x.str().to_string()).collect();
    let subject = j.get("subject").usize();
    match e.expand(&work.0, &texts, &w) {
        Out::All(v) => match w.order.iter().position(|t| *t == subject).and_then(|p| wrong(&must, &v[p].1)) {
            Some(x) => (true, x),
            None => (false, "as it must be".into()),
        },
        Out::Died(m) => (false, format!("rustc died in company only: {m}")),
        Out::Hang => (false, "rustc does not end, in company only".into()),
    }
}
