//! C16: the state listings. Grammars, good and spoilt, are expanded in simulated rustc
//! processes and every listing is compared with the grammar; then simulated sessions of the
//! parsers have to follow the automaton that was listed.

use crate::build::{Corpus, Scratch, Shard, in_parallel};
use crate::expand::{Env, Out, World};
use crate::verdict::{Violation, write_replay};
use crate::{Ctl, harness};
use pomsim::edit;
use pomsim::emit::grammar_text_as;
use pomsim::ir::Gram;
use pomsim::json::J;
use pomsim::lalr::{self, Reject};
use pomsim::listing;
use pomsim::obj;
use pomsim::rng::{Rng, hash_str, mix};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::time::{Duration, Instant};

const PER: usize = 30;

fn text_of(g: &Gram) -> String {
    grammar_text_as(g, "parser", false)
}

fn make(seed: u64, i: usize) -> (Gram, String) {
    let mut r = Rng::new(mix(mix(seed, hash_str("C16 cases")), i as u64));
    let (mut g, done) = edit::case(seed ^ 0x16, i, &mut r);
    if r.pct(70) {
        g.tags.push("verbose".into());
    }
    (g, done)
}

#[derive(PartialEq)]
enum Outcome {
    /// Nothing to judge, and why.
    Skip(&'static str),
    Good(&'static str),
    Bad(String),
}

/// Judges one grammar by its diagnostics (none: it became a parser) and, if it was printed, its
/// listing.
fn judge(g: &Gram, diags: &str, printed: Option<&listing::Listing>) -> Outcome {
    let x = pomsim::ir::expand(g);
    let Ok(au) = lalr::automaton(&x, 400) else { return Outcome::Skip("no automaton") };
    let Some(nm) = listing::names(g, &x) else { return Outcome::Skip("symbols with equal names") };
    if diags.is_empty() {
        return match printed {
            None if g.tag("verbose") => Outcome::Bad("no listing is printed".into()),
            None => Outcome::Skip("no listing asked for"),
            Some(_) if !g.tag("verbose") => Outcome::Bad("a listing is printed without %verbose".into()),
            Some(l) => match listing::check(l, g, &x, &nm, &au, false) {
                Some(e) => Outcome::Bad(e),
                None => Outcome::Good("%verbose"),
            },
        };
    }
    let Some((_, rep)) = diags.split_once("Parsing conflicts:") else {
        return Outcome::Skip("refused for another reason");
    };
    let rep: String = rep.lines().filter(|l| !l.starts_with(" [")).map(|l| format!("{l}\n")).collect();
    match listing::read(&rep) {
        Err(e) => Outcome::Bad(e),
        Ok(v) if v.len() != 1 => Outcome::Bad(format!("{} listings in the report of a conflict", v.len())),
        Ok(v) => {
            if let Ok(_) | Err(Reject::Unreduced(_)) = lalr::build(&x, 400) {
                return Outcome::Skip("wrongly refused");
            }
            match listing::check(&v[0], g, &x, &nm, &au, true) {
                Some(e) => Outcome::Bad(e),
                None => Outcome::Good("conflict"),
            }
        }
    }
}

/// Listings in the order of the grammars that printed one.
fn deal(said: &str, grams: &[&Gram], diags: &[&str]) -> Result<Vec<Option<listing::Listing>>, String> {
    let mut v = listing::read(said)?.into_iter();
    let out = grams.iter().zip(diags).map(|(g, d)| if d.is_empty() && g.tag("verbose") { v.next() } else { None }).collect();
    match v.next() {
        Some(_) => Err("more listings than grammars that ask for one".into()),
        None => Ok(out),
    }
}

/// One grammar alone.
fn one(e: &Env, dir: &Path, g: &Gram, w: &World) -> Outcome {
    match e.expand_and_listen(dir, &[text_of(g)], &World { order: vec![0], ..w.clone() }) {
        (Out::All(v), said) => match deal(&said, &[g], &[&v[0].1]) {
            Ok(l) => judge(g, &v[0].1, l[0].as_ref()),
            Err(x) => Outcome::Bad(x),
        },
        _ => Outcome::Skip("rustc died"),
    }
}

fn shrink(e: &Env, dir: &Path, g: &Gram, w: &World) -> Gram {
    let t0 = Instant::now();
    let mut g = g.clone();
    'again: loop {
        let mut tries: Vec<Gram> = Vec::new();
        for i in 0..g.rules.len() {
            let mut h = g.clone();
            h.rules.remove(i);
            tries.push(h);
        }
        for i in 0..g.assoc.len() {
            let mut h = g.clone();
            h.assoc.remove(i);
            tries.push(h);
        }
        for i in 0..g.fallback.len() {
            let mut h = g.clone();
            h.fallback.remove(i);
            tries.push(h);
        }
        for i in 0..g.rules.len() {
            for k in 0..g.rules[i].rhs.len() {
                let mut h = g.clone();
                h.rules[i].rhs.remove(k);
                h.rules[i].code = true;
                tries.push(h);
            }
        }
        for h in tries {
            if t0.elapsed() > Duration::from_secs(60) {
                return g;
            }
            if h.rules.iter().any(|r| r.lhs == h.start) && matches!(one(e, dir, &h, w), Outcome::Bad(_)) {
                g = h;
                continue 'again;
            }
        }
        return g;
    }
}

#[derive(Default)]
struct Sum {
    judged: BTreeMap<String, u64>,
    skipped: BTreeMap<String, u64>,
    done: BTreeMap<String, u64>,
    texts: BTreeSet<u64>,
    procs: u64,
    lost: u64,
    states: u64,
    found: Option<(usize, World, String)>,
    garbled: Option<(usize, World, String)>,
}

/// The listings on their own. What was covered, and what was found.
pub fn listings(c: &Ctl, batches: usize, secs: u64) -> (J, u64, u64, Vec<Violation>) {
    let work = Scratch::new(c, "listed");
    let e = Env::new(c, 100);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let sum = std::sync::Mutex::new(Sum::default());
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..c.width {
            s.spawn(|| {
                loop {
                    let b = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let stop = {
                        let g = sum.lock().unwrap();
                        g.found.is_some() || g.garbled.is_some()
                    };
                    if b >= batches || t0.elapsed().as_secs() > secs || stop {
                        break;
                    }
                    let cases: Vec<(Gram, String)> = (0..PER).map(|k| make(c.seed, b * PER + k)).collect();
                    let texts: Vec<String> = cases.iter().map(|k| text_of(&k.0)).collect();
                    let mut r = Rng::new(mix(mix(c.seed, hash_str("C16 worlds")), b as u64));
                    let mut order: Vec<usize> = (0..PER).collect();
                    r.shuffle(&mut order);
                    let w = World { hash: r.next(), heap: r.next(), clock: 0, order };
                    let dir = work.0.join(format!("b{b}"));
                    let (out, said) = e.expand_and_listen(&dir, &texts, &w);
                    let _ = std::fs::remove_dir_all(&dir);
                    let Out::All(v) = out else {
                        sum.lock().unwrap().lost += 1;
                        continue;
                    };
                    let grams: Vec<&Gram> = w.order.iter().map(|k| &cases[*k].0).collect();
                    let diags: Vec<&str> = v.iter().map(|s| s.1.as_str()).collect();
                    let dealt = deal(&said, &grams, &diags);
                    let res: Vec<Outcome> = match &dealt {
                        Ok(l) => grams.iter().zip(&diags).zip(l).map(|((g, d), l)| judge(g, d, l.as_ref())).collect(),
                        Err(_) => vec![],
                    };
                    let mut g = sum.lock().unwrap();
                    g.procs += 1;
                    if let Err(x) = dealt {
                        if g.garbled.as_ref().is_none_or(|f| b < f.0) {
                            g.garbled = Some((b, w.clone(), x));
                        }
                    } else if let Ok(l) = &dealt {
                        g.states += l.iter().flatten().map(|l| l.states.len() as u64).sum::<u64>();
                    }
                    for (p, o) in res.into_iter().enumerate() {
                        let k = w.order[p];
                        match o {
                            Outcome::Skip(x) => *g.skipped.entry(x.into()).or_default() += 1,
                            Outcome::Good(x) => {
                                *g.judged.entry(x.into()).or_default() += 1;
                                g.texts.insert(hash_str(&texts[k]));
                                for d in cases[k].1.split(", ") {
                                    *g.done.entry(d.to_string()).or_default() += 1;
                                }
                            }
                            Outcome::Bad(x) => {
                                let at = b * PER + k;
                                if g.found.as_ref().is_none_or(|f| at < f.0) {
                                    g.found = Some((at, w.clone(), x));
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    let g = sum.into_inner().unwrap();
    let mut vs = Vec::new();
    let dir = work.0.join("settle");
    let mut found = g.found;
    if let (None, Some((b, w, x))) = (&found, g.garbled) {
        // which of them?
        let bad = (0..PER).find(|k| matches!(one(&e, &dir, &make(c.seed, b * PER + k).0, &w), Outcome::Bad(_)));
        match bad {
            Some(k) => found = Some((b * PER + k, w, x)),
            None => harness(&format!("the listings of batch {b} cannot be told apart: {x}")),
        }
    }
    if let Some((at, w, first)) = found {
        let gram = make(c.seed, at).0;
        let small = shrink(&e, &dir, &gram, &w);
        let (gram, what) = match one(&e, &dir, &small, &w) {
            Outcome::Bad(x) => (small, x),
            _ => (gram, first),
        };
        let text = text_of(&gram);
        let sig = format!("listing-{:016x}", hash_str(&text));
        let j = obj! {
            "version" => 1u64, "property" => "C16", "mode" => "listing", "seed" => c.seed, "text" => &text, "world" => w.json(),
            "gram" => gram.to_json(), "expected" => &what,
        };
        let what = format!("listing: {what}\n{text}");
        vs.push(Violation { prop: "C16".into(), replay: write_replay(c, &j, &sig), what, sig });
    }
    let n: u64 = g.judged.values().sum();
    if n == 0 && vs.is_empty() {
        harness("no listing was read");
    }
    let secs = t0.elapsed().as_secs_f64();
    let j = obj! {
        "listings_compared" => g.judged, "distinct_grammars_with_a_listing" => g.texts.len(), "listed_states" => g.states,
        "grammars_without_verdict" => g.skipped, "changes_made_to_the_grammars" => g.done, "rustc_processes" => g.procs,
        "rustc_processes_lost" => g.lost, "expansions_per_hour" => (n as f64 * 3600.0 / secs) as u64,
    };
    (j, n, g.texts.len() as u64, vs)
}

/// Gives the sessions of a shard the automata that pomelo lists for its grammars.
fn attach_shard(e: &Env, sh: &Shard) -> Option<(Gram, String)> {
    let texts: Vec<String> = sh.grams.iter().map(text_of).collect();
    let w = World { hash: 1, heap: 1, clock: 0, order: (0..texts.len()).collect() };
    let (out, said) = e.expand_and_listen(&sh.dir.join("listed"), &texts, &w);
    let _ = std::fs::remove_dir_all(sh.dir.join("listed"));
    let mut tabs: Vec<J> = vec![J::Null; texts.len()];
    if let Out::All(v) = out {
        let grams: Vec<&Gram> = sh.grams.iter().collect();
        let diags: Vec<&str> = v.iter().map(|s| s.1.as_str()).collect();
        if let Ok(l) = deal(&said, &grams, &diags) {
            for (i, (g, l)) in grams.iter().zip(&l).enumerate() {
                let x = pomsim::ir::expand(g);
                if let (Some(nm), Some(l)) = (listing::names(g, &x), l) {
                    match listing::tables(l, g, &x, &nm) {
                        Ok(t) => tabs[i] = t.to_json(),
                        Err(x) => return Some(((*g).clone(), x)),
                    }
                }
            }
        }
    }
    let _ = std::fs::write(sh.dir.join("tabs.json"), J::Arr(tabs).to_string());
    None
}

/// The first listing that is no automaton, if there is one.
pub fn attach(c: &Ctl, corpus: &Corpus) -> Vec<Violation> {
    let e = Env::new(c, 100);
    let found = in_parallel(c.width, corpus.shards.iter().filter(|s| s.n > 0).collect(), |s| attach_shard(&e, s));
    let Some((gram, what)) = found.into_iter().flatten().min_by_key(|g| g.0.rules.len()) else { return vec![] };
    let text = text_of(&gram);
    let sig = format!("listing-{:016x}", hash_str(&text));
    let w = World { hash: 1, heap: 1, clock: 0, order: vec![0] };
    let j = obj! {
        "version" => 1u64, "property" => "C16", "mode" => "listing", "seed" => c.seed, "text" => &text, "world" => w.json(),
        "gram" => gram.to_json(), "expected" => &what,
    };
    vec![Violation { prop: "C16".into(), replay: write_replay(c, &j, &sig), what: format!("listing: {what}\n{text}"), sig }]
}

pub fn replay(c: &Ctl, j: &J) -> (bool, String) {
    let work = Scratch::new(c, "listed");
    let e = Env::new(c, 60);
    match one(&e, &work.0, &Gram::from_json(j.get("gram")), &World::from(j.get("world"))) {
        Outcome::Bad(x) => (true, format!("listing: {x}")),
        Outcome::Good(_) => (false, "the listing is right".into()),
        Outcome::Skip(x) => (false, x.into()),
    }
}
