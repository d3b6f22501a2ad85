//! C11: expansion itself is simulated. rustc processes expand grammars, good and bad, while
//! the simulator decides what the operating system would leave to chance: hash seeds, heap
//! layout, wall clock, which grammars are expanded before, and in which order.

use crate::build::{End, Scratch, diags, in_parallel, wait};
use crate::report;
use crate::verdict::{Violation, write_replay};
use crate::{Ctl, harness, make_grams};
use pomsim::emit::grammar_text_as;
use pomsim::json::J;
use pomsim::obj;
use pomsim::rng::{Rng, hash_str, mix};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// What a process is given by its environment.
#[derive(Clone, Debug, PartialEq)]
pub struct World {
    pub hash: u64,
    pub heap: u64,
    pub clock: u64,
    /// Expanded in this order; an entry may occur twice.
    pub order: Vec<usize>,
}
impl World {
    pub fn json(&self) -> J {
        obj! {"hash_seed" => self.hash, "heap" => self.heap, "clock" => self.clock, "order" => self.order.clone()}
    }
    pub fn from(j: &J) -> World {
        World { hash: j.get("hash_seed").u64(), heap: j.get("heap").u64(), clock: j.get("clock").u64(), order: j.get("order").arr().iter().map(|x| x.usize()).collect() }
    }
}

/// Expansion and diagnostics of one occurrence of a grammar.
pub type Seen = (String, String);
pub enum Out {
    /// Per position in the order.
    All(Vec<Seen>),
    Hang,
    Died(String),
}

fn preload(c: &Ctl) -> std::path::PathBuf {
    let so = c.home.join("target").join(format!("envsim-{}.so", std::process::id()));
    let r = Command::new("cc").args(["-O1", "-shared", "-fPIC", "-o"]).arg(&so).arg(c.home.join("sim/envsim.c")).arg("-ldl").status();
    if !r.is_ok_and(|s| s.success()) {
        harness("cannot compile envsim.c");
    }
    so
}

fn have_setarch() -> bool {
    Command::new("setarch").args(["-R", "true"]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok_and(|s| s.success())
}

pub struct Env<'a> {
    c: &'a Ctl,
    so: std::path::PathBuf,
    pub fixed: bool,
    limit: u64,
    /// The last one removes the library.
    owner: bool,
}
impl Drop for Env<'_> {
    fn drop(&mut self) {
        if self.owner {
            let _ = std::fs::remove_file(&self.so);
        }
    }
}

impl<'a> Env<'a> {
    /// The same, with another limit to the time of a process.
    pub fn with_limit(&self, limit: u64) -> Env<'a> {
        Env { c: self.c, so: self.so.clone(), fixed: self.fixed, limit, owner: false }
    }
    pub fn new(c: &'a Ctl, limit: u64) -> Env<'a> {
        Env { c, so: preload(c), fixed: have_setarch(), limit, owner: true }
    }
    pub fn expand(&self, dir: &Path, texts: &[String], w: &World) -> Out {
        self.expand_and_listen(dir, texts, w).0
    }
    /// Also what the macro itself prints.
    pub fn expand_and_listen(&self, dir: &Path, texts: &[String], w: &World) -> (Out, String) {
        let _ = std::fs::remove_dir_all(dir);
        if std::fs::create_dir_all(dir).is_err() {
            harness("scratch directory");
        }
        let mut main = String::new();
        for (p, t) in w.order.iter().enumerate() {
            main.push_str(&format!("pub const MARK_{p:03}: u8 = 0;\nmod m{p:03};\n"));
            let src = format!("pomsim::pomelo::pomelo! {{\n{}}}\n", texts[*t]);
            let _ = std::fs::write(dir.join(format!("m{p:03}.rs")), src);
        }
        main.push_str("pub const MARK_END: u8 = 0;\n");
        let _ = std::fs::write(dir.join("main.rs"), main);
        let out = std::fs::File::create(dir.join("out")).unwrap_or_else(|e| harness(&e.to_string()));
        let err = std::fs::File::create(dir.join("err")).unwrap_or_else(|e| harness(&e.to_string()));
        let t = self.c.home.join("target/release");
        let mut k = Command::new("sh");
        k.arg("-c").arg(format!("ulimit -v 6000000; ulimit -c 0; exec {} rustc \"$@\"", if self.fixed { "setarch -R" } else { "" })).arg("rustc");
        k.args(["--edition", "2021", "--crate-type=lib", "--error-format=json", "-Zunpretty=expanded", "--cap-lints", "allow"]);
        k.arg("--extern").arg(format!("pomsim={}", t.join("libpomsim.rlib").display()));
        k.arg("-L").arg(format!("dependency={}", t.join("deps").display())).arg("main.rs");
        k.env("RUSTC_BOOTSTRAP", "1").env("LD_PRELOAD", &self.so);
        k.env("POMSIM_HASH_SEED", w.hash.to_string()).env("POMSIM_HEAP", w.heap.to_string()).env("POMSIM_CLOCK", w.clock.to_string());
        k.current_dir(dir).stdin(Stdio::null()).stdout(out).stderr(err);
        let mut ch = k.spawn().unwrap_or_else(|e| harness(&format!("rustc: {e}")));
        let end = wait(&mut ch, Duration::from_secs(self.limit));
        let text = std::fs::read_to_string(dir.join("out")).unwrap_or_default();
        let errs = std::fs::read_to_string(dir.join("err")).unwrap_or_default();
        let said = text.lines().take_while(|l| !l.starts_with("#![")).fold(String::new(), |a, l| a + l + "\n");
        match end {
            End::Timeout => return (Out::Hang, said),
            End::Signal(n) => return (Out::Died(format!("signal {n}")), said),
            End::Exit(n) if n > 1 => return (Out::Died(format!("exit {n}: {}", errs.chars().take(500).collect::<String>())), said),
            _ => (),
        }
        let mut res: Vec<Seen> = vec![Default::default(); w.order.len()];
        let mut cur: Option<usize> = None;
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("pub const MARK_") {
                cur = x.get(..3).and_then(|n| n.parse().ok()).filter(|n| *n < res.len());
                continue;
            }
            if let Some(p) = cur {
                let l = if l.starts_with(&format!("mod m{p:03}")) { &l[8..] } else { l };
                res[p].0.push_str(l);
                res[p].0.push('\n');
            }
        }
        for d in diags(&errs) {
            // what has an error number is rustc's own complaint about names it cannot resolve
            if d.msg.starts_with("aborting due to") || !d.code.is_empty() {
                continue;
            }
            for f in &d.files {
                if let Some(p) = f.strip_prefix('m').and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok()).filter(|p| *p < res.len()) {
                    let at: Vec<_> = d.at.iter().filter(|a| a.0 == *f).map(|a| (a.1, a.2, a.3, a.4)).collect();
                    res[p].1.push_str(&format!("{} {} {at:?} {:?}\n", d.level, d.msg, d.rest));
                }
            }
        }
        (Out::All(res), said)
    }
}

// ---------------------------------------------------------------------------------------
// Grammars that are not quite right

/// The statements of a grammar text.
pub fn statements(t: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut cur = String::new();
    let mut depth = 0;
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let ch = cs[i];
        cur.push(ch);
        match ch {
            '{' | '(' | '[' => depth += 1,
            '}' | ')' | ']' => depth -= 1,
            _ => (),
        }
        if depth == 0 && (ch == ';' || ch == '}') {
            let mut j = i + 1;
            while j < cs.len() && cs[j].is_whitespace() {
                j += 1;
            }
            if ch == '}' && j < cs.len() && cs[j] == ';' {
                cur.push(';');
                i = j;
            }
            v.push(cur.trim().to_string());
            cur.clear();
        }
        i += 1;
    }
    if !cur.trim().is_empty() {
        v.push(cur.trim().to_string());
    }
    v
}

pub fn spoil(t: &str, r: &mut Rng) -> String {
    loop {
        let s = spoil_once(t, r);
        // rustc must be able to make out the macro call
        let mut open = Vec::new();
        let fine = s.chars().all(|c| match c {
            '(' | '{' | '[' => {
                open.push(c);
                true
            }
            ')' => open.pop() == Some('('),
            '}' => open.pop() == Some('{'),
            ']' => open.pop() == Some('['),
            _ => true,
        });
        if fine && open.is_empty() {
            return s;
        }
    }
}
fn spoil_once(t: &str, r: &mut Rng) -> String {
    let mut v = statements(t);
    let words = |v: &[String]| -> Vec<String> {
        let mut w: BTreeSet<String> = BTreeSet::new();
        for s in v {
            let head = s.split('{').next().unwrap_or("");
            for x in head.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                if !x.is_empty() && !x.chars().next().unwrap().is_numeric() {
                    w.insert(x.to_string());
                }
            }
        }
        w.into_iter().collect()
    };
    let n = r.range(1, 3);
    for _ in 0..n {
        if v.is_empty() {
            break;
        }
        let w = words(&v);
        let terms: Vec<String> = w.iter().filter(|x| x.chars().next().unwrap().is_uppercase() && !matches!(x.as_str(), "Pay" | "Ctx" | "SErr" | "SimStack" | "Option" | "Val" | "G")).cloned().collect();
        let nts: Vec<String> = v.iter().filter_map(|s| s.split_once("::=")).map(|x| x.0.trim().to_string()).collect();
        let term = |r: &mut Rng| if terms.is_empty() { "Zz".to_string() } else { r.pick(&terms).clone() };
        let nt = |r: &mut Rng| if nts.is_empty() { "zz".to_string() } else { r.pick(&nts).clone() };
        let i = r.below(v.len());
        match r.below(24) {
            0 => {
                v.remove(i);
            }
            1 => {
                let s = v[i].clone();
                let j = r.below(v.len() + 1);
                v.insert(j, s);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            3 | 4 => {
                // another symbol in place of one
                let head = v[i].find('{').unwrap_or(v[i].len());
                let (h, rest) = v[i].split_at(head);
                let mut p: Vec<String> = h.split(' ').map(|x| x.to_string()).collect();
                let k = r.below(p.len());
                p[k] = if r.pct(50) { term(r) } else { nt(r) };
                v[i] = format!("{}{rest}", p.join(" "));
            }
            5 => {
                let head = v[i].find('{').unwrap_or(v[i].len());
                let (h, rest) = v[i].split_at(head);
                let mut p: Vec<String> = h.split(' ').map(|x| x.to_string()).collect();
                p.remove(r.below(p.len()));
                v[i] = format!("{}{rest}", p.join(" "));
            }
            6 => {
                let (a, b) = (nt(r), nt(r));
                v.push(format!("{a} ::= {b};"));
            }
            7 => {
                let (a, b, c) = (nt(r), nt(r), nt(r));
                v.push(format!("{a} ::= {b} {c};"));
            }
            8 => {
                let (a, b) = (nt(r), term(r));
                v.push(format!("{a} ::= {b};"));
            }
            9 => {
                let a = nt(r);
                v.push(format!("{a} ::= ;"));
            }
            10 => {
                let k = r.range(1, 4);
                let ts: Vec<String> = (0..k).map(|_| term(r)).collect();
                v.push(format!("%fallback {} {};", term(r), ts.join(" ")));
            }
            11 => {
                // a ring of fallbacks
                let mut ts = terms.clone();
                r.shuffle(&mut ts);
                if r.pct(70) {
                    v.retain(|x| !x.starts_with("%fallback"));
                }
                let k = r.range(1, 5).min(ts.len());
                let mut spare = ts.split_off(k);
                for j in 0..k {
                    // the link may stand among others
                    let n = r.below(3).min(spare.len());
                    let mut l = spare.split_off(spare.len() - n);
                    l.insert(r.below(l.len() + 1), ts[(j + 1) % k].clone());
                    let at = r.below(v.len() + 1);
                    v.insert(at, format!("%fallback {} {};", ts[j], l.join(" ")));
                }
            }
            12 => v.push(format!("%wildcard {};", if r.pct(80) { term(r) } else { nt(r) })),
            13 => v.push(format!("%token_class {} {} {};", term(r), term(r), term(r))),
            14 => v.push(format!("%token_class Fresh{} {} {};", r.below(3), term(r), term(r))),
            15 => v.push(format!("%{} {} {};", r.pick(&["left", "right", "nonassoc"]), term(r), term(r))),
            16 => v.push(format!("%start_symbol {};", if r.pct(70) { nt(r) } else { "nowhere".into() })),
            17 => v.push(format!("%type {} Pay<1>;", if r.pct(50) { nt(r) } else { term(r) })),
            18 => v.push(r.pick(&["%default_type Pay<2>;", "%error SErr;", "%extra_argument Ctx;", "%extra_token Pay<99>;", "%stack_size 0;", "%stack_size 18446744073709551616;", "%module parser;", "%type error Pay<1>;", "%frobnicate;", "%token pub enum Token { Unit };", "%parser pub struct Parser {};"]).to_string()),
            19 => {
                let (a, b) = (nt(r), term(r));
                v.push(format!("{a} ::= {a} {b} {a};"));
            }
            20 => {
                let (a, b) = (nt(r), nt(r));
                v.push(format!("{a} ::= {b}? {b}? {};", term(r)));
            }
            21 => {
                let a = nt(r);
                v.push(format!("{a} ::= {}|{}? {}|{};", term(r), term(r), term(r), term(r)));
            }
            22 => {
                let a = nt(r);
                v.push(format!("{a} ::= error {};", term(r)));
            }
            _ => {
                let a = nt(r);
                v.push(format!("{a} ::= {a};"));
            }
        }
    }
    v.iter().map(|s| format!("    {s}\n")).collect()
}

// ---------------------------------------------------------------------------------------

struct Found {
    what: String,
    texts: Vec<String>,
    subject: usize,
    a: World,
    b: World,
    kind: &'static str,
}

fn first_diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("`{}` against `{}`", x.trim().chars().take(160).collect::<String>(), y.trim().chars().take(160).collect::<String>());
        }
    }
    format!("{} lines against {}", a.lines().count(), b.lines().count())
}

/// Does this grammar on its own come out differently in some of these worlds?
fn alone_differs(e: &Env, dir: &Path, text: &str, worlds: &[World]) -> Option<(World, World, String)> {
    let outs = in_parallel(e.c.width, (0..worlds.len()).collect(), |i| {
        let w = World { order: vec![0], ..worlds[i].clone() };
        match e.expand(&dir.join(format!("w{i}")), &[text.to_string()], &w) {
            Out::All(v) => (w, Some(v[0].clone())),
            _ => (w, None),
        }
    });
    let (w0, s0) = outs.iter().find(|o| o.1.is_some())?;
    let s0 = s0.as_ref()?;
    for (w, s) in &outs {
        if let Some(s) = s {
            if s != s0 {
                let d = if s.0 != s0.0 { first_diff(&s0.0, &s.0) } else { first_diff(&s0.1, &s.1) };
                return Some((w0.clone(), w.clone(), d));
            }
        }
    }
    None
}

fn shrink(text: &str, limit: Duration, mut fails: impl FnMut(&str) -> bool) -> String {
    let t0 = Instant::now();
    let mut v = statements(text);
    let join = |v: &[String]| v.iter().map(|s| format!("    {s}\n")).collect::<String>();
    let mut size = v.len().div_ceil(2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < v.len() {
            if t0.elapsed() > limit {
                return join(&v);
            }
            let mut w = v.clone();
            w.drain(i..(i + size).min(w.len()));
            if !w.is_empty() && fails(&join(&w)) {
                v = w;
                any = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !any {
            return join(&v);
        }
        size = (size / 2).max(1);
    }
}

pub fn run(c: &Ctl) -> i32 {
    let work = Scratch::new(c, "expand");
    let e = Env::new(c, 60);
    let (batches, per, worlds) = if c.thorough { (900, 14, 12) } else { (40, 12, 7) };
    let cap = if c.thorough { std::env::var("POMSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(700) } else { 200 };
    let gxs = make_grams("C11", c.seed, 0, batches * per / 2);
    let next = std::sync::atomic::AtomicUsize::new(0);
    struct Sum {
        procs: u64,
        expansions: u64,
        accepted: u64,
        rejected: u64,
        texts: BTreeSet<u64>,
        good: BTreeSet<u64>,
        bad: BTreeSet<u64>,
        messages: BTreeMap<String, u64>,
        orders: BTreeSet<u64>,
        died: u64,
        notes: Vec<String>,
        samples: Vec<J>,
        found: Option<(usize, Found)>,
        batches: u64,
    }
    let sum = std::sync::Mutex::new(Sum {
        procs: 0,
        expansions: 0,
        accepted: 0,
        rejected: 0,
        texts: BTreeSet::new(),
        good: BTreeSet::new(),
        bad: BTreeSet::new(),
        messages: BTreeMap::new(),
        orders: BTreeSet::new(),
        died: 0,
        notes: vec![],
        samples: vec![],
        found: None,
        batches: 0,
    });
    std::thread::scope(|s| {
        for _ in 0..c.width {
            s.spawn(|| {
                loop {
                    let b = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if b >= batches || c.t0.elapsed().as_secs() > cap || sum.lock().unwrap().found.is_some() {
                        break;
                    }
                    let mut r = Rng::new(mix(mix(c.seed, hash_str("C11 worlds")), b as u64));
                    let dir = work.0.join(format!("b{b}"));
                    let mut texts: Vec<String> = Vec::new();
                    for k in 0..per {
                        let g = &gxs[(b * per / 2 + k / 2) % gxs.len()].g;
                        let t = grammar_text_as(g, "parser", false);
                        texts.push(if k % 2 == 0 { t } else { spoil(&t, &mut r) });
                    }
                    let mut first: HashMap<usize, (Seen, World)> = HashMap::new();
                    for wi in 0..worlds {
                        let mut order: Vec<usize> = (0..texts.len()).filter(|_| wi == 0 || r.pct(80)).collect();
                        if wi > 0 {
                            r.shuffle(&mut order);
                            for _ in 0..r.below(3) {
                                // the same text once more
                                let t = r.below(texts.len());
                                let at = r.below(order.len() + 1);
                                order.insert(at, t);
                            }
                        }
                        let w = World { hash: r.next(), heap: if r.pct(70) { r.next() } else { 0 }, clock: if r.pct(50) { r.below(4_000_000_000u64 as usize) as u64 } else { 0 }, order };
                        let out = e.expand(&dir, &texts, &w);
                        let mut g = sum.lock().unwrap();
                        g.procs += 1;
                        match out {
                            Out::All(v) => {
                                g.orders.insert(hash_str(&format!("{b}{:?}", w.order)));
                                for (p, s) in v.into_iter().enumerate() {
                                    let t = w.order[p];
                                    g.expansions += 1;
                                    let h = hash_str(&texts[t]);
                                    g.texts.insert(h);
                                    if s.1.is_empty() {
                                        g.accepted += 1;
                                        g.good.insert(h);
                                    } else {
                                        g.rejected += 1;
                                        if g.bad.insert(h) {
                                            let m = s.1.lines().next().unwrap_or("").split('[').next().unwrap_or("").trim().to_string();
                                            let m: String = m.chars().take(60).collect();
                                            if m.contains("panicked") && g.notes.len() < 6 {
                                                let n = format!("{}\n{}", s.1, texts[t]);
                                                g.notes.push(n);
                                            }
                                            *g.messages.entry(m).or_default() += 1;
                                        }
                                    }
                                    if g.samples.len() < 3 && wi == 1 && p < 2 {
                                        let j = obj! {"text" => &texts[t], "outcome" => if s.1.is_empty() { "accepted".to_string() } else { s.1.clone() }, "world" => w.json()};
                                        g.samples.push(j);
                                    }
                                    match first.get(&t) {
                                        None => {
                                            first.insert(t, (s, w.clone()));
                                        }
                                        Some((f, fw)) if *f != s => {
                                            let d = if f.0 != s.0 { first_diff(&f.0, &s.0) } else { first_diff(&f.1, &s.1) };
                                            if g.found.as_ref().is_none_or(|x| b < x.0) {
                                                g.found = Some((b, Found { what: d, texts: texts.clone(), subject: t, a: fw.clone(), b: w.clone(), kind: "differs" }));
                                            }
                                        }
                                        _ => (),
                                    }
                                }
                            }
                            Out::Hang => {
                                if g.found.as_ref().is_none_or(|x| b < x.0) {
                                    g.found = Some((b, Found { what: "expansion does not end".into(), texts: texts.clone(), subject: 0, a: w.clone(), b: w.clone(), kind: "hang" }));
                                }
                                break;
                            }
                            Out::Died(m) => {
                                g.died += 1;
                                if g.notes.len() < 4 {
                                    g.notes.push(m);
                                }
                                if g.found.as_ref().is_none_or(|x| b < x.0) {
                                    drop(g);
                                    // neither code nor diagnostic, from one text alone
                                    let one = texts.iter().position(|t| matches!(e.expand(&dir, &[t.clone()], &World { order: vec![0], ..w.clone() }), Out::Died(_)));
                                    g = sum.lock().unwrap();
                                    if let (Some(t), true) = (one, g.found.as_ref().is_none_or(|x| b < x.0)) {
                                        g.found = Some((b, Found { what: "the compiler dies".into(), texts: texts.clone(), subject: t, a: w.clone(), b: w.clone(), kind: "dies" }));
                                    }
                                    break;
                                }
                            }
                        }
                    }
                    sum.lock().unwrap().batches += 1;
                    let _ = std::fs::remove_dir_all(&dir);
                }
            });
        }
    });
    let g = sum.into_inner().unwrap();
    let mut violations = Vec::new();
    if let Some((b, f)) = g.found {
        violations.push(settle(&e, &work.0, b, f));
    }
    let secs = c.t0.elapsed().as_secs_f64();
    let cov = obj! {
        "evaluations" => g.expansions, "distinct_nontrivial" => g.texts.len(),
        "rule" => "A case is one expansion of one grammar text inside a simulated rustc process: hash seeds, heap layout, wall clock, the grammars expanded before it and their order are drawn from VERIF_SEED; every text is expanded in several such worlds and all outcomes (generated code, or diagnostics with their places) are compared. Half of the texts are valid grammars, half are grammars with 1-3 random mutations. distinct_nontrivial counts distinct texts, each of which was expanded in at least one world.",
        "samples" => J::Arr(g.samples), "rustc_processes" => g.procs, "simulated_runs_per_hour" => (g.procs as f64 * 3600.0 / secs) as u64,
        "batches" => g.batches, "accepted_expansions" => g.accepted, "rejected_expansions" => g.rejected, "accepted_texts" => g.good.len(), "rejected_texts" => g.bad.len(),
        "diagnostics" => g.messages, "distinct_orders" => g.orders.len(), "processes_died" => g.died, "notes" => g.notes,
        "address_space_randomisation_off" => e.fixed, "time_limit_of_a_process_s" => e.limit,
        "faults_injected" => obj!{"hash seed" => g.procs, "order and company" => g.orders.len()},
        "real_components" => vec!["pomelo and pomelo-impl of the tree under test", "rustc"],
        "stubbed_components" => vec!["getrandom, wall clock, initial heap layout"],
        "seeds" => vec![c.seed],
    };
    drop(work);
    report::write(c, cov, &violations)
}

/// Reduces a finding to as little as shows it.
fn settle(e: &Env, dir: &Path, batch: usize, f: Found) -> Violation {
    let c = e.c;
    let dir = dir.join("settle");
    let _ = std::fs::create_dir_all(&dir);
    let mut f = f;
    if f.kind != "differs" {
        let e1 = e.with_limit(15);
        let hangs = |t: &str, d: &Path| match e1.expand(d, &[t.to_string()], &World { order: vec![0], ..f.a.clone() }) {
            Out::Hang => f.kind == "hang",
            Out::Died(_) => f.kind == "dies",
            _ => false,
        };
        let which = in_parallel(c.width, (0..f.texts.len()).collect(), |i| hangs(&f.texts[i], &dir.join(format!("h{i}"))));
        if let Some(i) = which.iter().position(|x| *x) {
            let t = shrink(&f.texts[i], Duration::from_secs(150), |t| hangs(t, &dir.join("h")));
            f.what = if f.kind == "hang" { "expansion of this grammar does not end" } else { "the compiler dies of this grammar" }.into();
            let w = World { order: vec![0], ..f.a.clone() };
            f = Found { texts: vec![t], subject: 0, a: w.clone(), b: w, ..f };
        }
    } else {
        let mut r = Rng::new(5);
        let mut worlds = vec![f.a.clone(), f.b.clone()];
        worlds.extend((0..6).map(|_| World { hash: r.next(), heap: r.next(), clock: 0, order: vec![] }));
        let text = f.texts[f.subject].clone();
        if alone_differs(e, &dir, &text, &worlds).is_some() {
            let t = shrink(&text, Duration::from_secs(100), |t| alone_differs(e, &dir, t, &worlds).is_some());
            let (t, x) = match alone_differs(e, &dir, &t, &worlds) {
                Some(x) => (t, Some(x)),
                None => (text.clone(), alone_differs(e, &dir, &text, &worlds)),
            };
            if let Some((a, b, d)) = x {
                f = Found { texts: vec![t], subject: 0, a, b, what: d, kind: "differs" };
            }
        }
    }
    let sig = format!("{}-{:016x}", f.kind, hash_str(&f.texts[f.subject]));
    let j = obj! {
        "version" => 1u64, "property" => "C11", "mode" => "expand", "seed" => c.seed, "batch" => batch, "kind" => f.kind,
        "texts" => f.texts.clone(), "subject" => f.subject, "a" => f.a.json(), "b" => f.b.json(), "expected" => &f.what,
    };
    Violation { prop: "C11".into(), replay: write_replay(c, &j, &sig), what: format!("{}: {}\n{}", f.kind, f.what, f.texts[f.subject]), sig }
}

pub fn replay(c: &Ctl, j: &J) -> (bool, String) {
    let work = Scratch::new(c, "expand");
    let e = Env::new(c, if j.get("kind").str() == "hang" { 15 } else { 60 });
    let texts: Vec<String> = j.get("texts").arr().iter().map(|x| x.str().to_string()).collect();
    let subject = j.get("subject").usize();
    let (a, b) = (World::from(j.get("a")), World::from(j.get("b")));
    let x = e.expand(&work.0.join("a"), &texts, &a);
    let y = e.expand(&work.0.join("b"), &texts, &b);
    match (x, y) {
        (Out::Hang, _) | (_, Out::Hang) => (j.get("kind").str() == "hang", "expansion does not end".into()),
        (Out::Died(_), _) | (_, Out::Died(_)) if j.get("kind").str() == "dies" => (true, "the compiler dies".into()),
        (Out::All(x), Out::All(y)) => {
            let mut seen: Vec<&Seen> = Vec::new();
            for (w, v) in [(&a, &x), (&b, &y)] {
                for (p, t) in w.order.iter().enumerate() {
                    if *t == subject {
                        seen.push(&v[p]);
                    }
                }
            }
            match seen.iter().find(|s| ***s != *seen[0]) {
                Some(s) => (true, if s.0 != seen[0].0 { first_diff(&seen[0].0, &s.0) } else { first_diff(&seen[0].1, &s.1) }),
                None => (false, "the same every time".into()),
            }
        }
        _ => (false, "rustc died".into()),
    }
}
