//! Judges what the simulation processes report: reproduces a candidate in a process of its
//! own, makes it small, and writes the replay file.

use crate::build::*;
use crate::report::Report;
use crate::{Ctl, harness};
use pomsim::ir::Gram;
use pomsim::json::J;
use pomsim::obj;
use pomsim::rng::hash_str;
use pomsim::rt::{Fault, What};
use pomsim::runner::alone;
use pomsim::trace::{Op, Run, Step};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub struct Violation {
    pub prop: String,
    pub replay: String,
    pub what: String,
    /// Identifies the failing input, for the list of known findings.
    pub sig: String,
}

/// Which properties say that a call must come back.
pub fn crash_props(end: &str) -> &'static [&'static str] {
    if end == "ok" { &[] } else { &["C12", "C01", "C05", "C06", "C07", "C09"] }
}

pub fn write_replay(c: &Ctl, j: &J, name: &str) -> String {
    let d = c.home.join("replays");
    let _ = std::fs::create_dir_all(&d);
    let f = d.join(format!("{}-{name}.json", c.prop));
    if let Err(e) = std::fs::write(&f, j.pretty()) {
        harness(&format!("{}: {e}", f.display()));
    }
    f.display().to_string()
}

// ---------------------------------------------------------------------------------------

/// Whose matter is it that pomelo refuses a grammar that is fine?
fn refusal_is_mine(prop: &str, r: &Refused) -> bool {
    let g = &r.gram;
    let used = |f: &dyn Fn(&pomsim::ir::Item) -> bool| g.rules.iter().any(|r| r.rhs.iter().any(f));
    match prop {
        "C01" => true,
        "C05" => g.err_sym.is_some() && r.how != How::Hang,
        "C09" => g.has_fb() && r.how != How::Hang,
        "C07" => (g.limit.is_some() || g.simstack) && r.how == How::Code,
        "C10" => r.how != How::Hang && (used(&|i| i.opt || i.alias > 0) || !g.classes.is_empty() || g.default_type.is_some() || g.extra_token),
        _ => false,
    }
}

pub fn of_build(c: &Ctl, corpus: &Corpus) -> Vec<Violation> {
    let mine: Vec<&Refused> = corpus.refused.iter().filter(|r| refusal_is_mine(&c.prop, r)).collect();
    let Some(r) = mine.iter().min_by_key(|r| r.gram.rules.len()) else { return vec![] };
    let what = format!("{} of the grammars, all of which are free of conflicts, get no parser: {:?}: {}", mine.len(), r.how, r.text.chars().take(300).collect::<String>());
    let j = obj! {
        "version" => 1u64, "property" => &c.prop, "mode" => "build", "seed" => c.seed,
        "grams" => J::Arr(vec![r.gram.to_json()]), "text" => pomsim::emit::grammar_text(&r.gram),
        "expected" => obj!{"kind" => format!("{:?}", r.how), "detail" => &r.text},
    };
    let sig = format!("build-{:016x}", hash_str(&pomsim::emit::grammar_text(&r.gram)));
    vec![Violation { prop: c.prop.clone(), replay: write_replay(c, &j, &sig), what, sig }]
}

// ---------------------------------------------------------------------------------------

/// What one run does in a process of its own.
struct Seen {
    end: String,
    j: J,
}
static TRY: AtomicUsize = AtomicUsize::new(0);

fn solo(c: &Ctl, sh: &Shard, run: &Run) -> Seen {
    let n = TRY.fetch_add(1, Ordering::Relaxed);
    let rf = sh.dir.join(format!("run{n}.json"));
    let of = sh.dir.join(format!("res{n}.json"));
    let _ = std::fs::write(&rf, run.to_json().to_string());
    let mut k = Command::new("sh");
    k.arg("-c").arg("ulimit -v 3500000; ulimit -c 0; exec \"$@\"").arg("sim").arg(sh.bin()).arg("replay").arg(sh.json()).arg(&rf).arg(&of);
    k.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    let mut ch = k.spawn().unwrap_or_else(|e| harness(&format!("sim: {e}")));
    let end = wait(&mut ch, Duration::from_secs(90));
    let j = std::fs::read_to_string(&of).ok().and_then(|s| J::parse(&s).ok()).unwrap_or(J::Null);
    let _ = std::fs::remove_file(&rf);
    let _ = std::fs::remove_file(&of);
    let _ = c;
    let end = match end {
        End::Exit(0) => "ok".to_string(),
        End::Exit(87) | End::Timeout => "hang".into(),
        End::Signal(n) => format!("crash signal {n}"),
        End::Exit(n) if n > 128 => format!("crash signal {}", n - 128),
        End::Exit(n) => harness(&format!("replay failed with code {n}")),
    };
    Seen { end, j }
}

#[derive(Clone)]
enum Judged {
    /// A violation of the property, with its class.
    Mine(String, J),
    /// Something is wrong, but it is another property's matter.
    Other(String),
    Fine,
}

fn judge(c: &Ctl, sh: &Shard, run: &Run) -> Judged {
    let s = solo(c, sh, run);
    if s.end != "ok" {
        let class = s.end.split(' ').next().unwrap_or("crash").to_string();
        if crash_props(&s.end).contains(&c.prop.as_str()) {
            let d = if class == "hang" { "a call does not come back".to_string() } else { format!("the process dies ({})", s.end) };
            return Judged::Mine(class.clone(), obj! {"kind" => class, "detail" => d});
        }
        return Judged::Other(class);
    }
    let failed = s.j.get("status").str() == "fail";
    let fail = s.j.get("fail").clone();
    let kind = fail.get("kind").str().to_string();
    if c.prop != "C03" {
        if !failed {
            return Judged::Fine;
        }
        let mine = fail.get("props").arr().iter().any(|p| p.str() == pomsim::runner::blamed_as(&c.prop));
        let with_log = obj! {"fail" => fail, "log" => s.j.get("log").clone()};
        return if mine { Judged::Mine(kind, with_log) } else { Judged::Other(kind) };
    }
    // isolation: each session against itself alone
    let done: Vec<Step> = s.j.get("done").arr().iter().map(Step::from_json).collect();
    let all: Vec<usize> = if failed { vec![fail.get("session").usize()] } else { (0..s.j.get("digests").arr().len()).collect() };
    for i in all {
        let want = s.j.get("digests").arr().get(i).map_or("", |d| d.str()).to_string();
        if want.is_empty() || (!failed && want == "0000000000000000") {
            continue;
        }
        let a = solo(c, sh, &alone(run, &done, i));
        let alone_fails = a.end != "ok" || a.j.get("status").str() == "fail";
        if failed {
            if alone_fails {
                return Judged::Other(kind);
            }
            return Judged::Mine("Isolation".into(), obj! {"fail" => fail, "log" => s.j.get("log").clone(),
                "detail" => format!("session {i} goes wrong among the others and not alone")});
        }
        let got = a.j.get("digests").arr().first().map_or("", |d| d.str()).to_string();
        if alone_fails || got != want {
            return Judged::Mine(
                "Isolation".into(),
                obj! {"detail" => format!("session {i}: what it showed among the others ({want}) is not what it shows alone ({got})"),
                "alone" => a.j.get("log").clone(), "log" => s.j.get("log").clone(), "fail" => a.j.get("fail").clone()},
            );
        }
    }
    if failed { Judged::Other(kind) } else { Judged::Fine }
}

/// Is it preempted between instructions?
fn fine(run: &Run) -> bool {
    run.steps.iter().any(|s| s.faults.iter().any(|f| f.what == What::Preempt))
}

/// The program that a replay of the run builds.
fn only(c: &Ctl, sh: &Shard, run: &Run, name: &str) -> (Scratch, Corpus) {
    let work = Scratch::new(c, name);
    let gxs = run.grams.iter().filter_map(|n| sh.grams.iter().find(|g| g.name == *n)).filter_map(|g| crate::prepare(g, 5000).ok()).collect();
    let corpus = Corpus::build_with(c, &work.0, gxs, 1, 0);
    (work, corpus)
}

/// The same places of preemption in a program that is compiled a little differently.
fn settle(c: &Ctl, sh: &Shard, run: &Run, class: &str) -> Option<Run> {
    if sh.n == 0 {
        return None;
    }
    let t0 = Instant::now();
    for d in 0..400i64 {
        if t0.elapsed() > Duration::from_secs(60) {
            break;
        }
        let d = if d % 2 == 0 { d / 2 } else { -(d / 2) - 1 };
        let mut r = run.clone();
        for f in r.steps.iter_mut().flat_map(|s| &mut s.faults).filter(|f| f.what == What::Preempt) {
            f.nth = (f.nth as i64 + d).max(1) as usize;
        }
        if matches!(judge(c, sh, &r), Judged::Mine(k, _) if k == class) {
            return Some(r);
        }
    }
    None
}

/// Smaller runs with the same class of violation.
fn minimise(c: &Ctl, sh: &Shard, run: &Run, class: &str) -> (Run, usize) {
    let t0 = Instant::now();
    let mut tries = 0;
    let limit = if class == "hang" { 12 } else { 260 };
    let mut best = run.clone();
    let mut ok = |r: &Run| -> bool {
        if tries >= limit || t0.elapsed() > Duration::from_secs(100) {
            return false;
        }
        tries += 1;
        matches!(judge(c, sh, r), Judged::Mine(k, _) if k == class)
    };
    if best.threads > 0 {
        let mut r = best.clone();
        r.threads = 0;
        r.steps.iter_mut().for_each(|s| s.thread = 0);
        r.steps.retain(|s| s.op != Op::Resume);
        if ok(&r) {
            best = r;
        }
    }
    // whole sessions
    let mut sids: Vec<usize> = best.steps.iter().map(|s| s.sess).collect();
    sids.sort();
    sids.dedup();
    if sids.len() > 1 {
        for s in sids {
            let mut r = best.clone();
            r.steps.retain(|x| x.sess != s);
            for x in &mut r.steps {
                for f in &mut x.faults {
                    if let What::Nest(v) = &mut f.what {
                        v.retain(|y| y.sess != s);
                    }
                }
            }
            if ok(&r) {
                best = r;
            }
        }
    }
    // what comes after the failure first, by halves
    let mut keep = best.steps.len();
    while keep > 1 {
        let mut r = best.clone();
        r.steps.truncate(keep / 2);
        if !ok(&r) {
            break;
        }
        best = r;
        keep = best.steps.len();
    }
    let mut size = best.steps.len().div_ceil(2);
    while size >= 1 {
        let mut i = 0;
        let mut any = false;
        while i < best.steps.len() {
            let mut r = best.clone();
            let e = (i + size).min(r.steps.len());
            r.steps.drain(i..e);
            if !r.steps.is_empty() && ok(&r) {
                best = r;
                any = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !any {
            break;
        }
        size = if size == 1 { 1 } else { size / 2 };
    }
    // faults, one at a time, also those inside nested steps
    loop {
        let mut any = false;
        for i in 0..best.steps.len() {
            for f in 0..best.steps[i].faults.len() {
                let mut r = best.clone();
                r.steps[i].faults.remove(f);
                if ok(&r) {
                    best = r;
                    any = true;
                    break;
                }
                if let What::Nest(v) = &best.steps[i].faults[f].what {
                    let mut done = false;
                    for k in 0..v.len() {
                        let mut w = v.clone();
                        w.remove(k);
                        let mut r = best.clone();
                        r.steps[i].faults[f] = Fault { what: What::Nest(w), ..best.steps[i].faults[f].clone() };
                        if ok(&r) {
                            best = r;
                            any = true;
                            done = true;
                            break;
                        }
                    }
                    if done {
                        break;
                    }
                }
            }
        }
        if !any {
            break;
        }
    }
    // grammars that no step refers to
    let mut used: Vec<usize> = Vec::new();
    fn refs(s: &[Step], used: &mut Vec<usize>) {
        for x in s {
            if let Op::New(g) = x.op {
                used.push(g);
            }
            for f in &x.faults {
                if let What::Nest(v) = &f.what {
                    refs(v, used);
                }
            }
        }
    }
    refs(&best.steps, &mut used);
    used.sort();
    used.dedup();
    if used.len() < best.grams.len() {
        let mut r = best.clone();
        r.grams = used.iter().filter_map(|g| best.grams.get(*g).cloned()).collect();
        fn renum(s: &mut [Step], used: &[usize]) {
            for x in s {
                if let Op::New(g) = &mut x.op {
                    *g = used.iter().position(|u| u == g).unwrap_or(0);
                }
                for f in &mut x.faults {
                    if let What::Nest(v) = &mut f.what {
                        renum(v, used);
                    }
                }
            }
        }
        renum(&mut r.steps, &used);
        if ok(&r) {
            best = r;
        }
    }
    (best, tries)
}

fn run_file(c: &Ctl, sh: &Shard, run: &Run, class: &str, seen: &J, seed: u64, tries: usize) -> (J, String) {
    let grams: Vec<&Gram> = run.grams.iter().filter_map(|n| sh.grams.iter().find(|g| g.name == *n)).collect();
    let fail = if seen.get("fail").opt().is_some() { seen.get("fail") } else { seen };
    let j = obj! {
        "version" => 1u64, "property" => &c.prop, "mode" => "run", "seed" => c.seed, "shard_seed" => seed,
        "run_number" => run.seed,
        "grams" => J::Arr(grams.iter().map(|g| g.to_json()).collect()),
        "texts" => J::Arr(grams.iter().map(|g| J::from(pomsim::emit::grammar_text(g))).collect()),
        "run" => run.to_json(), "class" => class, "expected" => fail.clone(),
        "isolation" => seen.get("detail").clone(),
        "log" => seen.get("log").clone(), "minimised_in_tries" => tries,
    };
    let texts: String = grams.iter().map(|g| pomsim::emit::grammar_text(g)).collect();
    (j, format!("{:016x}", hash_str(&format!("{texts}{}", Run { seed: 0, ..run.clone() }.to_json().to_string()))))
}

pub fn of_runs(c: &Ctl, corpus: &Corpus, outs: &[ShardOut], round: u64, rep: &mut Report) -> Vec<Violation> {
    let _ = round;
    // candidates, earliest run first
    let mut cands: Vec<(u64, usize, &ShardOut, Run, bool)> = Vec::new();
    for o in outs {
        if o.end != "ok" {
            if crash_props(&o.end).contains(&c.prop.as_str()) && o.progress.get("run").opt().is_some() {
                cands.push((o.progress.get("k").u64(), o.shard, o, Run::from_json(o.progress.get("run")), true));
            }
        } else if o.result.get("status").str() == "candidate" {
            let k = o.result.get("candidate");
            cands.push((k.get("k").u64(), o.shard, o, Run::from_json(k.get("run")), false));
        }
    }
    cands.sort_by_key(|x| (x.0, x.1));
    rep.candidates += cands.len() as u64;
    let mut tried = 0;
    for (k, s, o, run, crashed) in &cands {
        if tried >= 5 {
            break;
        }
        tried += 1;
        let sh = &corpus.shards[*s];
        let mut j = judge(c, sh, run);
        // what is left open by chance in the code under test may need another go
        for _ in 0..3 {
            if matches!(j, Judged::Fine) {
                j = judge(c, sh, run);
            }
        }
        match j {
            Judged::Mine(class, _) => {
                // between which instructions a call is preempted is a matter of this very program, so
                // such a run is settled on the one that its replay builds
                let exact = fine(run).then(|| only(c, sh, run, "exact"));
                let found = exact.as_ref().and_then(|x| settle(c, &x.1.shards[0], run, &class));
                let (sh, run) = match (&exact, &found) {
                    (Some(x), Some(r)) => (&x.1.shards[0], r),
                    _ => (sh, run),
                };
                let (small, tries) = minimise(c, sh, run, &class);
                // fewer grammars make another program
                let other = (found.is_some() && small.grams.len() < run.grams.len()).then(|| only(c, sh, &small, "exact2"));
                let found = other.as_ref().and_then(|x| settle(c, &x.1.shards[0], &small, &class));
                let (sh, small) = match (&other, &found) {
                    (Some(x), Some(r)) => (&x.1.shards[0], r.clone()),
                    (Some(_), None) => (sh, run.clone()),
                    _ => (sh, small),
                };
                let (run, seen) = match judge(c, sh, &small) {
                    Judged::Mine(k, seen) if k == class => (small, seen),
                    _ => match judge(c, sh, run) {
                        Judged::Mine(_, seen) => (run.clone(), seen),
                        _ => (run.clone(), J::Null),
                    },
                };
                let (j, sig) = run_file(c, sh, &run, &class, &seen, o.seed, tries);
                let d = if seen.get("detail").opt().is_some() { seen.get("detail") } else { seen.get("fail").get("detail") };
                let what = format!("{class} ({} steps): {}", run.steps.len(), d.str().chars().take(600).collect::<String>());
                return vec![Violation { prop: c.prop.clone(), replay: write_replay(c, &j, &sig), what, sig }];
            }
            Judged::Other(k) => {
                rep.other(&format!("candidate of class {k} is another property's matter"));
            }
            Judged::Fine => {
                // only after what went before it in the same process
                let j = obj! {
                    "version" => 1u64, "property" => &c.prop, "mode" => "batch", "seed" => c.seed, "shard_seed" => o.seed,
                    "shard" => *s, "runs" => *k + 1, "crashed" => *crashed,
                    "grams" => J::Arr(sh.grams.iter().filter(|g| !corpus.refused.iter().any(|r| r.gram.name == g.name)).map(|g| g.to_json()).collect()),
                    "run" => run.to_json(), "expected" => o.result.get("candidate").get("fail").clone(),
                };
                let sig = format!("batch-{:016x}", hash_str(&j.to_string()));
                let (again, detail) = replay_batch_on(c, sh, *s, &j);
                let d = o.result.get("candidate").get("fail").get("detail").str().to_string();
                let what = format!("after {k} other runs in the same process{}: {d}; {detail}", if again { "" } else { ", and not every time" });
                return vec![Violation { prop: c.prop.clone(), replay: write_replay(c, &j, &sig), what, sig }];
            }
        }
    }
    determinism(c, corpus, rep)
}

/// The same shard in two processes at once: every session must show the same.
fn determinism(c: &Ctl, corpus: &Corpus, rep: &mut Report) -> Vec<Violation> {
    let Some(s) = (0..corpus.shards.len()).find(|s| corpus.shards[*s].n > 0) else { return vec![] };
    let sh = &corpus.shards[s];
    let n = if c.thorough { 1500 } else { 400 };
    let outs = in_parallel(c.width, vec!["a", "b", "c"], |t| run_shard(c, sh, s, c.seed, n, 300, t));
    if outs.iter().any(|o| o.end != "ok") {
        return vec![];
    }
    let d: Vec<String> = outs.iter().map(|o| o.result.get("digest").str().to_string()).collect();
    rep.deterministic = Some((n * 3, d.iter().all(|x| *x == d[0])));
    if d.iter().any(|x| *x != d[0]) && matches!(c.prop.as_str(), "C03" | "C08") {
        let j = obj! {
            "version" => 1u64, "property" => &c.prop, "mode" => "batch", "seed" => c.seed, "shard_seed" => c.seed,
            "shard" => s, "runs" => n, "compare" => true,
            "grams" => J::Arr(sh.grams.iter().filter(|g| !corpus.refused.iter().any(|r| r.gram.name == g.name)).map(|g| g.to_json()).collect()),
        };
        let what = "the same runs show something else in another process".to_string();
        return vec![Violation { prop: c.prop.clone(), replay: write_replay(c, &j, "nondeterminism"), what, sig: "nondeterminism".into() }];
    }
    vec![]
}

// ---------------------------------------------------------------------------------------

pub fn replay_run(c: &Ctl, corpus: &Corpus, j: &J) -> (bool, String) {
    let sh = &corpus.shards[0];
    if sh.n == 0 {
        return (false, format!("pomelo refuses the grammar now: {}", corpus.refused.first().map_or("", |r| &r.text)));
    }
    match judge(c, sh, &Run::from_json(j.get("run"))) {
        Judged::Mine(k, s) => (k == j.get("class").str(), s.pretty()),
        Judged::Other(k) => (false, format!("something else goes wrong: {k}")),
        Judged::Fine => (false, "the run is fine".into()),
    }
}

fn replay_batch_on(c: &Ctl, sh: &Shard, shard: usize, j: &J) -> (bool, String) {
    let n = j.get("runs").u64();
    let seed = j.get("shard_seed").u64();
    if j.get("compare").bool() {
        let v: Vec<String> = (0..6).map(|i| run_shard(c, sh, shard, seed, n, 600, &format!("r{i}")).result.get("digest").str().to_string()).collect();
        return (v.iter().any(|x| *x != v[0]), format!("digests of the same runs in six processes: {v:?}"));
    }
    let o = run_shard(c, sh, shard, seed, n, 600, "again");
    if o.end != "ok" {
        return (j.get("crashed").bool(), format!("process ended: {}", o.end));
    }
    let k = o.result.get("candidate");
    (k.get("run") == j.get("run"), k.get("fail").pretty())
}

pub fn replay_batch(c: &Ctl, corpus: &Corpus, j: &J) -> (bool, String) {
    replay_batch_on(c, &corpus.shards[0], j.get("shard").usize(), j)
}
