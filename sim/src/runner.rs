//! Main function of a compiled corpus: makes and executes the runs of one shard, or replays.

use crate::exec::*;
use crate::gen_::Walker;
use crate::ir::Gram;
use crate::json::J;
use crate::model::{Cover, prepare};
use crate::obj;
use crate::rng::{Rng, hash_str, mix};
use crate::rt::{Fault, Sess, What};
use crate::trace::*;
use crate::work::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::sync::Mutex;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

static PROGRESS: Mutex<Option<std::fs::File>> = Mutex::new(None);

fn progress(run: &Run, k: u64) {
    let mut g = PROGRESS.lock().unwrap();
    if let Some(f) = &mut *g {
        let s = obj! {"k" => k, "run" => run.to_json()}.to_string();
        let _ = f.seek(SeekFrom::Start(0));
        let _ = f.write_all(s.as_bytes());
        let _ = f.set_len(s.len() as u64);
    }
}

fn load(file: &str, mks: &[(usize, Mk)], only: Option<&[String]>) -> Vec<String> {
    let j = crate::json::J::parse(&std::fs::read_to_string(file).expect("corpus")).expect("corpus json");
    // automata to go by, if not those of the reference
    let tabs = std::path::Path::new(file).with_file_name("tabs.json");
    let tabs = std::fs::read_to_string(tabs).ok().and_then(|s| J::parse(&s).ok()).unwrap_or(J::Null);
    let mut names = Vec::new();
    let mut v = Vec::new();
    for (i, gj) in j.arr().iter().enumerate() {
        let g = Gram::from_json(gj);
        let mk = mks.iter().find(|m| m.0 == i).map(|m| m.1);
        if mk.is_none() || only.is_some_and(|o| !o.contains(&g.name)) {
            continue;
        }
        names.push(g.name.clone());
        match prepare(&g, 5000) {
            Ok(mut gx) => {
                if let Some(t) = tabs.arr().get(i).filter(|t| t.obj().is_some()) {
                    gx.t = crate::lalr::Tab::from_json(t);
                }
                v.push(Entry { gx, mk })
            }
            Err(e) => panic!("corpus grammar {} is not usable: {e:?}", g.name),
        }
    }
    let _ = ENTRIES.set(v);
    names
}

pub fn main(mks: &[(usize, fn() -> Box<dyn Sess>)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let out = a.last().unwrap().clone();
    let mks: Vec<(usize, Mk)> = mks.to_vec();
    let hang = out.clone();
    let secs: u64 = if a[1] == "replay" { 10 } else { 20 };
    // the simulation has a small stack of its own: what grows with the input shows
    let h = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let j = match a[1].as_str() {
                "run" => batch(&a, &mks),
                "replay" => replay(&a, &mks),
                _ => panic!("usage"),
            };
            std::fs::write(&out, j.to_string()).expect("write result");
        })
        .expect("thread");
    let mut last = (BEAT.load(Ordering::Relaxed), Instant::now());
    while !h.is_finished() {
        std::thread::sleep(Duration::from_millis(5));
        let b = BEAT.load(Ordering::Relaxed);
        if b != last.0 {
            last = (b, Instant::now());
        } else if b > 0 && last.1.elapsed() > Duration::from_secs(secs) {
            let _ = std::fs::write(&hang, obj! {"status" => "hang"}.to_string());
            std::process::exit(87);
        }
    }
    if h.join().is_err() {
        std::process::exit(88);
    }
}

struct Batch {
    prop: String,
    k: u64,
    runs: u64,
    distinct: HashSet<u64>,
    nontrivial: HashSet<u64>,
    schedules: HashSet<u64>,
    digest: u64,
    made: Made,
    foreign: BTreeMap<String, (u64, J)>,
    candidate: Option<J>,
    samples: Vec<J>,
    singles: u64,
    sweeps: u64,
    marathons: u64,
    multis: u64,
    compared: u64,
}

fn metric(prop: &str, c: &Cover) -> u64 {
    match prop {
        "C01" => c.reduces,
        "C02" => c.live_checks,
        "C04" => c.after_fail_calls + c.hook_fail,
        "C05" | "C06" => c.errors,
        "C07" => c.overflows,
        "C08" => c.expected_checked,
        "C09" => c.via_fb + c.via_wild,
        "C10" => c.args_checked,
        "C13" => c.ctx_checks,
        _ => c.shifts,
    }
}
fn cov<R>(f: impl FnOnce(&mut Cover) -> R) -> R {
    let mut g = COVER.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Cover::default))
}

/// C16 is broken when a session does not do what the listed automaton says.
pub fn blamed_as(prop: &str) -> &str {
    if prop == "C16" { "C01" } else { prop }
}

/// The sessions of a run on their own, in the order in which their calls really happened.
pub fn alone(run: &Run, done: &[Step], sess: usize) -> Run {
    let steps = done
        .iter()
        .filter(|s| s.sess == sess)
        .map(|s| {
            let mut s = s.clone();
            s.sess = 0;
            s.thread = 0;
            s
        })
        .collect();
    Run { seed: run.seed, grams: run.grams.clone(), threads: 0, steps }
}

fn gmap(run: &Run) -> Vec<usize> {
    run.grams.iter().map(|n| entries().iter().position(|e| e.gx.g.name == *n).unwrap_or(usize::MAX)).collect()
}

impl Batch {
    /// Executes a run and keeps the books. True: go on.
    fn go(&mut self, run: &Run) -> Option<RunOut> {
        if self.candidate.is_some() {
            return None;
        }
        progress(run, self.k);
        BEAT.fetch_add(1, Ordering::Relaxed);
        let m0 = cov(|c| metric(&self.prop, c));
        let out = execute(run, &gmap(run), false);
        self.runs += 1;
        let d = out.digests.iter().fold(7, |a, b| mix(a, *b));
        self.digest = mix(self.digest, d);
        self.distinct.insert(d);
        if run.threads > 0 || run.grams.len() > 1 {
            self.schedules.insert(out.schedule);
        }
        if cov(|c| metric(&self.prop, c)) > m0 {
            self.nontrivial.insert(d);
        }
        if self.samples.len() < 3 && run.steps.len() < 60 && self.runs % 97 == 1 {
            self.samples.push(run.to_json());
        }
        if let Some(f) = &out.fail {
            let mine = f.bad.props.contains(blamed_as(&self.prop)) || self.prop == "C03";
            let j = obj! {"run" => run.to_json(), "fail" => fail_json(f), "k" => self.k};
            if mine {
                self.candidate = Some(j);
            } else {
                let key = format!("{:?} {:?}", f.bad.kind, f.bad.props);
                self.foreign.entry(key).or_insert((0, j)).0 += 1;
            }
        }
        Some(out)
    }

    /// The multi-session run against each of its sessions alone.
    fn compare(&mut self, run: &Run) {
        let Some(out) = self.go(run) else { return };
        if self.candidate.is_some() {
            return;
        }
        for (s, d) in out.digests.iter().enumerate() {
            if *d == 0 {
                continue;
            }
            let a = alone(run, &out.done, s);
            let o = execute(&a, &gmap(&a), false);
            self.compared += 1;
            if o.fail.is_some() || o.digests.first() != Some(d) {
                let detail = match &o.fail {
                    Some(f) => format!("session {s} alone: {}", f.bad.detail),
                    None => format!("session {s} behaves differently alone"),
                };
                self.candidate = Some(obj! {"run" => run.to_json(), "k" => self.k,
                    "fail" => obj!{"kind" => "Isolation", "detail" => detail, "props" => vec!["C03"], "session" => s}});
                return;
            }
        }
    }
}

fn batch(a: &[String], mks: &[(usize, Mk)]) -> J {
    // run corpus prop seed shard runs secs progress out
    let (corpus, prop) = (&a[2], a[3].clone());
    let seed: u64 = a[4].parse().unwrap();
    let shard: u64 = a[5].parse().unwrap();
    let quota: u64 = a[6].parse().unwrap();
    let secs: u64 = a[7].parse().unwrap();
    *PROGRESS.lock().unwrap() = std::fs::File::create(&a[8]).ok();
    load(corpus, mks, None);
    let es = entries();
    let mut st: Vec<GState> = es.iter().map(|e| GState::new(&e.gx)).collect();
    let t0 = Instant::now();
    let mut b = Batch {
        prop: prop.clone(),
        k: 0,
        runs: 0,
        distinct: HashSet::new(),
        nontrivial: HashSet::new(),
        schedules: HashSet::new(),
        digest: 1,
        made: Made::default(),
        foreign: BTreeMap::new(),
        candidate: None,
        samples: vec![],
        singles: 0,
        sweeps: 0,
        marathons: 0,
        multis: 0,
        compared: 0,
    };
    let sweep = match prop.as_str() {
        "C02" | "C04" => 8,
        "C13" | "C12" | "C05" => 25,
        _ => 60,
    };
    let (mara_every, mara_len) = match prop.as_str() {
        "C12" => (150, 30_000),
        "C07" => (200, 12_000),
        "C01" | "C02" | "C13" => (1000, 20_000),
        "C03" => (u64::MAX, 0),
        _ => (2000, 8_000),
    };
    let mut capped = false;
    if !es.is_empty() {
        for k in 0..quota {
            if b.candidate.is_some() {
                break;
            }
            if t0.elapsed().as_secs() >= secs {
                capped = true;
                break;
            }
            b.k = k;
            let mut r = Rng::new(mix(mix(seed, hash_str(&prop)), mix(shard, k)));
            let i = r.below(es.len());
            let gx = &es[i].gx;
            if prop == "C03" {
                let n = r.range(1, 4.min(es.len()));
                let mut ix: Vec<usize> = (0..es.len()).collect();
                r.shuffle(&mut ix);
                let gxs: Vec<(&crate::model::Gx, usize)> = ix[..n].iter().map(|i| (&es[*i].gx, *i)).collect();
                let mut run = multi(&prop, &gxs, &mut r, &mut st, &mut b.made);
                run.seed = k;
                b.multis += 1;
                b.compare(&run);
                continue;
            }
            if k % mara_every == mara_every - 1 {
                let mut run = marathon(gx, &mut r, &st[i], mara_len);
                run.seed = k;
                b.marathons += 1;
                b.go(&run);
                continue;
            }
            let mut run = single(&prop, gx, &mut r, &mut st[i], &mut b.made);
            run.seed = k;
            if k % sweep == 0 {
                // without faults of its own first, then with one fault at every place in turn
                for s in &mut run.steps {
                    s.faults.clear();
                }
                let Some(out) = b.go(&run) else { break };
                b.singles += 1;
                if out.fail.is_some() {
                    continue;
                }
                let mut places = Vec::new();
                for (s, (h, p)) in out.counts.iter().enumerate().take(run.steps.len()) {
                    for n in 0..(*h).min(6) {
                        places.push((s, Fault { nth: n, push: false, what: What::Err }));
                        places.push((s, Fault { nth: n, push: false, what: What::Panic }));
                    }
                    if gx.g.simstack {
                        for n in 0..(*p).min(4) {
                            places.push((s, Fault { nth: n, push: true, what: What::Panic }));
                        }
                    }
                }
                r.shuffle(&mut places);
                for (s, f) in places.into_iter().take(60) {
                    let run = faulted(&run, gx, s, f, &mut r);
                    b.sweeps += 1;
                    if b.go(&run).is_none() {
                        break;
                    }
                }
                continue;
            }
            b.singles += 1;
            b.go(&run);
        }
    }
    let _ = Walker::new();
    let c = std::mem::take(&mut *COVER.lock().unwrap_or_else(|e| e.into_inner())).unwrap_or_default();
    stats(|x| {
        let mut faults: BTreeMap<&'static str, u64> = x.faults.clone();
        for (k, n) in &b.made.faults {
            *faults.entry(k).or_default() += n;
        }
        obj! {
            "status" => if b.candidate.is_some() { "candidate" } else { "ok" },
            "candidate" => b.candidate.clone().unwrap_or(J::Null),
            "foreign" => b.foreign.iter().map(|(k, v)| obj!{"what" => k, "n" => v.0, "first" => v.1.clone()}).collect::<Vec<_>>(),
            "capped" => capped,
            "digest" => format!("{:016x}", b.digest),
            "runs" => b.runs, "singles" => b.singles, "sweeps" => b.sweeps, "marathons" => b.marathons, "multis" => b.multis,
            "compared_alone" => b.compared,
            "distinct" => b.distinct.len(), "nontrivial" => b.nontrivial.len(), "schedules" => b.schedules.len(),
            "states" => c.seen.len(),
            "sim_ms" => b.made.ms, "frames" => b.made.frames,
            "calls" => x.calls, "hooks" => x.hooks, "pushes" => x.pushes, "sessions" => x.sessions,
            "moves" => x.moves, "switches" => x.switches, "max_live" => x.max_live,
            "calls_preempted_between_instructions" => x.preempted, "preemptions_between_instructions" => x.preemptions,
            "calls_stepped" => x.stepped, "instructions_stepped" => x.instructions, "calls_compared_with_early_ones" => x.compared,
            "faults" => J::Obj(faults.iter().map(|(k, v)| (k.to_string(), J::from(*v))).collect()),
            "shifts" => c.shifts, "reduces" => c.reduces, "errors" => c.errors, "via_fallback" => c.via_fb,
            "via_wildcard" => c.via_wild, "syntax_error_calls" => c.syn_calls, "parse_fails" => c.pfails,
            "overflows" => c.overflows, "accepts" => c.accepts, "expected_lists_checked" => c.expected_checked,
            "arguments_checked" => c.args_checked, "optional_arguments" => c.opt_args, "max_depth" => c.max_depth,
            "shifts_in_recovery" => c.recovered_shift, "accepts_after_error" => c.post_error_accepts,
            "reports_suppressed" => c.rationed, "calls_after_failure" => c.after_fail_calls,
            "extra_checks" => c.ctx_checks, "live_checks" => c.live_checks, "user_code_failures" => c.hook_fail,
            "samples" => b.samples.clone(), "wall_ms" => t0.elapsed().as_millis() as u64,
            "rejected_early" => 0u64,
        }
    })
}

/// replay corpus run.json out: executes one run in this fresh process.
fn replay(a: &[String], mks: &[(usize, Mk)]) -> J {
    let j = crate::json::J::parse(&std::fs::read_to_string(&a[3]).expect("run")).expect("run json");
    let run = Run::from_json(&j);
    load(&a[2], mks, Some(&run.grams));
    let out = execute(&run, &gmap(&run), true);
    obj! {
        "status" => if out.fail.is_some() { "fail" } else { "ok" },
        "fail" => out.fail.as_ref().map_or(J::Null, fail_json),
        "digests" => out.digests.iter().map(|d| format!("{d:016x}")).collect::<Vec<_>>(),
        "done" => J::Arr(out.done.iter().map(|s| s.to_json()).collect()),
        "log" => J::Arr(out.log.iter().rev().take(12).rev().map(|s| J::from(s.chars().take(1500).collect::<String>())).collect()),
    }
}
