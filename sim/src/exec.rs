//! Executes traces: the simulated threads, the sessions, and the checks after every call.

use crate::json::J;
use crate::model::*;
use crate::rng::{hash_str, mix};
use crate::rt::*;
use crate::trace::*;
use std::collections::{BTreeMap, HashMap};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{Receiver, Sender, channel};
use std::sync::{Mutex, OnceLock};

pub type Mk = fn() -> Box<dyn Sess>;

pub struct Entry {
    pub gx: Gx,
    pub mk: Option<Mk>,
}

pub static ENTRIES: OnceLock<Vec<Entry>> = OnceLock::new();
pub fn entries() -> &'static [Entry] {
    ENTRIES.get().map_or(&[], |v| v)
}

pub enum Job {
    Step(Step),
    Resume,
    Quit,
}
pub enum Msg {
    Done(usize),
    Yielded(usize),
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub step: usize,
    pub sess: usize,
    pub gram: usize,
    pub bad: Bad,
    pub obs: String,
}

struct Slot {
    gram: usize,
    parser: Option<Box<dyn Sess>>,
    model: Option<ModelSess>,
    busy: bool,
    digest: u64,
    thread: usize,
    /// The highest its stack has been.
    top: usize,
}

#[derive(Default)]
pub struct Stats {
    pub calls: u64,
    pub steps: u64,
    pub hooks: u64,
    pub pushes: u64,
    pub sessions: u64,
    pub moves: u64,
    pub switches: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub max_live: u64,
    pub max_ops: u64,
    /// Calls of which every instruction was counted, how many, and how many calls were compared so.
    pub stepped: u64,
    pub instructions: u64,
    /// Calls stopped between two instructions, how often, and the uses of static memory seen in them.
    pub preempted: u64,
    pub preemptions: u64,
    pub touches: u64,
    pub compared: u64,
    pub schedule: u64,
}

#[derive(Default)]
struct Ex {
    slots: Vec<Option<Slot>>,
    step: usize,
    fail: Option<Fail>,
    /// hooks and pushes per executed top-level step
    counts: Vec<(usize, usize)>,
    log: Option<Vec<String>>,
    grams: Vec<usize>,
    last: usize,
    sched: u64,
    done: Vec<Step>,
    keep_done: bool,
    /// Steps of the run, when calls early and late in it are to be compared.
    long: usize,
    work: HashMap<u64, Work>,
    measured: usize,
}

/// One situation of a long run, and what a call in it takes.
#[derive(Default)]
struct Work {
    seen: usize,
    early: Option<u64>,
    over: usize,
    done: bool,
}
const FIRST: u64 = 200_000;
fn enough(early: u64) -> u64 {
    20_000 + 4 * early
}

static EX: Mutex<Option<Ex>> = Mutex::new(None);
pub static COVER: Mutex<Option<Cover>> = Mutex::new(None);
static MEMO: Mutex<Option<HashMap<(u32, u32), Vec<String>>>> = Mutex::new(None);
pub static STATS: Mutex<Option<Stats>> = Mutex::new(None);
/// Counts calls: the watchdog looks at it.
pub static BEAT: AtomicU64 = AtomicU64::new(0);

fn ex<R>(f: impl FnOnce(&mut Ex) -> R) -> R {
    let mut g = EX.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Ex::default))
}
pub fn stats<R>(f: impl FnOnce(&mut Stats) -> R) -> R {
    let mut g = STATS.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Stats::default))
}

/// Called in a hook: give way to the scheduler. False when there is none.
pub fn yield_now() -> bool {
    WORKER.with(|w| {
        let w = w.borrow();
        let Some((tx, rx, id)) = &*w else { return false };
        if tx.send(Msg::Yielded(*id)).is_err() {
            return false;
        }
        loop {
            match rx.recv() {
                Ok(Job::Resume) | Err(_) => return true,
                _ => (),
            }
        }
    })
}

/// Called in a hook: operate other sessions from inside user code.
pub fn nested(steps: &[Step]) {
    for s in steps {
        do_step(s, true);
    }
}

fn budget(gx: &Gx, depth: usize) -> u64 {
    let rhs = gx.x.rules.iter().map(|r| r.rhs.len()).max().unwrap_or(0) + 4;
    20_000 + 30 * (depth + gx.t.act.len()) as u64 * (gx.x.rules.len() + rhs) as u64
}

fn do_step(step: &Step, is_nested: bool) {
    let sid = step.sess;
    // take what is needed, with nothing locked while the parser runs
    enum Do {
        New(Mk, usize),
        Call(Box<dyn Sess>, usize),
        Skip,
    }
    let todo = ex(|e| {
        if e.fail.is_some() {
            return Do::Skip;
        }
        match step.op {
            Op::New(g) => {
                if sid > 10_000 || g >= e.grams.len() || e.slots.get(sid).is_some_and(|s| s.is_some()) {
                    return Do::Skip;
                }
                while e.slots.len() <= sid {
                    e.slots.push(None);
                }
                let gram = e.grams[g];
                let Some(mk) = entries()[gram].mk else { return Do::Skip };
                e.slots[sid] = Some(Slot { gram, parser: None, model: None, busy: true, digest: hash_str(&entries()[gram].gx.g.name), thread: step.thread, top: 0 });
                Do::New(mk, gram)
            }
            Op::Resume => Do::Skip,
            _ => {
                let Some(Some(s)) = e.slots.get_mut(sid) else { return Do::Skip };
                if s.busy {
                    return Do::Skip;
                }
                let Some(p) = s.parser.take() else { return Do::Skip };
                s.busy = true;
                if s.thread != step.thread {
                    s.thread = step.thread;
                    stats(|x| x.moves += 1);
                }
                Do::Call(p, s.gram)
            }
        }
    });
    let (gram, mut parser, mk) = match todo {
        Do::Skip => return,
        Do::New(m, g) => (g, None, Some(m)),
        Do::Call(p, g) => (g, Some(p), None),
    };
    let gx = &entries()[gram].gx;
    let depth = ex(|e| e.slots[sid].as_ref().and_then(|s| s.model.as_ref()).map_or(0, |m| m.depth()));
    // in a long run, the work of some calls is counted: early on, and much later in the same situation
    let count: Option<(u64, u64)> = ex(|e| {
        let (Op::Parse(k), false, true) = (&step.op, is_nested, e.long > 0) else { return None };
        let key = mix(e.slots[sid].as_ref()?.model.as_ref()?.key()?, *k as u64);
        if e.work.len() > 4096 && !e.work.contains_key(&key) {
            return None;
        }
        let w = e.work.entry(key).or_default();
        w.seen += 1;
        match w.early {
            None if w.seen == 2 && e.measured < 12 && e.step < e.long / 4 => {
                e.measured += 1;
                Some((key, FIRST))
            }
            Some(n) if !w.done && e.step > e.long / 4 * 3 => Some((key, enough(n) + 1)),
            _ => None,
        }
    });
    {
        let mut w = world();
        while w.sess.len() <= sid {
            w.sess.push(SessRt::default());
        }
        let s = &mut w.sess[sid];
        s.evs.clear();
        s.faults = step.faults.clone();
        s.hooks = 0;
        s.pushes = 0;
        s.push_fired = false;
        s.ops = 0;
        s.budget = budget(gx, depth);
        s.tok_atoms.clear();
        s.in_call = matches!(step.op, Op::New(_) | Op::Parse(_) | Op::End);
        s.outside = false;
    }
    BEAT.fetch_add(1, Ordering::Relaxed);
    CUR.with(|c| c.borrow_mut().push(sid));
    let mut call = match &step.op {
        Op::New(_) => Call::New,
        Op::Parse(k) => Call::Parse(TokD::unit(*k)),
        Op::End => Call::End,
        Op::Bump(v) => Call::Bump(*v),
        Op::IntoExtra => Call::IntoExtra,
        Op::Drop | Op::Resume => Call::Drop,
    };
    let mut into = None;
    let freed = crate::count::freed();
    let f = AssertUnwindSafe(|| match &step.op {
        Op::New(_) => {
            parser = Some((mk.unwrap())());
            Ret::Ok
        }
        Op::Parse(k) => match parser.as_mut().unwrap().parse(*k) {
            Ok(()) => Ret::Ok,
            Err(e) => Ret::Err(e),
        },
        Op::End => match parser.take().unwrap().end() {
            Ok((v, s)) => Ret::End(v, s),
            Err(e) => Ret::Err(e),
        },
        Op::Bump(v) => {
            parser.as_mut().unwrap().bump(BUMP_CALLER + v);
            Ret::Ok
        }
        Op::IntoExtra => {
            into = parser.take().unwrap().into_extra();
            Ret::Ok
        }
        Op::Drop | Op::Resume => {
            drop(parser.take());
            Ret::Ok
        }
    });
    let mut took = 0;
    let r = match count {
        Some((_, limit)) => {
            let (r, n) = crate::count::counted(limit, || catch_unwind(f));
            took = n;
            r
        }
        None => {
            // nobody to give way to unless there are other threads
            let turns = !is_nested && WORKER.with(|w| w.borrow().is_some());
            let at = |k: What| -> Vec<u64> { step.faults.iter().filter(|f| turns && f.what == k).map(|f| f.nth as u64).collect() };
            let (r, n, touches) = crate::count::preempted(&at(What::Preempt), &at(What::Touch), || catch_unwind(f));
            if n > 0 {
                stats(|x| {
                    x.preempted += 1;
                    x.preemptions += n;
                    x.touches += touches;
                    *x.faults.entry("preempted between instructions").or_default() += n;
                });
            }
            r
        }
    };
    let freed = crate::count::freed() - freed;
    let ret = match r {
        Ok(r) => r,
        Err(p) => Ret::Panic(if p.is::<Injected>() {
            PanicKind::Injected
        } else if p.is::<OverBudget>() {
            PanicKind::Budget
        } else if let Some(s) = p.downcast_ref::<&str>() {
            PanicKind::Other(s.to_string())
        } else if let Some(s) = p.downcast_ref::<String>() {
            PanicKind::Other(s.clone())
        } else {
            PanicKind::Other("?".into())
        }),
    };
    let snap = match (&step.op, &parser) {
        (Op::IntoExtra, _) => into,
        // without a snapshot the argument counts as lost
        (_, Some(p)) => catch_unwind(AssertUnwindSafe(|| p.snap())).unwrap_or(None),
        _ => None,
    };
    CUR.with(|c| c.borrow_mut().pop());
    let (obs, fired) = {
        let mut w = world();
        let s = &mut w.sess[sid];
        s.in_call = false;
        if let Call::Parse(t) = &mut call {
            if !gx.term_unit[t.kind] {
                t.unit = false;
                t.atoms = std::mem::take(&mut s.tok_atoms);
            }
        }
        let n = s.live.len();
        let live = (n <= 24 || (ret != Ret::Ok && n <= 200_000)).then(|| {
            let mut v: Vec<Atom> = s.live.iter().copied().collect();
            v.sort();
            v
        });
        let o = Obs {
            call,
            evs: std::mem::take(&mut s.evs),
            ret,
            snap,
            live_hash: s.live_hash,
            live_n: n,
            live,
            push_panic: s.push_fired,
            bad_drop: s.bad_drop,
            max_len: s.max_len,
            outside: s.outside,
        };
        let fired = (std::mem::take(&mut s.fired), s.hooks, s.pushes, s.ops);
        (o, fired)
    };
    stats(|x| {
        x.calls += 1;
        x.hooks += fired.1 as u64;
        x.pushes += fired.2 as u64;
        x.max_live = x.max_live.max(obs.live_n as u64);
        x.max_ops = x.max_ops.max(fired.3);
        if took > 0 {
            x.stepped += 1;
            x.instructions += took;
        }
        for (k, n) in fired.0 {
            *x.faults.entry(k).or_default() += n;
        }
    });
    ex(|e| {
        if !is_nested {
            e.counts.push((fired.1, fired.2));
        }
        let at = e.step;
        if e.keep_done {
            let mut st = step.clone();
            st.thread = 0;
            st.faults.retain(|f| matches!(f.what, What::Err | What::Panic));
            e.done.push(st);
        }
        e.sched = mix(e.sched, sid as u64 * 64 + step.thread as u64 * 8 + is_nested as u64);
        if e.last != sid {
            e.last = sid;
            stats(|x| x.switches += 1);
        }
        if let Some(l) = &mut e.log {
            l.push(format!("step {at} session {sid} ({}): {obs:?}", gx.g.name));
        }
        let s = e.slots[sid].as_mut().unwrap();
        s.busy = false;
        s.parser = parser;
        // everything user-visible about the call
        s.digest = mix(s.digest, hash_str(&format!("{:?}", (&obs.call, &obs.evs, &obs.ret, obs.snap, obs.live_hash))));
        if matches!(step.op, Op::New(_)) && s.parser.is_some() {
            s.model = Some(ModelSess::new(obs.snap));
        }
        let mut cv = COVER.lock().unwrap_or_else(|e| e.into_inner());
        let mut mm = MEMO.lock().unwrap_or_else(|e| e.into_inner());
        let res = match &mut s.model {
            Some(m) => m.step(gx, &obs, cv.get_or_insert_with(Cover::default), mm.get_or_insert_with(HashMap::new)),
            // new() itself did not come back with a parser: only a failing stack push explains that
            None if obs.ret == Ret::Panic(PanicKind::Injected) && obs.push_panic => Ok(()),
            None => Err(Bad { kind: MK::Panic, at: 0, detail: format!("new() ended with {:?}", obs.ret), props: ["C12", "C01"].into() }),
        };
        s.top = s.top.max(depth + obs.evs.len() + 2);
        let top = s.top;
        let mut res = res;
        if let (Some((key, limit)), true, Ok(())) = (count, took > 0, &res) {
            let w = e.work.entry(key).or_default();
            if w.early.is_none() {
                w.early = Some(took);
            } else {
                stats(|x| x.compared += 1);
                if took < limit {
                    w.done = true;
                } else {
                    // growing a table now and then is no growth of the work: it takes three
                    w.over += 1;
                    if w.over == 3 {
                        res = Err(Bad { kind: MK::Work, at: 0, detail: "with the same stack and the same token, the call takes several times the instructions it took early in the run".into(), props: ["C12"].into() });
                    }
                }
            }
        }
        if matches!(step.op, Op::Drop | Op::IntoExtra) && freed > 8192 + 512 * top as u64 && res.is_ok() {
            res = Err(Bad { kind: MK::Work, at: 0, detail: format!("the parser held far more memory than a stack that was never higher than {top} takes"), props: ["C12"].into() });
        }
        if let Err(b) = res {
            if e.fail.is_none() {
                e.fail = Some(Fail { step: at, sess: sid, gram: s.gram, bad: b, obs: format!("{obs:?}") });
            }
        }
    });
}

fn worker(id: usize, rx: Receiver<Job>, tx: Sender<Msg>) {
    // the receiver is lent to the hooks while a step runs
    WORKER.with(|w| *w.borrow_mut() = Some((tx.clone(), rx, id)));
    loop {
        let job = WORKER.with(|w| w.borrow().as_ref().map(|x| x.1.recv()));
        match job {
            Some(Ok(Job::Step(s))) => {
                do_step(&s, false);
                if tx.send(Msg::Done(id)).is_err() {
                    return;
                }
            }
            Some(Ok(Job::Resume)) => (),
            _ => return,
        }
    }
}

pub struct RunOut {
    pub fail: Option<Fail>,
    /// Per session: everything that its caller and its user code could see.
    pub digests: Vec<u64>,
    pub counts: Vec<(usize, usize)>,
    pub log: Vec<String>,
    pub schedule: u64,
    /// Every step in the order in which it finished, without preemption and nesting.
    pub done: Vec<Step>,
}

/// Carry out a run. `grams` maps the grammar numbers of the run to entries.
pub fn execute(run: &Run, grams: &[usize], keep_log: bool) -> RunOut {
    {
        let mut w = world();
        w.sess.clear();
    }
    MEMO.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).clear();
    let long = if run.threads == 0 && run.steps.len() > 4000 { run.steps.len() } else { 0 };
    ex(|e| *e = Ex { long, grams: grams.to_vec(), log: keep_log.then(Vec::new), last: usize::MAX, keep_done: keep_log || run.threads > 0 || run.steps.iter().any(|s| s.sess != 0 || s.faults.iter().any(|f| !matches!(f.what, What::Err | What::Panic))), ..Ex::default() });
    if run.threads == 0 {
        for (i, s) in run.steps.iter().enumerate() {
            ex(|e| e.step = i);
            do_step(s, false);
            if ex(|e| e.fail.is_some()) {
                break;
            }
        }
    } else {
        scheduled(run);
    }
    // whatever is still open is abandoned now, and must leave nothing behind
    let n = ex(|e| {
        e.step = run.steps.len();
        e.slots.len()
    });
    for s in 0..n {
        do_step(&Step::new(s, Op::Drop), false);
    }
    let out = ex(|e| {
        let e = std::mem::take(e);
        stats(|x| {
            x.steps += e.step as u64;
            x.sessions += e.slots.iter().flatten().count() as u64;
        });
        let o = RunOut { fail: e.fail, digests: e.slots.iter().map(|s| s.as_ref().map_or(0, |s| s.digest)).collect(), counts: e.counts, log: e.log.unwrap_or_default(), schedule: e.sched, done: e.done };
        (o, e.slots)
    });
    // parsers left over after a failure are dropped without locks held
    drop(out.1);
    out.0
}

/// Worker threads, exactly one of which runs at any time; the steps say which.
fn scheduled(run: &Run) {
    let n = run.threads.clamp(1, 8);
    let (tx, rx) = channel::<Msg>();
    std::thread::scope(|sc| {
        let mut jobs = Vec::new();
        for i in 0..n {
            let (jt, jr) = channel::<Job>();
            let tx = tx.clone();
            std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(sc, move || worker(i, jr, tx)).expect("thread");
            jobs.push(jt);
        }
        // threads stopped in the middle of a call, oldest first, with their outer session
        let mut stopped: Vec<(usize, usize)> = Vec::new();
        let mut owner: Vec<usize> = vec![usize::MAX; n];
        let wait = |stopped: &mut Vec<(usize, usize)>, owner: &Vec<usize>| match rx.recv() {
            Ok(Msg::Yielded(t)) => stopped.push((t, owner[t])),
            Ok(Msg::Done(_)) | Err(_) => (),
        };
        for (i, s) in run.steps.iter().enumerate() {
            ex(|e| e.step = i);
            if ex(|e| e.fail.is_some()) {
                break;
            }
            // a session whose call was preempted goes on with that call first
            let mut guard = 0;
            while let Some(p) = stopped.iter().position(|x| x.1 == s.sess) {
                let (t, _) = stopped.remove(p);
                let _ = jobs[t].send(Job::Resume);
                wait(&mut stopped, &owner);
                guard += 1;
                if s.op == Op::Resume || guard > 1000 {
                    break;
                }
            }
            if s.op == Op::Resume {
                continue;
            }
            let mut t = s.thread % n;
            let mut tried = 0;
            while stopped.iter().any(|x| x.0 == t) && tried < n {
                t = (t + 1) % n;
                tried += 1;
            }
            while stopped.iter().any(|x| x.0 == t) {
                let (u, _) = stopped.remove(0);
                let _ = jobs[u].send(Job::Resume);
                wait(&mut stopped, &owner);
                if !stopped.iter().any(|x| x.0 == u) {
                    t = u;
                }
            }
            owner[t] = s.sess;
            let mut s = s.clone();
            s.thread = t;
            let _ = jobs[t].send(Job::Step(s));
            wait(&mut stopped, &owner);
        }
        let mut guard = 0;
        while let Some((t, _)) = stopped.pop() {
            let _ = jobs[t].send(Job::Resume);
            wait(&mut stopped, &owner);
            guard += 1;
            if guard > 100_000 {
                break;
            }
        }
        for j in &jobs {
            let _ = j.send(Job::Quit);
        }
    });
}

pub fn fail_json(f: &Fail) -> J {
    crate::obj! {
        "step" => f.step, "session" => f.sess, "grammar" => entries()[f.gram].gx.g.name.clone(),
        "kind" => format!("{:?}", f.bad.kind), "detail" => f.bad.detail.clone(),
        "props" => f.bad.props.iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        "observed" => f.obs.chars().take(2000).collect::<String>(),
    }
}
