//! Workloads: which runs are made for which property.

use crate::ir::XS;
use crate::des::{Arrive, Net, deliver};
use crate::gen_::{Walker, costs, sentence, walk};
use crate::model::Gx;
use crate::rng::Rng;
use crate::rt::{Fault, What};
use crate::trace::*;
use std::collections::{BTreeMap, HashMap};

/// What a runner keeps about a grammar between runs.
pub struct GState {
    pub costs: Vec<usize>,
    pub visits: HashMap<(usize, usize), u32>,
}
impl GState {
    pub fn new(gx: &Gx) -> GState {
        GState { costs: costs(gx), visits: HashMap::new() }
    }
}

#[derive(Default)]
pub struct Made {
    pub faults: BTreeMap<&'static str, u64>,
    pub ms: u64,
    pub frames: u64,
}

/// Climbs: prefers the tokens that make the stack grow.
pub fn climb(gx: &Gx, r: &mut Rng, len: usize) -> Vec<usize> {
    let mut w = Walker::new();
    let mut out = Vec::new();
    let nt = gx.x.nterm;
    for _ in 0..len {
        let ok: Vec<usize> = (1..nt).filter(|t| w.can(gx, *t)).collect();
        if ok.is_empty() {
            break;
        }
        let mut t = *r.pick(&ok);
        if r.pct(85) {
            let mut best = 0;
            for _ in 0..6.min(ok.len()) {
                let k = *r.pick(&ok);
                let mut v = Walker { st: w.st.clone() };
                v.feed(gx, k);
                let d = v.st.len() * 2 + r.below(2);
                if d >= best {
                    best = d;
                    t = k;
                }
            }
        }
        out.push(t);
        w.feed(gx, t);
    }
    out
}

/// A valid walk that keeps the stack below a height.
pub fn level_walk(gx: &Gx, r: &mut Rng, len: usize, height: usize) -> Vec<usize> {
    let mut w = Walker::new();
    let mut out = Vec::new();
    let nt = gx.x.nterm;
    for _ in 0..len {
        let ok: Vec<usize> = (1..nt).filter(|t| w.can(gx, *t)).collect();
        if ok.is_empty() {
            break;
        }
        let mut t = *r.pick(&ok);
        for _ in 0..8 {
            let mut v = Walker { st: w.st.clone() };
            v.feed(gx, t);
            if v.st.len() + 2 < height {
                break;
            }
            t = *r.pick(&ok);
        }
        out.push(t);
        w.feed(gx, t);
    }
    out
}

pub fn tokens(prop: &str, gx: &Gx, r: &mut Rng, st: &mut GState) -> Vec<usize> {
    let size = *r.pick(&[3usize, 6, 10, 16, 25, 40, 80]);
    let nt = gx.x.nterm;
    let deep = matches!(prop, "C07" | "C12");
    match r.below(100) {
        0..=4 => (0..r.below(size + 1)).map(|_| 1 + r.below(nt - 1)).collect(),
        5..=14 if deep || r.pct(40) => {
            let n = if deep { *r.pick(&[20usize, 60, 130, 450]) } else { size };
            climb(gx, r, n)
        }
        5..=24 => {
            let d = deep && r.pct(60) || r.pct(20);
            let n = if deep { *r.pick(&[10usize, 40, 120, 300]) } else { size };
            sentence(gx, r, n, &st.costs, d)
        }
        25..=59 => {
            let mut v = sentence(gx, r, size, &st.costs, false);
            // documents one after another, where the grammar cannot know
            if r.pct(15) {
                v.extend(sentence(gx, r, size / 2, &st.costs, false));
            }
            v
        }
        _ => {
            let bad = *r.pick(&[0, 0, 3, 8, 20]);
            walk(gx, r, size, bad, &mut st.visits)
        }
    }
}

fn random_fault(gx: &Gx, r: &mut Rng) -> Fault {
    let push = gx.g.simstack && r.pct(20);
    let what = if push || r.pct(35) { What::Panic } else { What::Err };
    Fault { nth: *r.pick(&[0, 0, 0, 1, 1, 2, 3, 5]), push, what }
}

/// The steps of one client's stay with a parser host: one session, or more if it crashes.
#[allow(clippy::too_many_arguments)]
pub fn client(prop: &str, gx: &Gx, gi: usize, first: usize, r: &mut Rng, st: &mut GState, made: &mut Made, faults: bool) -> Vec<Step> {
    let toks = tokens(prop, gx, r, st);
    let net = if r.pct(15) { Net::perfect() } else { Net::random(r) };
    let (arr, ns) = deliver(r, &toks, gx.x.nterm, &net);
    made.ms += ns.ms;
    made.frames += ns.frames;
    for (k, n) in ns.faults {
        *made.faults.entry(k).or_default() += n;
    }
    let mut sess = first;
    let mut out = vec![Step::new(sess, Op::New(gi))];
    let bump = gx.g.extra_arg && r.pct(50);
    for a in arr {
        match a {
            Arrive::Tok(t) => {
                out.push(Step::new(sess, Op::Parse(t)));
                if bump && r.pct(12) {
                    out.push(Step::new(sess, Op::Bump(r.below(1000) as u64)));
                }
            }
            Arrive::Crash => {
                out.push(Step::new(sess, Op::Drop));
                sess += 1;
                out.push(Step::new(sess, Op::New(gi)));
            }
            Arrive::Quiet => {
                if gx.g.extra_arg {
                    out.push(Step::new(sess, Op::Bump(r.below(1000) as u64)));
                }
            }
            Arrive::Eof => {
                if prop == "C04" && r.pct(60) {
                    // once more after the end, should it have failed meanwhile
                    out.push(Step::new(sess, Op::Parse(1 + r.below(gx.x.nterm - 1))));
                }
                match r.below(20) {
                    0 => {
                        *made.faults.entry("abandoned session").or_default() += 1;
                        out.push(Step::new(sess, Op::Drop))
                    }
                    1 => {
                        *made.faults.entry("abandoned session").or_default() += 1;
                        out.push(Step::new(sess, Op::IntoExtra))
                    }
                    2 => *made.faults.entry("abandoned session").or_default() += 1,
                    _ => out.push(Step::new(sess, Op::End)),
                }
            }
        }
    }
    if faults {
        let n = r.range(1, 2);
        for _ in 0..n {
            let k = r.below(out.len());
            out[k].faults.push(random_fault(gx, r));
        }
    }
    out
}

pub fn single(prop: &str, gx: &Gx, r: &mut Rng, st: &mut GState, made: &mut Made) -> Run {
    let fp = match prop {
        "C02" | "C04" | "C13" => 45,
        "C12" => 30,
        _ => 10,
    };
    let f = r.pct(fp);
    let steps = client(prop, gx, 0, 0, r, st, made, f);
    Run { seed: 0, grams: vec![gx.g.name.clone()], threads: 0, steps }
}

/// After a fault-free run: the same with one fault at a given place, and calls afterwards.
pub fn faulted(base: &Run, gx: &Gx, step: usize, f: Fault, r: &mut Rng) -> Run {
    let mut run = base.clone();
    let s = run.steps[step].sess;
    let isend = run.steps[step].op == Op::End;
    run.steps.truncate(step + 1);
    run.steps[step].faults = vec![f];
    if !isend {
        for _ in 0..r.below(3) {
            if gx.g.extra_arg && r.pct(40) {
                run.steps.push(Step::new(s, Op::Bump(r.below(100) as u64)));
            }
            run.steps.push(Step::new(s, Op::Parse(1 + r.below(gx.x.nterm - 1))));
        }
        run.steps.push(Step::new(
            s,
            match r.below(4) {
                0 => Op::Drop,
                1 => Op::IntoExtra,
                _ => Op::End,
            },
        ));
    }
    run
}

/// Several sessions at once, on one thread or several, some inside the hooks of others.
pub fn multi(prop: &str, gxs: &[(&Gx, usize)], r: &mut Rng, sts: &mut [GState], made: &mut Made) -> Run {
    let n = r.range(2, 6);
    let threads = if r.pct(30) { 0 } else { r.range(1, 4) };
    let mut queues: Vec<std::collections::VecDeque<Step>> = Vec::new();
    // threads that take turns between any two instructions, most often in the same parser's code
    let fine = threads > 1 && r.pct(30);
    let ng = if r.pct(if fine { 75 } else { 35 }) { 1 } else { gxs.len() };
    for i in 0..n {
        let g = r.below(ng);
        let f = r.pct(25);
        let (gx, si) = gxs[g];
        let v = client(prop, gx, g, i * 10, r, &mut sts[si], made, f);
        queues.push(v.into_iter().collect());
    }
    let sticky = r.pct(30);
    let preempt = if fine { 30 } else if threads > 1 { *r.pick(&[0, 10, 40]) } else { 0 };
    let nest = *r.pick(&[0, 0, 8, 25]);
    let burst = r.range(1, 6);
    let mut steps = Vec::new();
    let mut stopped: Vec<usize> = Vec::new();
    let mut cur = 0;
    while queues.iter().any(|q| !q.is_empty()) {
        if r.below(burst) == 0 || queues[cur].is_empty() {
            let live: Vec<usize> = (0..n).filter(|i| !queues[*i].is_empty()).collect();
            cur = *r.pick(&live);
        }
        let mut s = queues[cur].pop_front().unwrap();
        let t = if threads > 0 {
            if sticky { cur % threads } else { r.below(threads) }
        } else {
            0
        };
        s.thread = t;
        if matches!(s.op, Op::Parse(_) | Op::End) && r.pct(preempt) {
            if fine && r.pct(50) {
                for _ in 0..r.range(1, 2) {
                    let k = r.range(0, 4);
                    s.faults.push(Fault { nth: (1 << k) + r.below(1 << k), push: false, what: What::Touch });
                }
            } else if fine && r.pct(70) {
                for _ in 0..r.range(1, 2) {
                    // each power of two as likely as the next
                    let k = r.range(3, 11);
                    s.faults.push(Fault { nth: (1 << k) + r.below(1 << k), push: false, what: What::Preempt });
                }
            } else {
                s.faults.push(Fault { nth: r.below(2), push: false, what: What::Yield });
            }
            stopped.push(s.sess);
        } else if matches!(s.op, Op::Parse(_) | Op::End) && r.pct(nest) {
            let others: Vec<usize> = (0..n).filter(|i| *i != cur && !queues[*i].is_empty()).collect();
            if !others.is_empty() {
                let o = *r.pick(&others);
                let k = r.range(1, 6);
                let mut v = Vec::new();
                for _ in 0..k {
                    if let Some(x) = queues[o].pop_front() {
                        v.push(x);
                    }
                }
                s.faults.push(Fault { nth: 0, push: false, what: What::Nest(v) });
            }
        }
        steps.push(s);
        if !stopped.is_empty() && r.pct(30) {
            let i = r.below(stopped.len());
            let sess = stopped.swap_remove(i);
            steps.push(Step { sess, op: Op::Resume, faults: vec![], thread: 0 });
        }
    }
    Run { seed: 0, grams: gxs.iter().map(|g| g.0.g.name.clone()).collect(), threads, steps }
}

/// Very long or very deep sessions.
pub fn marathon(gx: &Gx, r: &mut Rng, st: &GState, len: usize) -> Run {
    let lim = gx.g.stack_limit();
    let toks = if lim > 1000 {
        climb_fast(gx, r, lim + 50)
    } else if lim == 0 && r.pct(75) {
        match r.below(3) {
            0 => sentence(gx, r, len, &st.costs, true),
            1 => climb_fast(gx, r, len),
            _ => pumped(gx, r, len, &st.costs).unwrap_or_else(|| climb_fast(gx, r, len)),
        }
    } else {
        level_walk(gx, r, len, if lim == 0 { 60 } else { lim })
    };
    let mut steps = vec![Step::new(0, Op::New(0))];
    steps.extend(toks.into_iter().map(|t| Step::new(0, Op::Parse(t))));
    // what the parser holds shows when it is dropped
    steps.push(Step::new(0, if r.pct(40) { Op::Drop } else { Op::End }));
    Run { seed: 0, grams: vec![gx.g.name.clone()], threads: 0, steps }
}

/// A sentence that is as deep as it is long: some nonterminal derives itself again and again.
fn pumped(gx: &Gx, r: &mut Rng, len: usize, costs: &[usize]) -> Option<Vec<usize>> {
    let x = &gx.x;
    let nn = x.nts.len();
    // one step of a derivation: rule and position within it
    let mut edges: Vec<Vec<(usize, usize, usize)>> = vec![Vec::new(); nn];
    for (i, ru) in x.rules.iter().enumerate() {
        if ru.rhs.iter().any(|s| matches!(s, XS::N(n) if costs[*n] > 1_000_000)) {
            continue;
        }
        for (p, s) in ru.rhs.iter().enumerate() {
            match s {
                XS::N(m) if Some(*m) != x.err => edges[ru.lhs].push((i, p, *m)),
                _ => (),
            }
        }
    }
    for e in edges.iter_mut() {
        r.shuffle(e);
        // what makes the stack grow comes first
        if r.pct(70) {
            e.sort_by_key(|e| e.1 == 0);
        }
    }
    // the way from one nonterminal to another, of at least one step
    let way = |from: usize, to: usize| -> Option<Vec<(usize, usize)>> {
        let mut prev: Vec<Option<(usize, (usize, usize))>> = vec![None; nn];
        let mut q = std::collections::VecDeque::from([from]);
        while let Some(n) = q.pop_front() {
            for (i, p, m) in &edges[n] {
                if prev[*m].is_none() {
                    prev[*m] = Some((n, (*i, *p)));
                    q.push_back(*m);
                }
            }
        }
        let mut out = Vec::new();
        let mut at = to;
        loop {
            let (n, e) = prev[at]?;
            out.push(e);
            at = n;
            if at == from {
                break;
            }
            if out.len() > nn {
                return None;
            }
        }
        out.reverse();
        Some(out)
    };
    let mut cand: Vec<usize> = (0..nn).filter(|n| Some(*n) != x.err).collect();
    r.shuffle(&mut cand);
    let mut best: Option<(usize, Vec<(usize, usize)>, Vec<(usize, usize)>)> = None;
    for n in cand {
        let reach = if n == x.start { Some(vec![]) } else { way(x.start, n) };
        let (Some(a), Some(c)) = (reach, way(n, n)) else { continue };
        let grows = c.iter().filter(|e| e.1 > 0).count();
        if best.as_ref().map_or(true, |b| grows > b.0) {
            best = Some((grows, a, c));
            if grows > 0 && r.pct(60) {
                break;
            }
        }
    }
    let (_, reach, cycle) = best?;
    let mut short = |s: &[XS], out: &mut Vec<usize>| {
        let mut st: Vec<XS> = s.iter().rev().cloned().collect();
        while let Some(s) = st.pop() {
            match s {
                XS::T(t) => out.push(t),
                XS::C(c) => out.push(*r.pick(&x.classes[c])),
                XS::N(n) if Some(n) == x.err => (),
                XS::N(n) => {
                    let cost = |i: usize| x.rules[i].rhs.iter().map(|s| if let XS::N(n) = s { costs[*n] } else { 1 }).fold(0usize, |a, b| a.saturating_add(b));
                    if let Some(i) = (0..x.rules.len()).filter(|i| x.rules[*i].lhs == n).min_by_key(|i| cost(*i)) {
                        st.extend(x.rules[i].rhs.iter().rev().cloned());
                    }
                }
            }
            if out.len() > 100_000 || st.len() > 10_000 {
                break;
            }
        }
    };
    let (mut pre, mut suf, mut cpre, mut csuf, mut mid) = (vec![], vec![], vec![], vec![], vec![]);
    let mut both = |path: &[(usize, usize)], a: &mut Vec<usize>, b: &mut Vec<usize>| {
        for (i, p) in path {
            short(&x.rules[*i].rhs[..*p], a);
        }
        for (i, p) in path.iter().rev() {
            short(&x.rules[*i].rhs[p + 1..], b);
        }
    };
    both(&reach, &mut pre, &mut suf);
    both(&cycle, &mut cpre, &mut csuf);
    let n = cycle.last().map(|(i, p)| x.rules[*i].rhs[*p].clone())?;
    short(&[n], &mut mid);
    let per = cpre.len() + csuf.len();
    if per == 0 || per > len {
        return None;
    }
    let mut out = pre;
    for _ in 0..len / per {
        out.extend(&cpre);
    }
    out.extend(mid);
    for _ in 0..len / per {
        out.extend(&csuf);
    }
    out.extend(suf);
    Some(out)
}

/// As `climb`, without copying the stack: repeats the sequence that a short climb found.
fn climb_fast(gx: &Gx, r: &mut Rng, len: usize) -> Vec<usize> {
    let base = climb(gx, r, 60);
    let mut w = Walker::new();
    let mut out = Vec::new();
    // the state on top and the height before each token
    let mut hist: Vec<(usize, usize)> = Vec::new();
    let mut cycle = (0, 0);
    let mut best = 0;
    for (i, t) in base.iter().enumerate() {
        let top = *w.st.last().unwrap_or(&0);
        let h = w.st.len();
        hist.push((top, h));
        // back to where it was, only higher, and nothing below was looked at
        let mut low = h;
        for j in (0..i).rev() {
            low = low.min(hist[j].1);
            if hist[j].0 == top && hist[j].1 == low && h > low && (h - low) * 1000 / (i - j) > best {
                best = (h - low) * 1000 / (i - j);
                cycle = (j, i);
            }
        }
        out.push(*t);
        w.feed(gx, *t);
    }
    if cycle.1 > cycle.0 {
        let c: Vec<usize> = base[cycle.0..cycle.1].to_vec();
        out.truncate(cycle.1);
        while out.len() < len {
            out.extend(&c);
        }
    }
    out
}
