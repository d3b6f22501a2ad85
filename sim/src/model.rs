//! The reference model of one parsing session: it is told what was observed during a call and
//! says whether the documentation allows it. Where the documentation leaves the parser a
//! choice (reductions done before an error is noticed) it keeps every possibility that the
//! observations have not ruled out.

use crate::ir::{Gram, Kind, Sym, XG, expand};
use crate::lalr::{A, Reject, Tab, Via, build};
use crate::rng::mix;
use crate::rt::*;
use std::collections::{BTreeSet, HashMap, HashSet};

pub struct Gx {
    pub g: Gram,
    pub x: XG,
    pub t: Tab,
    pub term_unit: Vec<bool>,
    pub err_rules: Vec<bool>,
}

pub fn prepare(g: &Gram, max_states: usize) -> Result<Gx, Reject> {
    let x = expand(g);
    let t = build(&x, max_states)?;
    let term_unit = (0..g.terms.len()).map(|k| g.term_ty(k) == crate::ir::Ty::Unit).collect();
    let err_rules = g.rules.iter().map(|r| r.rhs.iter().any(|i| i.sym == Sym::Err)).collect();
    Ok(Gx { g: g.clone(), x, t, term_unit, err_rules })
}

#[derive(Clone, Debug, PartialEq)]
pub enum PanicKind {
    Injected,
    Budget,
    Other(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Ok,
    End(Vec<Atom>, Option<Snap>),
    Err(u64),
    Panic(PanicKind),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    New,
    Parse(TokD),
    End,
    Bump(u64),
    IntoExtra,
    Drop,
}

/// Everything seen during one call.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub call: Call,
    pub evs: Vec<Ev>,
    pub ret: Ret,
    pub snap: Option<Snap>,
    pub live_hash: u64,
    pub live_n: usize,
    pub live: Option<Vec<Atom>>,
    pub push_panic: bool,
    pub bad_drop: Option<Atom>,
    pub max_len: usize,
    pub outside: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum MK {
    Step,
    Args,
    SynTok,
    Expected,
    Overflow,
    Live,
    Drops,
    RetCode,
    Accept,
    AfterFail,
    Ctx,
    Panic,
    Limit,
    Work,
}

#[derive(Clone, Debug)]
pub struct Bad {
    pub kind: MK,
    pub at: usize,
    pub detail: String,
    pub props: BTreeSet<&'static str>,
}

#[derive(Clone, Debug)]
struct Node {
    parent: u32,
    st: u32,
    depth: u32,
    a0: u32,
    an: u32,
    live: u64,
    cnt: u32,
    sig: u64,
    err: bool,
}
#[derive(Clone, Copy, Debug)]
struct Conf {
    top: u32,
    ec: u8,
}
const NIL: u32 = u32::MAX;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Status {
    Normal,
    Failed,
    Gone,
}

/// Which lookups a run has exercised: the measure of distinct states reached.
#[derive(Default)]
pub struct Cover {
    pub seen: HashSet<u64>,
    pub shifts: u64,
    pub reduces: u64,
    pub errors: u64,
    pub via_fb: u64,
    pub via_wild: u64,
    pub syn_calls: u64,
    pub pfails: u64,
    pub overflows: u64,
    pub accepts: u64,
    pub expected_checked: u64,
    pub args_checked: u64,
    pub max_depth: u64,
    pub recovered_shift: u64,
    pub post_error_accepts: u64,
    pub rationed: u64,
    pub after_fail_calls: u64,
    pub ctx_checks: u64,
    pub live_checks: u64,
    pub hook_fail: u64,
    pub opt_args: u64,
}

pub struct ModelSess {
    arena: Vec<Node>,
    atoms: Vec<Atom>,
    confs: Vec<Conf>,
    pub ctx: Option<Snap>,
    pub status: Status,
    pub had_error: bool,
    pub since_error: u32,
}

#[derive(Debug)]
enum Fin {
    Tok(Conf),
    Accept(Vec<Atom>),
    Fail(u64, bool, Conf),
    Panicked(Conf),
}

struct Miss {
    rank: (usize, u8),
    kind: MK,
    detail: String,
    props: Vec<&'static str>,
}

fn evname(e: Option<&Ev>, r: &Ret) -> String {
    match e {
        Some(Ev::Act { rule, .. }) => format!("action of rule {rule}"),
        Some(Ev::Syn { tok, .. }) => format!("%syntax_error({:?})", tok.as_ref().map(|t| t.kind)),
        Some(Ev::PFail { .. }) => "%parse_fail".into(),
        Some(Ev::Ovf { .. }) => "%stack_overflow".into(),
        None => format!("return {r:?}"),
    }
}

fn live_of(a: &[Atom]) -> (u64, u32) {
    let mut h = 0;
    let mut n = 0;
    for x in a {
        if *x > 0 {
            h ^= mix(*x as u64, 77);
            n += 1;
        }
    }
    (h, n)
}

impl ModelSess {
    pub fn new(ctx: Option<Snap>) -> ModelSess {
        let root = Node { parent: NIL, st: 0, depth: 1, a0: 0, an: 0, live: 0, cnt: 0, sig: 1, err: false };
        ModelSess {
            arena: vec![root],
            atoms: vec![],
            confs: vec![Conf { top: 0, ec: 0 }],
            ctx,
            status: Status::Normal,
            had_error: false,
            since_error: 0,
        }
    }
    pub fn ambiguous(&self) -> bool {
        self.confs.len() > 1
    }
    pub fn depth(&self) -> usize {
        self.confs.first().map_or(0, |c| if c.top == NIL { 0 } else { self.arena[c.top as usize].depth as usize })
    }
    /// What the coming call depends on, values apart: the states on the stack and the error count.
    /// None when that is much or not certain.
    pub fn key(&self) -> Option<u64> {
        let [c] = self.confs[..] else { return None };
        if self.depth() > 64 || self.status != Status::Normal {
            return None;
        }
        let (mut h, mut i) = (mix(c.ec as u64, 5), c.top);
        while i != NIL {
            h = mix(h, self.node(i).st as u64);
            i = self.node(i).parent;
        }
        Some(h)
    }
    fn node(&self, i: u32) -> &Node {
        &self.arena[i as usize]
    }
    fn push(&mut self, top: u32, st: usize, val: &[Atom], err: bool) -> u32 {
        let a0 = self.atoms.len() as u32;
        self.atoms.extend_from_slice(val);
        let p = self.node(top).clone();
        let (h, n) = live_of(val);
        let mut sig = mix(p.sig, st as u64 * 2 + err as u64);
        for a in val {
            sig = mix(sig, *a as u64);
        }
        self.arena.push(Node { parent: top, st: st as u32, depth: p.depth + 1, a0, an: val.len() as u32, live: p.live ^ h, cnt: p.cnt + n, sig, err });
        (self.arena.len() - 1) as u32
    }
    fn val(&self, n: &Node) -> Vec<Atom> {
        self.atoms[n.a0 as usize..(n.a0 + n.an) as usize].to_vec()
    }
    fn remaining(&self, c: Conf) -> HashSet<Atom> {
        let mut s = HashSet::new();
        let mut i = c.top;
        while i != NIL {
            let n = self.node(i);
            s.extend(self.val(n).into_iter().filter(|a| *a > 0));
            i = n.parent;
        }
        s.extend(self.ctx.map(|c| c.id));
        s
    }

    /// Tokens that have an action in a state.
    fn expected(gx: &Gx, st: usize) -> BTreeSet<usize> {
        (1..gx.x.nterm).filter(|t| matches!(gx.t.lookup(&gx.x, st, *t).0, A::Shift(_) | A::Reduce(_))).collect()
    }

    fn ctxprops(&self, gx: &Gx, base: &[&'static str]) -> Vec<&'static str> {
        // properties broken by taking the wrong parsing step in the present situation
        let mut v: Vec<&'static str> = base.to_vec();
        if self.had_error {
            v.push(if gx.g.err_sym.is_some() { "C05" } else { "C06" });
        } else {
            v.push("C01");
        }
        if gx.g.has_fb() {
            v.push("C09");
        }
        v
    }

    pub fn step(&mut self, gx: &Gx, o: &Obs, cov: &mut Cover, memo: &mut HashMap<(u32, u32), Vec<String>>) -> Result<(), Bad> {
        let bad = |kind: MK, at: usize, detail: String, props: Vec<&'static str>| {
            Err(Bad { kind, at, detail, props: props.into_iter().collect() })
        };
        if let Some(id) = o.bad_drop {
            return bad(MK::Drops, 0, format!("value {id} was dropped or handed on twice"), vec!["C02"]);
        }
        if o.outside {
            return bad(MK::AfterFail, 0, "user code ran outside of any call".into(), vec!["C04", "C03"]);
        }
        let lim = gx.g.stack_limit();
        if gx.g.simstack && lim != 0 && o.max_len > lim {
            return bad(MK::Limit, 0, format!("the stack held {} entries, the limit is {lim}", o.max_len), vec!["C07"]);
        }
        // The extra argument is changed exactly by the hooks that ran and by the caller.
        if let Some(c) = &mut self.ctx {
            for e in &o.evs {
                match e {
                    Ev::Act { rule, .. } => c.bump(*rule as u64),
                    Ev::Syn { .. } => c.bump(BUMP_SYN),
                    Ev::PFail { .. } => c.bump(BUMP_PFAIL),
                    Ev::Ovf { .. } => c.bump(BUMP_OVF),
                }
            }
            if let Call::Bump(v) = o.call {
                c.bump(BUMP_CALLER + v);
            }
        }
        let ctx_gone = matches!(o.call, Call::End | Call::IntoExtra | Call::Drop);
        let want = match (&o.call, &o.ret) {
            (Call::End, Ret::End(..)) | (Call::IntoExtra, _) => self.ctx,
            (Call::End, _) | (Call::Drop, _) => None,
            _ => self.ctx,
        };
        let got = match (&o.call, &o.ret) {
            (_, Ret::End(_, s)) => *s,
            _ => o.snap,
        };
        if self.ctx.is_some() && want.is_some() {
            cov.ctx_checks += 1;
        }
        let ctx_ok = want == got;
        let end_gone = |m: &mut Self| {
            m.status = Status::Gone;
            m.confs.clear();
        };
        let res = match &o.call {
            Call::New => Ok(()),
            Call::Bump(_) => {
                if !o.evs.is_empty() {
                    bad(MK::AfterFail, 0, "user code ran outside of parse()".into(), vec!["C04"])
                } else if let Ret::Panic(p) = &o.ret {
                    bad(MK::Panic, 0, format!("extra_mut() panicked: {p:?}"), vec!["C12", "C13"])
                } else if self.status == Status::Normal {
                    self.check_live(o)
                } else {
                    Ok(())
                }
            }
            Call::IntoExtra | Call::Drop => {
                end_gone(self);
                if !o.evs.is_empty() {
                    bad(MK::AfterFail, 0, "user code ran while the parser was abandoned".into(), vec!["C04"])
                } else if o.live_n != 0 {
                    bad(MK::Live, 0, format!("{} values left after the parser was gone: {:?}", o.live_n, o.live), vec!["C02"])
                } else if let Ret::Panic(p) = &o.ret {
                    bad(MK::Panic, 0, format!("abandoning the parser panicked: {p:?}"), if o.call == Call::IntoExtra { vec!["C12", "C13"] } else { vec!["C12"] })
                } else {
                    Ok(())
                }
            }
            Call::Parse(_) | Call::End if self.status == Status::Failed => {
                cov.after_fail_calls += 1;
                let end = o.call == Call::End;
                if end {
                    end_gone(self);
                }
                if !o.evs.is_empty() {
                    bad(MK::AfterFail, 0, format!("{} ran after the parser had failed", evname(o.evs.first(), &o.ret)), vec!["C04"])
                } else if !matches!(o.ret, Ret::Panic(_)) {
                    bad(MK::AfterFail, 0, format!("a call after the failure returned {:?}", o.ret), vec!["C04"])
                } else if end && o.live_n != 0 {
                    bad(MK::Live, 0, format!("{} values left after the parser was gone: {:?}", o.live_n, o.live), vec!["C02"])
                } else {
                    Ok(())
                }
            }
            Call::Parse(tok) => self.token(gx, tok.kind, Some(tok), o, cov, memo),
            Call::End => {
                let r = self.token(gx, 0, None, o, cov, memo);
                end_gone(self);
                r
            }
        };
        if let Err(b) = &res {
            if ctx_ok || b.kind == MK::Panic {
                return res;
            }
        }
        if !ctx_ok {
            return bad(MK::Ctx, 0, format!("the extra argument is {got:?}, should be {want:?}"), vec!["C13"]);
        }
        if ctx_gone {
            self.ctx = None;
        }
        res
    }

    fn check_live(&self, o: &Obs) -> Result<(), Bad> {
        let (ch, cn) = match self.ctx {
            Some(c) => (mix(c.id as u64, 77), 1),
            None => (0, 0),
        };
        let ok = self.confs.iter().any(|c| {
            let n = self.node(c.top);
            n.live ^ ch == o.live_hash && n.cnt + cn == o.live_n as u32
        });
        if ok {
            Ok(())
        } else {
            Err(Bad { kind: MK::Live, at: 0, detail: "values appeared or disappeared between calls".into(), props: ["C02"].into() })
        }
    }

    fn token(&mut self, gx: &Gx, t: usize, tok: Option<&TokD>, o: &Obs, cov: &mut Cover, memo: &mut HashMap<(u32, u32), Vec<String>>) -> Result<(), Bad> {
        let mut misses: Vec<Miss> = Vec::new();
        let mut oks: Vec<(Fin, bool)> = Vec::new();
        let mark = self.arena.len();
        let starts = std::mem::take(&mut self.confs);
        let mut work: Vec<(Conf, usize, bool)> = starts.iter().rev().map(|c| (*c, 0, false)).collect();
        let mut steps = 0usize;
        while let Some((c, ei, defaulted)) = work.pop() {
            self.walk(gx, t, tok, o, c, ei, defaulted, &mut work, &mut oks, &mut misses, cov, memo, &mut steps);
            if steps > 2_000_000 {
                break;
            }
        }
        let _ = mark;
        if oks.is_empty() {
            let m = misses.into_iter().max_by_key(|m| m.rank);
            let m = m.unwrap_or(Miss { rank: (0, 0), kind: MK::Step, detail: "no possible parse is left".into(), props: vec![] });
            let mut props: BTreeSet<&'static str> = m.props.into_iter().collect();
            if m.kind == MK::Step && props.contains("C01") && gx.g.has_shorthand() {
                // an optional, compound or class symbol does not take what it should
                props.insert("C10");
            }
            if let Ret::Panic(p) = &o.ret {
                if *p != PanicKind::Injected {
                    props.insert("C12");
                    return Err(Bad { kind: MK::Panic, at: m.rank.0, detail: format!("unexpected panic {p:?}; expected: {}", m.detail), props });
                }
            }
            return Err(Bad { kind: m.kind, at: m.rank.0, detail: m.detail, props });
        }
        // Keep what is possible, without duplicates.
        let mut sigs = HashSet::new();
        let errored = oks.iter().any(|x| x.1);
        if errored {
            self.had_error = true;
            self.since_error = 0;
            cov.errors += 1;
        } else {
            self.since_error += 1;
        }
        for (f, _) in oks {
            match f {
                Fin::Tok(c) => {
                    let n = self.node(c.top);
                    if sigs.insert((n.sig, c.ec)) {
                        cov.max_depth = cov.max_depth.max(n.depth as u64);
                        self.confs.push(c);
                    }
                }
                Fin::Accept(_) => {
                    self.status = Status::Gone;
                    cov.accepts += 1;
                    if self.had_error {
                        cov.post_error_accepts += 1;
                    }
                }
                Fin::Fail(_, hook, _) => {
                    if hook && self.status == Status::Normal {
                        cov.hook_fail += 1;
                    }
                    self.status = Status::Failed;
                }
                Fin::Panicked(_) => {
                    self.status = Status::Failed;
                }
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn walk(
        &mut self,
        gx: &Gx,
        t: usize,
        tok: Option<&TokD>,
        o: &Obs,
        mut c: Conf,
        mut ei: usize,
        mut defaulted: bool,
        work: &mut Vec<(Conf, usize, bool)>,
        oks: &mut Vec<(Fin, bool)>,
        misses: &mut Vec<Miss>,
        cov: &mut Cover,
        memo: &mut HashMap<(u32, u32), Vec<String>>,
        steps: &mut usize,
    ) {
        let lim = gx.g.stack_limit();
        let mut force: Option<usize> = None; // default reduction to try
        let errp: &'static str = if gx.g.err_sym.is_some() { "C05" } else { "C06" };
        macro_rules! miss {
            ($stage:expr, $kind:expr, $props:expr, $($f:tt)*) => {{
                misses.push(Miss { rank: (ei, $stage), kind: $kind, detail: format!($($f)*), props: $props });
                return;
            }};
        }
        // What was seen instead of what this branch expects; the observed side decides which
        // properties are concerned, too.
        macro_rules! wrong {
            ($want:expr, $props:expr) => {{
                let mut p: Vec<&'static str> = $props;
                match o.evs.get(ei) {
                    Some(Ev::Ovf { .. }) => p = vec!["C07"],
                    Some(Ev::Syn { .. }) | Some(Ev::PFail { .. }) => p.push(errp),
                    None => {
                        if let Ret::Err(_) = o.ret {
                            if !gx.g.has_ovf && lim != 0 {
                                p.push("C07");
                            }
                            p.push("C04");
                        }
                    }
                    _ => (),
                }
                if let Some(Ev::Ovf { .. }) = o.evs.get(ei) {
                    miss!(1, MK::Overflow, p, "expected {}, observed {}", $want, evname(o.evs.get(ei), &o.ret));
                }
                miss!(1, MK::Step, p, "expected {}, observed {}", $want, evname(o.evs.get(ei), &o.ret));
            }};
        }
        // Overflow of the push of `val`; never returns.
        macro_rules! overflow {
            ($tokd:expr, $c:expr) => {{
                let want: Option<&TokD> = $tokd;
                if gx.g.has_ovf {
                    let Some(Ev::Ovf { tok: got, out }) = o.evs.get(ei) else {
                        miss!(1, MK::Overflow, vec!["C07"], "expected %stack_overflow ({lim} entries), observed {}", evname(o.evs.get(ei), &o.ret));
                    };
                    if got.as_ref() != want {
                        miss!(2, MK::Overflow, vec!["C07"], "%stack_overflow got token {got:?}, should be {want:?}");
                    }
                    let out = out.clone();
                    ei += 1;
                    cov.overflows += 1;
                    match out {
                        Out::Err(code) => return self.finish(gx, Fin::Fail(code, true, $c), ei, o, oks, misses, defaulted, cov, false),
                        _ => return self.finish(gx, Fin::Panicked($c), ei, o, oks, misses, defaulted, cov, false),
                    }
                } else {
                    cov.overflows += 1;
                    return self.finish(gx, Fin::Fail(0, false, $c), ei, o, oks, misses, defaulted, cov, false);
                }
            }};
        }
        loop {
            *steps += 1;
            if *steps > 2_000_000 {
                return;
            }
            let st = self.node(c.top).st as usize;
            let (act, via) = match force.take() {
                Some(r) => (A::Reduce(r), Via::Nothing),
                None => gx.t.lookup(&gx.x, st, t),
            };
            let kind = match act {
                A::Shift(_) => 1u64,
                A::Reduce(_) => 2,
                A::Error => 3,
                A::None => 4,
            };
            cov.seen.insert(mix(mix(gx.g.layout, (st * 1024 + t) as u64), kind * 8 + via as u64));
            match act {
                A::Shift(to) => {
                    cov.shifts += 1;
                    match via {
                        Via::Fallback => cov.via_fb += 1,
                        Via::Wildcard => cov.via_wild += 1,
                        _ => (),
                    }
                    let Some(tk) = tok else {
                        miss!(0, MK::Step, vec!["C12"], "model: end of input cannot be shifted");
                    };
                    if lim != 0 && self.node(c.top).depth as usize >= lim {
                        overflow!(Some(tk), c);
                    }
                    if o.push_panic && ei == o.evs.len() {
                        self.finish(gx, Fin::Panicked(c), ei, o, oks, misses, defaulted, cov, false);
                    }
                    if self.had_error && c.ec > 0 {
                        cov.recovered_shift += 1;
                    }
                    let val = if tk.unit { vec![] } else { tk.atoms.clone() };
                    let top = self.push(c.top, to, &val, false);
                    c = Conf { top, ec: c.ec.saturating_sub(1) };
                    return self.finish(gx, Fin::Tok(c), ei, o, oks, misses, defaulted, cov, false);
                }
                A::Reduce(r) => {
                    cov.reduces += 1;
                    let rule = &gx.x.rules[r];
                    let n = rule.rhs.len();
                    let mut vals = Vec::with_capacity(n);
                    let mut top = c.top;
                    for _ in 0..n {
                        let nd = self.node(top).clone();
                        vals.push(self.val(&nd));
                        top = nd.parent;
                    }
                    vals.reverse();
                    let nc = Conf { top, ec: c.ec };
                    let newval: Vec<Atom> = match rule.kind {
                        Kind::Silent => vec![],
                        Kind::Forward(p) => vals[p].clone(),
                        Kind::OptNone => vec![NONE],
                        Kind::OptSome => {
                            let mut v = vec![SOME];
                            if rule.untyped[0] || vals[0].is_empty() {
                                v.push(UNIT);
                            } else {
                                v.extend(&vals[0]);
                            }
                            v
                        }
                        Kind::Code(id) => {
                            let want_args: Vec<(usize, Vec<Atom>)> = (0..n)
                                .filter(|i| rule.alias[*i])
                                .map(|i| (i, if rule.untyped[i] || vals[i].is_empty() { vec![UNIT] } else { vals[i].clone() }))
                                .collect();
                            let mut props = self.ctxprops(gx, &[]);
                            match o.evs.get(ei) {
                                Some(Ev::Act { rule: got, args, new, out }) if *got == id => {
                                    if *args != want_args {
                                        let mut p = vec!["C10"];
                                        if gx.g.has_fb() {
                                            p.push("C09");
                                        }
                                        if gx.err_rules[id] {
                                            p.push("C05");
                                        }
                                        if args.iter().any(|a| a.1.iter().any(|x| *x >= 1_000_000_000)) {
                                            p.push("C03");
                                        }
                                        let _ = props.pop();
                                        miss!(2, MK::Args, p, "action of rule {id} got {args:?}, should be {want_args:?}");
                                    }
                                    cov.args_checked += args.len() as u64;
                                    cov.opt_args += args.iter().filter(|a| matches!(a.1.first(), Some(&NONE) | Some(&SOME))).count() as u64;
                                    let (new, out) = (new.clone(), out.clone());
                                    ei += 1;
                                    match out {
                                        Out::Ok => {
                                            if new == [UNIT] { vec![] } else { new }
                                        }
                                        Out::Err(code) => return self.finish(gx, Fin::Fail(code, true, nc), ei, o, oks, misses, defaulted, cov, false),
                                        Out::Panic => return self.finish(gx, Fin::Panicked(nc), ei, o, oks, misses, defaulted, cov, false),
                                    }
                                }
                                _ => {
                                    if via == Via::Nothing {
                                        return; // only a possibility
                                    }
                                    wrong!(format!("action of rule {id}"), props)
                                }
                            }
                        }
                    };
                    if rule.lhs == gx.x.start && self.node(top).parent == NIL {
                        return self.finish(gx, Fin::Accept(newval), ei, o, oks, misses, defaulted, cov, false);
                    }
                    let Some(&to) = gx.t.goto[self.node(top).st as usize].get(&rule.lhs) else {
                        miss!(0, MK::Step, vec!["C01"], "model: no goto");
                    };
                    if lim != 0 && self.node(top).depth as usize >= lim {
                        overflow!(None, nc);
                    }
                    if o.push_panic && ei == o.evs.len() {
                        self.finish(gx, Fin::Panicked(nc), ei, o, oks, misses, defaulted, cov, false);
                    }
                    let top = self.push(top, to, &newval, false);
                    c = Conf { top, ec: c.ec };
                    continue;
                }
                A::None | A::Error => {
                    if act == A::None {
                        // Any rule that is complete here may be reduced before the error shows.
                        for r in &gx.t.dflt[st] {
                            let save = (c, ei);
                            // re-enter with the reduction forced: done through a nested walk
                            self.walk_default(gx, t, tok, o, save.0, save.1, *r, work, oks, misses, cov, memo, steps);
                        }
                    }
                    defaulted = true;
                    let had = self.had_error;
                    let _ = had;
                    let mut props = vec![errp];
                    if !self.had_error {
                        props.push("C01");
                    }
                    if gx.g.has_fb() {
                        props.push("C09");
                    }
                    if t == 0 {
                        if gx.g.has_pfail {
                            match o.evs.get(ei) {
                                Some(Ev::PFail { out }) => {
                                    let out = out.clone();
                                    ei += 1;
                                    cov.pfails += 1;
                                    let e = Conf { top: NIL, ec: 0 };
                                    match out {
                                        Out::Err(code) => return self.finish(gx, Fin::Fail(code, true, e), ei, o, oks, misses, defaulted, cov, true),
                                        _ => return self.finish(gx, Fin::Panicked(e), ei, o, oks, misses, defaulted, cov, true),
                                    }
                                }
                                _ => wrong!("%parse_fail", props),
                            }
                        }
                        cov.pfails += 1;
                        return self.finish(gx, Fin::Fail(0, false, Conf { top: NIL, ec: 0 }), ei, o, oks, misses, defaulted, cov, true);
                    }
                    let tk = tok.unwrap();
                    let exp_state = st;
                    if gx.x.err.is_none() {
                        if c.ec == 0 {
                            // reported
                            if !gx.g.has_syn {
                                return self.finish(gx, Fin::Fail(0, false, c), ei, o, oks, misses, defaulted, cov, true);
                            }
                            match o.evs.get(ei) {
                                Some(Ev::Syn { out, .. }) => {
                                    if let Some(m) = self.check_syn(gx, exp_state, tk, &o.evs[ei], ei, cov, memo) {
                                        misses.push(m);
                                        return;
                                    }
                                    let out = out.clone();
                                    ei += 1;
                                    cov.syn_calls += 1;
                                    match out {
                                        Out::Ok => (),
                                        Out::Err(code) => return self.finish(gx, Fin::Fail(code, true, c), ei, o, oks, misses, defaulted, cov, true),
                                        Out::Panic => return self.finish(gx, Fin::Panicked(c), ei, o, oks, misses, defaulted, cov, true),
                                    }
                                }
                                _ => wrong!(format!("%syntax_error for token {t}"), props),
                            }
                        } else {
                            cov.rationed += 1;
                        }
                        c.ec = 3;
                        return self.finish(gx, Fin::Tok(c), ei, o, oks, misses, defaulted, cov, true);
                    }
                    // With error rules
                    let en = gx.x.err.unwrap();
                    let mut top = c.top;
                    loop {
                        if top == NIL {
                            break;
                        }
                        if self.node(top).err {
                            c = Conf { top, ec: 3 };
                            return self.finish(gx, Fin::Tok(c), ei, o, oks, misses, defaulted, cov, true);
                        }
                        let s = self.node(top).st as usize;
                        if let Some(&to) = gx.t.goto[s].get(&en) {
                            if !gx.g.has_syn {
                                return self.finish(gx, Fin::Fail(0, false, Conf { top, ec: c.ec }), ei, o, oks, misses, defaulted, cov, true);
                            }
                            let new = match o.evs.get(ei) {
                                Some(Ev::Syn { out, new, .. }) => {
                                    if let Some(m) = self.check_syn(gx, exp_state, tk, &o.evs[ei], ei, cov, memo) {
                                        misses.push(m);
                                        return;
                                    }
                                    let (out, new) = (out.clone(), new.clone());
                                    ei += 1;
                                    cov.syn_calls += 1;
                                    let rc = Conf { top, ec: c.ec };
                                    match out {
                                        Out::Ok => new,
                                        Out::Err(code) => return self.finish(gx, Fin::Fail(code, true, rc), ei, o, oks, misses, defaulted, cov, true),
                                        Out::Panic => return self.finish(gx, Fin::Panicked(rc), ei, o, oks, misses, defaulted, cov, true),
                                    }
                                }
                                _ => wrong!(format!("%syntax_error for token {t}"), props),
                            };
                            let rc = Conf { top, ec: c.ec };
                            if lim != 0 && self.node(top).depth as usize >= lim {
                                overflow!(None, rc);
                            }
                            if o.push_panic && ei == o.evs.len() {
                                self.finish(gx, Fin::Panicked(rc), ei, o, oks, misses, defaulted, cov, true);
                            }
                            let v = if new == [UNIT] { vec![] } else { new };
                            let top = self.push(top, to, &v, true);
                            return self.finish(gx, Fin::Tok(Conf { top, ec: 3 }), ei, o, oks, misses, defaulted, cov, true);
                        }
                        top = self.node(top).parent;
                    }
                    let e = Conf { top: NIL, ec: 0 };
                    if gx.g.has_pfail {
                        match o.evs.get(ei) {
                            Some(Ev::PFail { out }) => {
                                let out = out.clone();
                                ei += 1;
                                cov.pfails += 1;
                                match out {
                                    Out::Err(code) => return self.finish(gx, Fin::Fail(code, true, e), ei, o, oks, misses, defaulted, cov, true),
                                    _ => return self.finish(gx, Fin::Panicked(e), ei, o, oks, misses, defaulted, cov, true),
                                }
                            }
                            _ => wrong!("%parse_fail", props),
                        }
                    }
                    return self.finish(gx, Fin::Fail(0, false, e), ei, o, oks, misses, defaulted, cov, true);
                }
            }
        }
    }

    /// One default reduction, then the token is looked up again.
    #[allow(clippy::too_many_arguments)]
    fn walk_default(
        &mut self,
        gx: &Gx,
        _t: usize,
        _tok: Option<&TokD>,
        o: &Obs,
        c: Conf,
        mut ei: usize,
        r: usize,
        work: &mut Vec<(Conf, usize, bool)>,
        oks: &mut Vec<(Fin, bool)>,
        misses: &mut Vec<Miss>,
        cov: &mut Cover,
        _memo: &mut HashMap<(u32, u32), Vec<String>>,
        steps: &mut usize,
    ) {
        *steps += 1;
        let lim = gx.g.stack_limit();
        let rule = &gx.x.rules[r];
        let n = rule.rhs.len();
        let mut vals = Vec::with_capacity(n);
        let mut top = c.top;
        for _ in 0..n {
            let nd = self.node(top).clone();
            vals.push(self.val(&nd));
            top = nd.parent;
        }
        vals.reverse();
        let nc = Conf { top, ec: c.ec };
        let newval: Vec<Atom> = match rule.kind {
            Kind::Silent => vec![],
            Kind::Forward(p) => vals[p].clone(),
            Kind::OptNone => vec![NONE],
            Kind::OptSome => {
                let mut v = vec![SOME];
                if rule.untyped[0] || vals[0].is_empty() {
                    v.push(UNIT);
                } else {
                    v.extend(&vals[0]);
                }
                v
            }
            Kind::Code(id) => match o.evs.get(ei) {
                Some(Ev::Act { rule: got, args, new, out }) if *got == id => {
                    let want: Vec<(usize, Vec<Atom>)> =
                        (0..n).filter(|i| rule.alias[*i]).map(|i| (i, if rule.untyped[i] || vals[i].is_empty() { vec![UNIT] } else { vals[i].clone() })).collect();
                    if *args != want {
                        misses.push(Miss {
                            rank: (ei, 2),
                            kind: MK::Args,
                            detail: format!("action of rule {id} got {args:?}, should be {want:?}"),
                            props: vec!["C10"],
                        });
                        return;
                    }
                    let (new, out) = (new.clone(), out.clone());
                    ei += 1;
                    match out {
                        Out::Ok => {
                            if new == [UNIT] { vec![] } else { new }
                        }
                        Out::Err(code) => return self.finish(gx, Fin::Fail(code, true, nc), ei, o, oks, misses, true, cov, false),
                        Out::Panic => return self.finish(gx, Fin::Panicked(nc), ei, o, oks, misses, true, cov, false),
                    }
                }
                _ => return,
            },
        };
        let Some(&to) = gx.t.goto[self.node(top).st as usize].get(&rule.lhs) else { return };
        if lim != 0 && self.node(top).depth as usize >= lim {
            if gx.g.has_ovf {
                if let Some(Ev::Ovf { tok: None, out }) = o.evs.get(ei) {
                    let out = out.clone();
                    ei += 1;
                    cov.overflows += 1;
                    match out {
                        Out::Err(code) => self.finish(gx, Fin::Fail(code, true, nc), ei, o, oks, misses, true, cov, false),
                        _ => self.finish(gx, Fin::Panicked(nc), ei, o, oks, misses, true, cov, false),
                    }
                }
            } else {
                self.finish(gx, Fin::Fail(0, false, nc), ei, o, oks, misses, true, cov, false);
            }
            return;
        }
        if o.push_panic && ei == o.evs.len() {
            self.finish(gx, Fin::Panicked(nc), ei, o, oks, misses, true, cov, false);
        }
        let top = self.push(top, to, &newval, false);
        work.push((Conf { top, ec: c.ec }, ei, true));
    }

    #[allow(clippy::too_many_arguments)]
    fn check_syn(&self, gx: &Gx, st: usize, tk: &TokD, e: &Ev, ei: usize, cov: &mut Cover, memo: &mut HashMap<(u32, u32), Vec<String>>) -> Option<Miss> {
        let Ev::Syn { tok, exp, part, rest, .. } = e else { return None };
        let errp: &'static str = if gx.g.err_sym.is_some() { "C05" } else { "C06" };
        if tok.as_ref() != Some(tk) {
            let mut props = vec![errp];
            if gx.g.has_fb() {
                props.push("C09");
            }
            return Some(Miss { rank: (ei, 3), kind: MK::SynTok, detail: format!("%syntax_error got token {tok:?}, should be {tk:?}"), props });
        }
        let want = Self::expected(gx, st);
        let names: Vec<&str> = exp.iter().map(|x| x.0.as_str()).collect();
        let fail = |d: String| Some(Miss { rank: (ei, 4), kind: MK::Expected, detail: d, props: vec!["C08"] });
        let wantn: BTreeSet<&str> = want.iter().map(|t| gx.g.terms[*t].0.as_str()).collect();
        let gotn: BTreeSet<&str> = names.iter().copied().collect();
        if gotn != wantn || gotn.len() != names.len() {
            return fail(format!("expected tokens {names:?}, should be {wantn:?} (offending token {})", gx.g.terms[tk.kind].0));
        }
        for (n, _, v) in exp {
            let k = gx.g.terms.iter().position(|x| x.0 == *n).unwrap();
            let w = if gx.term_unit[k] { Some(TokD::unit(k)) } else { None };
            if *v != w {
                return fail(format!("expected token {n} comes with value {v:?}, should be {w:?}"));
            }
        }
        let part_ok = part.as_deref() == names.first().copied() && rest.iter().map(|s| s.as_str()).eq(names.iter().skip(1).copied());
        if !part_ok {
            return fail(format!("a second look at the expected tokens gave {part:?} {rest:?}, the first {names:?}"));
        }
        // same state, same order
        let key = (gx.g.layout as u32 ^ crate::rng::hash_str(&gx.g.name) as u32, st as u32);
        let o: Vec<String> = exp.iter().map(|x| format!("{}#{}", x.0, x.1)).collect();
        match memo.get(&key) {
            Some(p) if *p != o => return fail(format!("expected tokens listed as {o:?}, before as {p:?}")),
            Some(_) => (),
            None => {
                memo.insert(key, o);
            }
        }
        cov.expected_checked += 1;
        None
    }

    #[allow(clippy::too_many_arguments)]
    fn finish(&mut self, gx: &Gx, f: Fin, ei: usize, o: &Obs, oks: &mut Vec<(Fin, bool)>, misses: &mut Vec<Miss>, defaulted: bool, cov: &mut Cover, errored: bool) {
        let errp: &'static str = if gx.g.err_sym.is_some() { "C05" } else { "C06" };
        let mut m = |stage: u8, kind: MK, props: Vec<&'static str>, detail: String| misses.push(Miss { rank: (ei, stage), kind, detail, props });
        if ei < o.evs.len() {
            let e = &o.evs[ei];
            let (kind, props) = match e {
                Ev::Ovf { .. } => (MK::Overflow, vec!["C07"]),
                Ev::Act { .. } => match &f {
                    Fin::Fail(_, true, _) | Fin::Panicked(_) => (MK::AfterFail, vec!["C04"]),
                    _ => {
                        let mut p = self.ctxprops(gx, &[]);
                        if defaulted {
                            p.push(errp);
                        }
                        (MK::Step, p)
                    }
                },
                Ev::Syn { .. } => match &f {
                    Fin::Fail(_, true, _) | Fin::Panicked(_) => (MK::AfterFail, vec!["C04"]),
                    _ => {
                        let mut p = self.ctxprops(gx, &[]);
                        p.push(errp);
                        (MK::Step, p)
                    }
                },
                Ev::PFail { .. } => match &f {
                    Fin::Fail(_, true, _) | Fin::Panicked(_) => (MK::AfterFail, vec!["C04"]),
                    _ => {
                        let mut p = self.ctxprops(gx, &[]);
                        p.push(errp);
                        (MK::Step, p)
                    }
                },
            };
            m(1, kind, props, format!("expected {}, observed {}", finname(&f), evname(Some(e), &o.ret)));
            return;
        }
        let code_matters = gx.g.err_ty;
        let mut props: Vec<&'static str> = Vec::new();
        let ok = match (&f, &o.ret) {
            (Fin::Tok(_), Ret::Ok) => true,
            (Fin::Accept(v), Ret::End(w, _)) => {
                let v: Vec<Atom> = if v.is_empty() { vec![UNIT] } else { v.clone() };
                if v != *w {
                    m(5, MK::Accept, vec!["C10"], format!("end_of_input gave {w:?}, should be {v:?}"));
                    return;
                }
                true
            }
            (Fin::Fail(c, hook, _), Ret::Err(d)) => {
                if code_matters && c != d {
                    m(5, MK::RetCode, vec!["C04"], format!("the error returned is number {d}, should be {c} (from user code: {hook})"));
                    return;
                }
                true
            }
            (Fin::Panicked(_), Ret::Panic(PanicKind::Injected)) => true,
            _ => false,
        };
        if !ok {
            match &f {
                Fin::Tok(_) | Fin::Accept(_) => {
                    props = self.ctxprops(gx, &[]);
                    if errored || defaulted {
                        props.push(errp);
                    }
                    if let Ret::Err(_) = o.ret {
                        props.push("C04");
                        if !gx.g.has_ovf {
                            props.push("C07");
                        }
                    }
                }
                Fin::Fail(_, hook, _) => {
                    props.push("C04");
                    if !hook {
                        props.extend(self.ctxprops(gx, &[]));
                        props.push(errp);
                        if !gx.g.has_ovf && !errored {
                            props.push("C07");
                        }
                    }
                    if errored {
                        props.push(errp);
                    }
                }
                Fin::Panicked(_) => props.extend(["C04", "C12"]),
            }
            m(3, MK::Step, props, format!("expected {}, observed return {:?}", finname(&f), o.ret));
            return;
        }
        // values alive
        cov.live_checks += 1;
        let (ch, cn) = match self.ctx {
            Some(c) if o.call != Call::End => (mix(c.id as u64, 77), 1),
            _ => (0, 0),
        };
        match &f {
            _ if o.call == Call::End => {
                if o.live_n != 0 {
                    m(6, MK::Live, vec!["C02"], format!("{} values left after end_of_input: {:?}", o.live_n, o.live));
                    return;
                }
            }
            Fin::Tok(c) => {
                let n = self.node(c.top);
                if n.live ^ ch != o.live_hash || n.cnt + cn != o.live_n as u32 {
                    let r = self.remaining(*c);
                    let l: HashSet<Atom> = o.live.iter().flatten().copied().collect();
                    let mut more: Vec<_> = l.difference(&r).collect();
                    let mut less: Vec<_> = r.difference(&l).collect();
                    more.sort();
                    less.sort();
                    let d = if o.live.is_some() {
                        format!("values kept that should be gone: {more:?}; values lost: {less:?}")
                    } else {
                        format!("{} values alive, should be {}", o.live_n, n.cnt + cn)
                    };
                    m(6, MK::Live, vec!["C02"], d);
                    return;
                }
            }
            Fin::Accept(_) => (),
            Fin::Fail(_, _, c) | Fin::Panicked(c) => {
                if let Some(l) = &o.live {
                    let r = self.remaining(*c);
                    let more: Vec<_> = l.iter().filter(|x| !r.contains(x)).collect();
                    if !more.is_empty() {
                        m(6, MK::Live, vec!["C02"], format!("values kept after a failure that should be gone: {more:?}"));
                        return;
                    }
                    if let Some(c) = self.ctx {
                        if !l.contains(&c.id) {
                            m(6, MK::Ctx, vec!["C13", "C02"], "the extra argument is gone".into());
                            return;
                        }
                    }
                }
            }
        }
        oks.push((f, errored));
    }
}

fn finname(f: &Fin) -> String {
    match f {
        Fin::Tok(_) => "parse() to return Ok".into(),
        Fin::Accept(v) => format!("acceptance with value {v:?}"),
        Fin::Fail(c, h, _) => format!("failure with error {c}{}", if *h { " (from user code)" } else { " (default)" }),
        Fin::Panicked(_) => "the injected panic to come through".into(),
    }
}
