//! Reference parser tables, built from the textbook definition of LALR(1): LR(0) item sets
//! plus lookahead sets grown to a fixpoint. The documented conflict policy is applied and any
//! grammar that it does not settle is refused, as the documentation says.

use crate::ir::{Assoc, XG, XS};
use crate::json::J;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum A {
    None,
    Shift(usize),
    Reduce(usize),
    /// An explicit error (%nonassoc)
    Error,
}

#[derive(Clone, Debug)]
pub struct Tab {
    pub act: Vec<Vec<A>>,
    pub goto: Vec<HashMap<usize, usize>>,
    /// Rules that may be reduced in the state for some token, other than start rules.
    pub dflt: Vec<Vec<usize>>,
    pub prec_used: bool,
    pub nonassoc_used: bool,
}

type Set = Vec<u64>;
fn or(a: &mut Set, b: &Set) -> bool {
    let mut ch = false;
    for (x, y) in a.iter_mut().zip(b) {
        let n = *x | *y;
        ch |= n != *x;
        *x = n;
    }
    ch
}
fn put(a: &mut Set, i: usize) -> bool {
    let o = a[i / 64];
    a[i / 64] |= 1 << (i % 64);
    a[i / 64] != o
}
fn has(a: &Set, i: usize) -> bool {
    a[i / 64] & (1 << (i % 64)) != 0
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Reject {
    StartOnRhs,
    NoRules(String),
    Conflict(String),
    /// Two conflicts on one token: the documentation does not say what happens.
    Unclear(String),
    Unreduced(usize),
    TooBig,
}

/// The automaton before any conflict is settled.
pub struct Auto {
    /// All items of each state, as rule and dot.
    pub items: Vec<Vec<(usize, usize)>>,
    pub shifts: Vec<Vec<Vec<usize>>>,
    pub reds: Vec<Vec<Vec<usize>>>,
    pub goto: Vec<HashMap<usize, usize>>,
}

pub fn automaton(x: &XG, max_states: usize) -> Result<Auto, Reject> {
    let nn = x.nts.len();
    let nt = x.nterm;
    let w = nt.div_ceil(64);
    let mut by_lhs = vec![Vec::new(); nn];
    for (i, r) in x.rules.iter().enumerate() {
        by_lhs[r.lhs].push(i);
        if r.rhs.contains(&XS::N(x.start)) {
            return Err(Reject::StartOnRhs);
        }
    }
    for r in &x.rules {
        for s in &r.rhs {
            if let XS::N(n) = s {
                if by_lhs[*n].is_empty() && Some(*n) != x.err {
                    return Err(Reject::NoRules(x.nts[*n].clone()));
                }
            }
        }
    }
    if by_lhs[x.start].is_empty() {
        return Err(Reject::NoRules(x.nts[x.start].clone()));
    }
    // nullable and FIRST
    let mut nullable = vec![false; nn];
    let mut first: Vec<Set> = vec![vec![0; w]; nn];
    loop {
        let mut ch = false;
        for r in &x.rules {
            let mut all = true;
            for s in &r.rhs {
                match s {
                    XS::T(t) => {
                        ch |= put(&mut first[r.lhs], *t);
                        all = false;
                    }
                    XS::C(c) => {
                        for t in &x.classes[*c] {
                            ch |= put(&mut first[r.lhs], *t);
                        }
                        all = false;
                    }
                    XS::N(n) => {
                        let f = first[*n].clone();
                        ch |= or(&mut first[r.lhs], &f);
                        all = nullable[*n];
                    }
                }
                if !all {
                    break;
                }
            }
            if all && !nullable[r.lhs] {
                nullable[r.lhs] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // LR(0) sets of items
    type It = (usize, usize);
    let closure = |k: &[It]| -> Vec<It> {
        let mut v: Vec<It> = k.to_vec();
        let mut done = vec![false; nn];
        let mut i = 0;
        while i < v.len() {
            let (r, d) = v[i];
            if let Some(XS::N(n)) = x.rules[r].rhs.get(d) {
                if !done[*n] {
                    done[*n] = true;
                    for q in &by_lhs[*n] {
                        if !v.contains(&(*q, 0)) {
                            v.push((*q, 0));
                        }
                    }
                }
            }
            i += 1;
        }
        v
    };
    let k0: Vec<It> = by_lhs[x.start].iter().map(|r| (*r, 0)).collect();
    let mut index: HashMap<Vec<It>, usize> = HashMap::new();
    let mut kern = vec![k0.clone()];
    index.insert(k0, 0);
    let mut clo: Vec<Vec<It>> = Vec::new();
    let mut trans: Vec<BTreeMap<XS, usize>> = Vec::new();
    let mut i = 0;
    while i < kern.len() {
        if kern.len() > max_states {
            return Err(Reject::TooBig);
        }
        let c = closure(&kern[i]);
        let mut m: BTreeMap<XS, Vec<It>> = BTreeMap::new();
        for &(r, d) in &c {
            if let Some(s) = x.rules[r].rhs.get(d) {
                m.entry(*s).or_default().push((r, d + 1));
            }
        }
        let mut tr = BTreeMap::new();
        for (s, mut k) in m {
            k.sort();
            k.dedup();
            let n = kern.len();
            let id = *index.entry(k.clone()).or_insert(n);
            if id == n {
                kern.push(k);
            }
            tr.insert(s, id);
        }
        clo.push(c);
        trans.push(tr);
        i += 1;
    }
    let ns = kern.len();
    // Lookaheads
    let mut la: Vec<Vec<Set>> = clo.iter().map(|c| vec![vec![0; w]; c.len()]).collect();
    let pos: Vec<HashMap<It, usize>> =
        clo.iter().map(|c| c.iter().enumerate().map(|(i, it)| (*it, i)).collect()).collect();
    for (i, _) in kern[0].iter().enumerate() {
        put(&mut la[0][i], 0);
    }
    let mut dirty = vec![true; ns];
    loop {
        let mut any = false;
        for s in 0..ns {
            if !dirty[s] {
                continue;
            }
            dirty[s] = false;
            any = true;
            loop {
                let mut ch = false;
                for i in 0..clo[s].len() {
                    let (r, d) = clo[s][i];
                    let Some(XS::N(n)) = x.rules[r].rhs.get(d) else { continue };
                    let mut f: Set = vec![0; w];
                    let mut all = true;
                    for q in &x.rules[r].rhs[d + 1..] {
                        match q {
                            XS::T(t) => {
                                put(&mut f, *t);
                                all = false;
                            }
                            XS::C(c) => {
                                for t in &x.classes[*c] {
                                    put(&mut f, *t);
                                }
                                all = false;
                            }
                            XS::N(m) => {
                                or(&mut f, &first[*m]);
                                all = nullable[*m];
                            }
                        }
                        if !all {
                            break;
                        }
                    }
                    if all {
                        let l = la[s][i].clone();
                        or(&mut f, &l);
                    }
                    for q in &by_lhs[*n] {
                        let j = pos[s][&(*q, 0)];
                        ch |= or(&mut la[s][j], &f);
                    }
                }
                if !ch {
                    break;
                }
            }
            for i in 0..clo[s].len() {
                let (r, d) = clo[s][i];
                if let Some(q) = x.rules[r].rhs.get(d) {
                    let t = trans[s][q];
                    let j = pos[t][&(r, d + 1)];
                    let l = la[s][i].clone();
                    if or(&mut la[t][j], &l) {
                        dirty[t] = true;
                    }
                }
            }
        }
        if !any {
            break;
        }
    }
    let mut au = Auto { items: Vec::new(), shifts: Vec::new(), reds: Vec::new(), goto: vec![HashMap::new(); ns] };
    for s in 0..ns {
        let mut shifts: Vec<Vec<usize>> = vec![Vec::new(); nt];
        for (q, t) in &trans[s] {
            match q {
                XS::T(k) => shifts[*k].push(*t),
                XS::C(c) => {
                    for k in &x.classes[*c] {
                        shifts[*k].push(*t);
                    }
                }
                XS::N(n) => {
                    au.goto[s].insert(*n, *t);
                }
            }
        }
        let mut reds: Vec<Vec<usize>> = vec![Vec::new(); nt];
        for (i, &(r, d)) in clo[s].iter().enumerate() {
            if d == x.rules[r].rhs.len() {
                for (k, v) in reds.iter_mut().enumerate() {
                    if has(&la[s][i], k) {
                        v.push(r);
                    }
                }
            }
        }
        au.shifts.push(shifts);
        au.reds.push(reds);
    }
    au.items = clo;
    Ok(au)
}

/// What the documented rules make of the shifts and reductions possible on one token. Whether
/// precedence and %nonassoc are needed for that is left in `used`.
pub fn cell(x: &XG, s: usize, k: usize, shifts: &[usize], reds: &[usize], used: &mut (bool, bool)) -> Result<A, Reject> {
    let what = || format!("state {s}, token {k}");
    Ok(match (shifts, reds) {
        ([], []) => A::None,
        ([t], []) => A::Shift(*t),
        ([], [r]) => A::Reduce(*r),
        ([t], [r]) => {
            used.0 = true;
            match (x.prec[k], x.rules[*r].prec) {
                (Some(p), Some(q)) if p.0 > q.0 => A::Shift(*t),
                (Some(p), Some(q)) if p.0 < q.0 => A::Reduce(*r),
                (Some(p), Some(_)) => match p.1 {
                    Assoc::Left => A::Reduce(*r),
                    Assoc::Right => A::Shift(*t),
                    Assoc::Non => {
                        used.1 = true;
                        A::Error
                    }
                },
                _ => return Err(Reject::Conflict(what())),
            }
        }
        ([], [a, b]) => {
            used.0 = true;
            match (x.rules[*a].prec, x.rules[*b].prec) {
                (Some(p), Some(q)) if p.0 > q.0 => A::Reduce(*a),
                (Some(p), Some(q)) if p.0 < q.0 => A::Reduce(*b),
                _ => return Err(Reject::Conflict(what())),
            }
        }
        (sh, _) if sh.len() > 1 => return Err(Reject::Conflict(what())),
        (sh, rs) => {
            // Every two of them are in conflict. If each of these is settled, there
            // is one that wins over all the others.
            used.0 = true;
            let mut ps = Vec::new();
            for r in rs {
                match x.rules[*r].prec {
                    Some(p) => ps.push((p.0, *r)),
                    None => return Err(Reject::Conflict(what())),
                }
            }
            ps.sort();
            let top = *ps.last().unwrap();
            let tie = ps.windows(2).any(|w| w[0].0 == w[1].0);
            match sh.first() {
                None if tie => return Err(if ps[ps.len() - 2].0 == top.0 { Reject::Conflict(what()) } else { Reject::Unclear(what()) }),
                None => A::Reduce(top.1),
                Some(t) => match x.prec[k] {
                    None => return Err(Reject::Conflict(what())),
                    _ if tie => return Err(Reject::Unclear(what())),
                    Some(p) if p.0 > top.0 => A::Shift(*t),
                    Some(p) if p.0 < top.0 => A::Reduce(top.1),
                    Some(p) => match p.1 {
                        Assoc::Left => A::Reduce(top.1),
                        Assoc::Right => A::Shift(*t),
                        Assoc::Non => {
                            used.1 = true;
                            A::Error
                        }
                    },
                },
            }
        }
    })
}

pub fn build(x: &XG, max_states: usize) -> Result<Tab, Reject> {
    settle(x, automaton(x, max_states)?)
}

fn settle(x: &XG, au: Auto) -> Result<Tab, Reject> {
    let nt = x.nterm;
    let ns = au.items.len();
    let Auto { shifts, reds, goto, .. } = au;
    let mut tab = Tab { act: vec![vec![A::None; nt]; ns], goto, dflt: vec![vec![]; ns], prec_used: false, nonassoc_used: false };
    for s in 0..ns {
        let (shifts, reds) = (&shifts[s], &reds[s]);
        for k in 0..nt {
            let mut f = (false, false);
            tab.act[s][k] = cell(x, s, k, &shifts[k], &reds[k], &mut f)?;
            tab.prec_used |= f.0;
            tab.nonassoc_used |= f.1;
        }
    }
    let mut used = vec![false; x.rules.len()];
    for s in 0..ns {
        for k in 0..nt {
            if let A::Reduce(r) = tab.act[s][k] {
                used[r] = true;
                if x.rules[r].lhs != x.start && !tab.dflt[s].contains(&r) {
                    tab.dflt[s].push(r);
                }
            }
        }
    }
    if let Some(r) = used.iter().position(|u| !u) {
        return Err(Reject::Unreduced(r));
    }
    Ok(tab)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    Own,
    Fallback,
    Wildcard,
    Nothing,
}

impl Tab {
    pub fn to_json(&self) -> J {
        let act = self.act.iter().map(|r| {
            J::from(r.iter().map(|a| match *a {
                A::None => 0i64,
                A::Error => 1,
                A::Shift(t) => 2 + 2 * t as i64,
                A::Reduce(r) => 3 + 2 * r as i64,
            }).collect::<Vec<i64>>())
        });
        let goto = self.goto.iter().map(|m| {
            let mut v: Vec<(usize, usize)> = m.iter().map(|(a, b)| (*a, *b)).collect();
            v.sort();
            J::from(v.into_iter().flat_map(|x| [x.0, x.1]).collect::<Vec<usize>>())
        });
        crate::obj! {"act" => J::Arr(act.collect()), "goto" => J::Arr(goto.collect()), "dflt" => J::Arr(self.dflt.iter().map(|d| J::from(d.clone())).collect())}
    }
    pub fn from_json(j: &J) -> Tab {
        let act: Vec<Vec<A>> = j.get("act").arr().iter().map(|r| {
            r.arr().iter().map(|a| match a.usize() {
                0 => A::None,
                1 => A::Error,
                n if n % 2 == 0 => A::Shift(n / 2 - 1),
                n => A::Reduce(n / 2 - 1),
            }).collect()
        }).collect();
        let goto = j.get("goto").arr().iter().map(|r| r.arr().chunks(2).map(|c| (c[0].usize(), c[1].usize())).collect()).collect();
        let dflt = j.get("dflt").arr().iter().map(|r| r.arr().iter().map(|x| x.usize()).collect()).collect();
        Tab { act, goto, dflt, prec_used: false, nonassoc_used: false }
    }
    /// What to do with token `t` in state `s`: as itself, else as its fallbacks, else as the
    /// wildcard.
    pub fn lookup(&self, x: &XG, s: usize, t: usize) -> (A, Via) {
        let row = &self.act[s];
        if row[t] != A::None {
            return (row[t], Via::Own);
        }
        if t != 0 {
            let mut c = t;
            let mut n = 0;
            while let Some(f) = x.fallback[c] {
                if row[f] != A::None {
                    return (row[f], Via::Fallback);
                }
                c = f;
                n += 1;
                if n > x.nterm {
                    break;
                }
            }
            if let Some(wc) = x.wildcard {
                if row[wc] != A::None {
                    return (row[wc], Via::Wildcard);
                }
            }
        }
        (A::None, Via::Nothing)
    }
}
