//! Reads the state listing that %verbose prints and that a conflict is reported with, and
//! compares it with the grammar.

use crate::ir::{Gram, XG, XS};
use crate::lalr::{A, Auto, Reject, Tab, cell};
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Note {
    Plain,
    Conflict,
    Dropped,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
    Error,
}
#[derive(Clone, Debug)]
pub struct Item {
    pub lhs: String,
    pub rhs: Vec<String>,
    pub dot: usize,
    /// Printed with complete items.
    pub rule: Option<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct State {
    pub num: usize,
    pub items: Vec<Item>,
    pub acts: Vec<(String, Act, Note)>,
}
#[derive(Clone, Debug, Default)]
pub struct Listing {
    pub states: Vec<State>,
    pub symbols: Vec<String>,
}

/// All listings in a text, in order.
pub fn read(text: &str) -> Result<Vec<Listing>, String> {
    let mut v: Vec<Listing> = Vec::new();
    let mut names = false;
    for l in text.lines() {
        let t = l.trim();
        let bad = || format!("cannot make out {l:?}");
        if t.is_empty() {
            continue;
        }
        if let Some(n) = t.strip_prefix("State ").and_then(|x| x.strip_suffix(':')).and_then(|x| x.parse::<usize>().ok()) {
            if n == 0 {
                v.push(Listing::default());
            }
            names = false;
            v.last_mut().ok_or_else(bad)?.states.push(State { num: n, ..State::default() });
            continue;
        }
        let Some(li) = v.last_mut() else { continue };
        if t.starts_with("----") {
            continue;
        }
        if t == "Symbols:" {
            names = true;
            continue;
        }
        if names {
            match t.split_once(':') {
                Some((n, s)) if n.trim().parse() == Ok(li.symbols.len()) => li.symbols.push(s.trim().to_string()),
                _ => return Err(bad()),
            }
            continue;
        }
        let st = li.states.last_mut().ok_or_else(bad)?;
        if let Some((a, b)) = t.split_once(" ::=") {
            let (rule, lhs) = match a.strip_prefix('(').and_then(|x| x.split_once(") ")) {
                Some((n, x)) => (Some(n.parse().map_err(|_| bad())?), x),
                None => (None, a),
            };
            let mut rhs: Vec<String> = b.split_whitespace().map(|x| x.to_string()).collect();
            let dot = rhs.iter().position(|x| x == "*").ok_or_else(bad)?;
            rhs.remove(dot);
            if rhs.iter().any(|x| x == "*") || rule.is_some() != (dot == rhs.len()) {
                return Err(bad());
            }
            st.items.push(Item { lhs: lhs.trim().to_string(), rhs, dot, rule });
            continue;
        }
        let (t, note) = match (t.strip_suffix("** Parsing conflict **"), t.strip_suffix("-- dropped by precedence")) {
            (Some(x), _) => (x, Note::Conflict),
            (_, Some(x)) => (x, Note::Dropped),
            _ => (t, Note::Plain),
        };
        let w: Vec<&str> = t.split_whitespace().collect();
        let act = match w[1..] {
            ["shift", n] => Act::Shift(n.parse().map_err(|_| bad())?),
            ["reduce", n] => Act::Reduce(n.parse().map_err(|_| bad())?),
            ["accept"] => Act::Accept,
            ["error"] => Act::Error,
            _ => return Err(bad()),
        };
        st.acts.push((w[0].to_string(), act, note));
    }
    Ok(v)
}

/// A listing in the terms of the grammar.
pub struct Read {
    pub items: Vec<BTreeSet<(usize, usize)>>,
    /// Per state and token: what is listed, with rules as those of the grammar.
    pub cells: Vec<Vec<Vec<(Act, Note)>>>,
    pub goto: Vec<HashMap<usize, usize>>,
}

/// How the listing names each symbol; optional ones have generated names and are given as
/// `X?`. `None` if two symbols cannot be told apart by name.
pub struct Names {
    of: HashMap<String, XS>,
    print: HashMap<XS, String>,
    terms: Vec<String>,
    rules: HashMap<(usize, Vec<XS>), usize>,
}
pub fn names(g: &Gram, x: &XG) -> Option<Names> {
    let mut print: HashMap<XS, String> = HashMap::new();
    let terms: Vec<String> = (0..x.nterm).map(|t| if t == 0 { "$".into() } else { g.terms[t].0.clone() }).collect();
    for (t, n) in terms.iter().enumerate() {
        print.insert(XS::T(t), n.clone());
    }
    let opt_of = |n: usize| x.rules.iter().find(|r| r.lhs == n && matches!(r.kind, crate::ir::Kind::OptSome)).map(|r| r.rhs[0]);
    for n in 0..x.nts.len() {
        if Some(n) == x.err {
            print.insert(XS::N(n), "error".into());
        } else if n < g.nts.len() {
            print.insert(XS::N(n), x.nts[n].clone());
        }
    }
    let used: HashSet<XS> = x.rules.iter().flat_map(|r| r.rhs.iter().copied()).collect();
    for (c, m) in x.classes.iter().enumerate() {
        if used.contains(&XS::C(c)) {
            print.insert(XS::C(c), m.iter().map(|t| terms[*t].clone()).collect::<Vec<_>>().join("|"));
        }
    }
    for n in 0..x.nts.len() {
        if !print.contains_key(&XS::N(n)) {
            let s = opt_of(n)?;
            let p = format!("{}?", print.get(&s)?);
            print.insert(XS::N(n), p);
        }
    }
    let mut of = HashMap::new();
    for (s, n) in &print {
        if of.insert(n.clone(), *s).is_some() {
            return None;
        }
    }
    let mut rules = HashMap::new();
    for (i, r) in x.rules.iter().enumerate() {
        if rules.insert((r.lhs, r.rhs.clone()), i).is_some() {
            return None;
        }
    }
    Some(Names { of, print, terms, rules })
}

pub fn resolve(l: &Listing, g: &Gram, x: &XG, nm: &Names) -> Result<Read, String> {
    // generated names
    let mut alias: HashMap<String, String> = HashMap::new();
    for it in l.states.iter().flat_map(|s| &s.items) {
        if it.rhs.len() == 1 && !nm.of.contains_key(&it.lhs) {
            alias.insert(it.lhs.clone(), format!("{}?", it.rhs[0]));
        }
    }
    let sym = |n: &str| -> Result<XS, String> {
        let k = alias.get(n).map_or(n, |s| s.as_str());
        nm.of.get(k).copied().ok_or_else(|| format!("{n:?} is no symbol of the grammar"))
    };
    let _ = g;
    let mut number: HashMap<usize, usize> = HashMap::new();
    let mut items = Vec::new();
    for (i, s) in l.states.iter().enumerate() {
        if s.num != i {
            return Err(format!("state {} is listed as number {i}", s.num));
        }
        let mut set = BTreeSet::new();
        for it in &s.items {
            let XS::N(lhs) = sym(&it.lhs)? else { return Err(format!("{} is no nonterminal", it.lhs)) };
            let rhs = it.rhs.iter().map(|n| sym(n)).collect::<Result<Vec<XS>, String>>()?;
            let r = *nm.rules.get(&(lhs, rhs)).ok_or_else(|| format!("state {i}: no such rule: {} ::= {}", it.lhs, it.rhs.join(" ")))?;
            if let Some(n) = it.rule {
                if *number.entry(n).or_insert(r) != r {
                    return Err(format!("two rules with number {n}"));
                }
            }
            if !set.insert((r, it.dot)) {
                return Err(format!("state {i} lists an item twice: {} ::= {}", it.lhs, it.rhs.join(" ")));
            }
        }
        items.push(set);
    }
    let distinct: HashSet<usize> = number.values().copied().collect();
    if distinct.len() != number.len() {
        return Err("a rule has two numbers".into());
    }
    let mut cells = vec![vec![Vec::new(); x.nterm]; items.len()];
    let mut goto = vec![HashMap::new(); items.len()];
    let mut accepts = 0;
    for (i, s) in l.states.iter().enumerate() {
        for (n, a, note) in &s.acts {
            let a = match *a {
                Act::Reduce(k) => match number.get(&k) {
                    Some(r) if items[i].contains(&(*r, x.rules[*r].rhs.len())) => Act::Reduce(*r),
                    _ => return Err(format!("state {i}, {n}: rule {k} is not complete there")),
                },
                Act::Shift(t) if t >= items.len() => return Err(format!("state {i}, {n}: there is no state {t}")),
                a => a,
            };
            match (sym(n)?, a) {
                (XS::N(k), Act::Accept) if i == 0 && k == x.start => accepts += 1,
                (XS::N(k), Act::Shift(t)) if *note == Note::Plain && goto[i].insert(k, t).is_none() => (),
                (XS::T(k), Act::Shift(_) | Act::Reduce(_) | Act::Error) => cells[i][k].push((a, *note)),
                _ => return Err(format!("state {i}, {n}: {a:?} has no place there")),
            }
        }
    }
    if accepts != 1 {
        return Err("it does not say once where the parse is accepted".into());
    }
    Ok(Read { items, cells, goto })
}

/// Everything wrong with a listing, if anything is. `conflicts` says that it came with the report
/// of a conflict.
pub fn check(l: &Listing, g: &Gram, x: &XG, nm: &Names, au: &Auto, conflicts: bool) -> Option<String> {
    let rd = match resolve(l, g, x, nm) {
        Ok(r) => r,
        Err(e) => return Some(e),
    };
    if rd.items.len() != au.items.len() {
        return Some(format!("{} states are listed, the grammar has {}", rd.items.len(), au.items.len()));
    }
    let mut index: HashMap<BTreeSet<(usize, usize)>, usize> = HashMap::new();
    for (i, s) in au.items.iter().enumerate() {
        index.insert(s.iter().copied().collect(), i);
    }
    // which state of the reference each one is
    let mut to = Vec::new();
    for (i, s) in rd.items.iter().enumerate() {
        match index.remove(s) {
            Some(k) => to.push(k),
            None => return Some(format!("state {i} lists items that no state has, or those of another state")),
        }
    }
    if to[0] != 0 {
        return Some("state 0 is not where a parse starts".into());
    }
    let name = |k: usize| nm.terms[k].as_str();
    let mut marks = 0;
    for i in 0..to.len() {
        let s = to[i];
        let got: HashMap<usize, usize> = rd.goto[i].iter().map(|(n, t)| (*n, to[*t])).collect();
        if got != au.goto[s] {
            let n = (0..x.nts.len()).find(|n| got.get(n) != au.goto[s].get(n)).unwrap();
            return Some(format!("state {i}, {}: the next state is wrong", nm.print.get(&XS::N(n)).map_or("?", |s| s)));
        }
        for k in 0..x.nterm {
            let c = &rd.cells[i][k];
            let mut shifts: Vec<usize> = Vec::new();
            let mut reds: Vec<usize> = Vec::new();
            let mut error = false;
            for (a, _) in c {
                match a {
                    Act::Shift(t) => shifts.push(to[*t]),
                    Act::Reduce(r) => reds.push(*r),
                    _ => error = true,
                }
            }
            let (ws, wr) = (&au.shifts[s][k], &au.reds[s][k]);
            let mut wr = wr.clone();
            let mut ws = ws.clone();
            wr.sort();
            reds.sort();
            ws.sort();
            shifts.sort();
            let mut flags = (false, false);
            let want = cell(x, s, k, &ws, &wr, &mut flags);
            // a shift that %nonassoc turned into an error is listed as that, or not at all if a
            // rule won over it
            let fewer = shifts.len() + 1 == ws.len() && shifts.iter().all(|t| ws.contains(t));
            let lost = fewer && wr.len() > usize::from(!error);
            if reds != wr || shifts != ws && !lost || error && !lost {
                return Some(format!("state {i}, {}: {c:?} is listed, possible are the shifts to {ws:?} and the reductions {wr:?} (states and rules as in the reference)", name(k)));
            }
            let marked = c.iter().any(|a| a.1 == Note::Conflict);
            marks += marked as usize;
            let plain: Vec<A> = c
                .iter()
                .filter(|a| a.1 == Note::Plain)
                .map(|a| match a.0 {
                    Act::Shift(t) => A::Shift(to[t]),
                    Act::Reduce(r) => A::Reduce(r),
                    _ => A::Error,
                })
                .collect();
            match want {
                Ok(A::None) => (),
                Ok(a) => {
                    if marked {
                        return Some(format!("state {i}, {}: called a conflict", name(k)));
                    }
                    if plain != [a] {
                        return Some(format!("state {i}, {}: {c:?} is listed, but what happens is {a:?} (states and rules as in the reference)", name(k)));
                    }
                }
                Err(Reject::Conflict(_)) if ws.len() + wr.len() == 2 && !marked => {
                    return Some(format!("state {i}, {}: there is a conflict, but it is not called one", name(k)));
                }
                Err(_) => (),
            }
        }
    }
    if conflicts && marks == 0 {
        return Some("no conflict is pointed out".into());
    }
    if !conflicts && !l.symbols.is_empty() {
        // with %verbose: the list of symbols
        let have: HashSet<&str> = l.symbols.iter().map(|s| s.as_str()).collect();
        for t in nm.terms.iter().chain(&g.nts.iter().map(|n| n.0.clone()).collect::<Vec<_>>()) {
            if !have.contains(t.as_str()) {
                return Some(format!("{t} is missing in the list of symbols"));
            }
        }
    }
    None
}

/// The tables of the automaton that is listed.
pub fn tables(l: &Listing, g: &Gram, x: &XG, nm: &Names) -> Result<Tab, String> {
    let rd = resolve(l, g, x, nm)?;
    let ns = rd.items.len();
    let mut t = Tab { act: vec![vec![A::None; x.nterm]; ns], goto: rd.goto, dflt: vec![vec![]; ns], prec_used: false, nonassoc_used: false };
    for (s, row) in rd.cells.iter().enumerate() {
        for (k, c) in row.iter().enumerate() {
            let v: Vec<Act> = c.iter().filter(|a| a.1 == Note::Plain).map(|a| a.0).collect();
            t.prec_used |= c.len() > 1;
            t.act[s][k] = match v[..] {
                [] => A::None,
                [Act::Shift(n)] => A::Shift(n),
                [Act::Reduce(r)] => {
                    if x.rules[r].lhs != x.start && !t.dflt[s].contains(&r) {
                        t.dflt[s].push(r);
                    }
                    A::Reduce(r)
                }
                [Act::Error] => {
                    t.nonassoc_used = true;
                    A::Error
                }
                _ => return Err(format!("state {s}, {}: two actions are listed", nm.terms[k])),
            };
        }
    }
    Ok(t)
}
