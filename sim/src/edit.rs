//! The mistakes of an author: changes to a grammar after which it may be ambiguous, incomplete
//! or contradictory. For changes to the rules the reference tables decide what must become of
//! it; a contradictory statement is wrong in any grammar.

use crate::gen_;
use crate::ir::*;
use crate::lalr::Reject;
use crate::model::prepare;
use crate::rng::Rng;

fn any_sym(g: &Gram, r: &mut Rng) -> Sym {
    match r.below(10) {
        0..=4 => Sym::T(1 + r.below(g.terms.len() - 1)),
        5..=7 => Sym::N(r.below(g.nts.len())),
        8 if !g.classes.is_empty() => Sym::C(r.below(g.classes.len())),
        _ if g.err_sym.is_some() && r.pct(30) => Sym::Err,
        _ => Sym::T(1 + r.below(g.terms.len() - 1)),
    }
}
fn item(sym: Sym) -> Item {
    Item { sym, opt: false, alias: 0 }
}

/// One change to rules or precedences. The text says what was done.
pub fn edit(g: &mut Gram, r: &mut Rng) -> String {
    let nr = g.rules.len();
    let i = r.below(nr);
    // a rule whose symbols change gets a code block, so that its types stay right
    macro_rules! plain {
        ($i:expr) => {
            g.rules[$i].code = true;
        };
    }
    match r.below(22) {
        0 if !g.assoc.is_empty() => {
            let l = r.below(g.assoc.len());
            let v = &mut g.assoc[l].1;
            if v.len() > 1 {
                let k = r.below(v.len());
                v.remove(k);
                return "a token loses its precedence".into();
            }
            g.assoc.remove(l);
            "a level of precedence removed".into()
        }
        1 if !g.assoc.is_empty() => {
            let l = r.below(g.assoc.len());
            g.assoc.remove(l);
            "a level of precedence removed".into()
        }
        2 if g.assoc.len() > 1 => {
            let (a, b) = (r.below(g.assoc.len()), r.below(g.assoc.len()));
            g.assoc.swap(a, b);
            "two levels of precedence exchanged".into()
        }
        3 if !g.assoc.is_empty() => {
            let l = r.below(g.assoc.len());
            g.assoc[l].0 = *r.pick(&[Assoc::Left, Assoc::Right, Assoc::Non]);
            "another associativity".into()
        }
        4 | 5 if nr > 1 => {
            g.rules.remove(i);
            "a rule removed".into()
        }
        6 => {
            let mut ru = g.rules[i].clone();
            ru.lhs = if r.pct(50) { ru.lhs } else { r.below(g.nts.len()) };
            ru.code = true;
            let at = r.below(nr + 1);
            g.rules.insert(at, ru);
            "a rule repeated, perhaps for another symbol".into()
        }
        7 | 8 | 9 if !g.rules[i].rhs.is_empty() => {
            let s = any_sym(g, r);
            let k = r.below(g.rules[i].rhs.len());
            g.rules[i].rhs[k] = item(s);
            plain!(i);
            "a symbol replaced".into()
        }
        10 => {
            let s = any_sym(g, r);
            let k = r.below(g.rules[i].rhs.len() + 1);
            g.rules[i].rhs.insert(k, item(s));
            plain!(i);
            "a symbol inserted".into()
        }
        11 | 12 if !g.rules[i].rhs.is_empty() => {
            let k = r.below(g.rules[i].rhs.len());
            g.rules[i].rhs.remove(k);
            plain!(i);
            "a symbol left out".into()
        }
        13 => {
            let n = r.below(4);
            let rhs = (0..n).map(|_| item(any_sym(g, r))).collect();
            let lhs = r.below(g.nts.len());
            let at = r.below(nr + 1);
            g.rules.insert(at, Rule { lhs, rhs, code: true, prec: None });
            "a rule added".into()
        }
        14 => {
            g.rules[i].prec = if r.pct(50) { None } else { Some(1 + r.below(g.terms.len() - 1)) };
            "the precedence of a rule changed".into()
        }
        15 if !g.rules[i].rhs.is_empty() => {
            let k = r.below(g.rules[i].rhs.len());
            let it = &mut g.rules[i].rhs[k];
            if it.sym != Sym::Err {
                it.opt = !it.opt;
                it.alias = 0;
            }
            plain!(i);
            "an optional mark set or removed".into()
        }
        16 => {
            // to a token without precedence
            let free: Vec<usize> = (1..g.terms.len()).filter(|t| !g.assoc.iter().any(|a| a.1.contains(t))).collect();
            if free.is_empty() {
                return "nothing".into();
            }
            let t = *r.pick(&free);
            if g.assoc.is_empty() || r.pct(40) {
                let at = r.below(g.assoc.len() + 1);
                g.assoc.insert(at, (*r.pick(&[Assoc::Left, Assoc::Right, Assoc::Non]), vec![t]));
            } else {
                let l = r.below(g.assoc.len());
                g.assoc[l].1.push(t);
            }
            "a token given a precedence".into()
        }
        17 if !g.classes.is_empty() => {
            let c = r.below(g.classes.len());
            let t = 1 + r.below(g.terms.len() - 1);
            // the members have one type when an alias asks for it
            let ok = Some(t) != g.wildcard && g.term_ty(t) == g.class_ty(c) && !g.classes[c].members.contains(&t);
            if ok {
                g.classes[c].members.push(t);
            } else if g.classes[c].members.len() > 2 {
                g.classes[c].members.pop();
            }
            "the members of a class changed".into()
        }
        18 => {
            let a = r.below(g.nts.len());
            let b = if r.pct(40) { a } else { r.below(g.nts.len()) };
            g.rules.push(Rule { lhs: a, rhs: vec![item(Sym::N(b))], code: true, prec: None });
            "a unit rule added".into()
        }
        19 => {
            let a = r.below(g.nts.len());
            g.rules.push(Rule { lhs: a, rhs: vec![], code: true, prec: None });
            "an empty rule added".into()
        }
        20 => {
            g.nts.push((format!("extra{}", g.nts.len()), Ty::Unit));
            let n = g.nts.len() - 1;
            let k = r.below(3);
            if k > 0 {
                let s = any_sym(g, r);
                g.rules.push(Rule { lhs: n, rhs: vec![item(s)], code: true, prec: None });
            }
            if k < 2 || r.pct(50) {
                let at = r.below(g.rules[i].rhs.len() + 1);
                g.rules[i].rhs.insert(at, item(Sym::N(n)));
                plain!(i);
            }
            "a new nonterminal, perhaps not used or without rules".into()
        }
        21 => {
            g.start = r.below(g.nts.len());
            "another start symbol".into()
        }
        _ => "nothing".into(),
    }
}

fn tidy(g: &mut Gram) {
    // what has no rules cannot be the start symbol by coming first
    if !g.rules.iter().any(|r| r.lhs == g.start) {
        g.explicit_start = true;
    }
    // aliases of a class need members of one type; the wildcard has no value
    for ru in 0..g.rules.len() {
        for k in 0..g.rules[ru].rhs.len() {
            if g.rules[ru].rhs[k].sym == Sym::T(g.wildcard.unwrap_or(0)) {
                g.rules[ru].rhs[k].alias = 0;
            }
            // so does an optional class
            if let Sym::C(c) = g.rules[ru].rhs[k].sym {
                if g.classes[c].members.iter().any(|t| g.term_ty(*t) != g.class_ty(c)) {
                    g.rules[ru].rhs[k].opt = false;
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Must {
    Accept,
    Reject,
    /// Not decided by the documentation, or too big to tell.
    Open,
}

/// What must become of a grammar, and why.
pub fn verdict(g: &Gram) -> (Must, &'static str) {
    match prepare(g, 400) {
        Ok(_) => (Must::Accept, "no fault"),
        Err(e @ (Reject::Unclear(_) | Reject::TooBig)) => (Must::Open, gen_::reason(&e)),
        Err(e) => (Must::Reject, gen_::reason(&e)),
    }
}

/// A grammar that may have been spoilt.
pub fn case(seed: u64, i: usize, r: &mut Rng) -> (Gram, String) {
    let (mut g, mut done) = if r.pct(25) {
        (gen_::raw("C14", r), "as generated".to_string())
    } else {
        (gen_::gram("C14", seed, i).g, String::new())
    };
    if done.is_empty() {
        let n = *r.pick(&[0, 1, 1, 1, 1, 2, 2, 3]);
        let v: Vec<String> = (0..n).map(|_| edit(&mut g, r)).collect();
        done = if v.is_empty() { "unchanged".into() } else { v.join(", ") };
    }
    tidy(&mut g);
    (g, done)
}

// ---------------------------------------------------------------------------------------

/// Statements that no grammar may have together with those of the given one. `None` when the
/// mistake drawn is not possible here.
pub fn contradiction(g: &Gram, r: &mut Rng) -> Option<(Vec<String>, &'static str)> {
    let tn = |t: usize| g.terms[t].0.clone();
    let t = 1 + r.below(g.terms.len() - 1);
    let u = 1 + r.below(g.terms.len() - 1);
    let n = g.nts[r.below(g.nts.len())].0.clone();
    let m = g.nts[r.below(g.nts.len())].0.clone();
    let fresh = format!("Fresh{}", r.below(5));
    let twice = |a: &str, b: &str, have: bool, r: &mut Rng| -> Vec<String> {
        let mut v = vec![a.to_string()];
        if !have {
            v.push(if r.pct(50) { a.to_string() } else { b.to_string() });
        }
        v
    };
    let falls: Vec<usize> = g.fallback.iter().flat_map(|f| f.1.clone()).collect();
    let x = match r.below(40) {
        0 => (twice("%syntax_error { Ok(()) }", "%syntax_error { Err(())? }", g.has_syn, r), "%syntax_error twice"),
        1 => (twice("%parse_fail { () }", "%parse_fail { panic!() }", g.has_pfail, r), "%parse_fail twice"),
        2 => (twice("%stack_overflow { () }", "%stack_overflow { panic!() }", g.has_ovf, r), "%stack_overflow twice"),
        3 => (twice("%default_type u8;", "%default_type u16;", g.default_type.is_some(), r), "%default_type twice"),
        4 => (twice("%extra_argument u8;", "%extra_argument Ctx;", g.extra_arg, r), "%extra_argument twice"),
        5 => (twice("%error u8;", "%error String;", g.err_ty, r), "%error twice"),
        6 => (twice(&format!("%start_symbol {n};"), &format!("%start_symbol {m};"), g.explicit_start, r), "%start_symbol twice"),
        7 => (twice("%extra_token u8;", "%extra_token u16;", g.extra_token, r), "%extra_token twice"),
        8 => (twice("%stack_size 10;", "%stack_size 20 Vec;", g.limit.is_some() || g.simstack, r), "%stack_size twice"),
        9 => (twice(&format!("%wildcard {};", tn(t)), &format!("%wildcard {};", tn(u)), g.wildcard.is_some(), r), "%wildcard twice"),
        10 => (twice("%token pub enum Token {};", "%token #[derive(Clone)] pub enum Token {};", g.generic, r), "%token twice"),
        11 => (twice("%parser pub struct Parser {};", "%parser struct Parser {};", false, r), "%parser twice"),
        12 => {
            let typed: Vec<usize> = (1..g.terms.len()).filter(|t| g.terms[*t].1.is_some()).collect();
            if typed.is_empty() {
                return None;
            }
            let t = *r.pick(&typed);
            let k = if r.pct(50) { g.terms[t].1.unwrap() as usize } else { r.below(9) };
            (vec![format!("%type {} Pay<{k}>;", tn(t))], "%type of a token twice")
        }
        13 => {
            let typed: Vec<usize> = (0..g.nts.len()).filter(|n| g.nts[*n].1 != Ty::Unit).collect();
            if typed.is_empty() {
                return None;
            }
            let n = *r.pick(&typed);
            let ty = if r.pct(50) { g.nts[n].1.rust() } else { "u8".into() };
            (vec![format!("%type {} {ty};", g.nts[n].0)], "%type of a nonterminal twice")
        }
        14 => {
            let v: Vec<usize> = g.assoc.iter().flat_map(|a| a.1.clone()).collect();
            let d = *r.pick(&["left", "right", "nonassoc"]);
            if v.is_empty() {
                (vec![format!("%{d} {} {fresh} {};", tn(t), tn(t))], "a token given precedence twice")
            } else {
                (vec![format!("%{d} {};", tn(*r.pick(&v)))], "a token given precedence twice")
            }
        }
        15 => (vec![format!("%{} {fresh} {n};", r.pick(&["left", "right", "nonassoc"]))], "precedence of a nonterminal"),
        16 => {
            if falls.is_empty() {
                return None;
            }
            let t = *r.pick(&falls);
            // to the same token or to another
            let to = match g.fallback.iter().find(|f| f.1.contains(&t)) {
                Some(f) if r.pct(50) => tn(f.0),
                _ => fresh,
            };
            (vec![format!("%fallback {to} {};", tn(t))], "two fallbacks of a token")
        }
        17 => {
            // a ring
            let mut free: Vec<usize> = (1..g.terms.len()).filter(|t| !falls.contains(t) && Some(*t) != g.wildcard).collect();
            r.shuffle(&mut free);
            let k = r.range(1, 4).min(free.len());
            if k == 0 {
                return None;
            }
            let mut spare: Vec<String> = (0..4).map(|i| format!("Spare{i}")).collect();
            let v = (0..k)
                .map(|j| {
                    let mut l: Vec<String> = (0..r.below(2)).map(|_| spare.pop().unwrap()).collect();
                    let at = r.below(l.len() + 1);
                    l.insert(at, tn(free[(j + 1) % k]));
                    format!("%fallback {} {};", tn(free[j]), l.join(" "))
                })
                .collect();
            (v, "a ring of fallbacks")
        }
        18 => (vec![if r.pct(50) { format!("%fallback {n} {fresh};") } else { format!("%fallback {fresh} {n};") }], "fallback of or to a nonterminal"),
        19 => {
            // a fallback of another type
            if g.extra_token || g.generic {
                return None;
            }
            let typed: Vec<usize> = (1..g.terms.len()).filter(|t| g.terms[*t].1.is_some()).collect();
            let from: Vec<usize> = typed.iter().copied().filter(|t| !falls.contains(t)).collect();
            if typed.is_empty() || from.is_empty() {
                return None;
            }
            let (a, b) = (*r.pick(&typed), *r.pick(&from));
            if g.terms[a].1 == g.terms[b].1 {
                return None;
            }
            (vec![format!("%fallback {} {};", tn(a), tn(b))], "a fallback of another type")
        }
        20 => {
            if g.explicit_start {
                return None;
            }
            (vec![format!("%start_symbol {};", tn(t))], "a token as start symbol")
        }
        21 => {
            if g.wildcard.is_some() {
                return None;
            }
            (vec![format!("%wildcard {n};")], "a nonterminal as wildcard")
        }
        22 => {
            let typed: Vec<usize> = (1..g.terms.len()).filter(|t| g.terms[*t].1.is_some()).collect();
            if g.wildcard.is_some() || typed.is_empty() {
                return None;
            }
            (vec![format!("%wildcard {};", tn(*r.pick(&typed)))], "a wildcard with a type")
        }
        23 => (vec![if r.pct(50) { format!("%token_class {fresh} {} {n};", tn(t)) } else { format!("%token_class {n} {};", tn(t)) }], "a nonterminal in a token class"),
        24 => (vec![format!("{} ::= {};", tn(t), tn(u))], "a rule for a token"),
        25 => (vec![format!("{n} ::= {fresh} {}|{m};", tn(t))], "a compound with a nonterminal"),
        26 => (vec![format!("{n} ::= {fresh} [{m}];")], "a nonterminal as precedence"),
        27 => {
            let typed: Vec<usize> = (0..g.nts.len()).filter(|n| g.nts[*n].1 != Ty::Unit).collect();
            if typed.is_empty() || g.extra_token || g.default_type.is_some() {
                return None;
            }
            let n = *r.pick(&typed);
            (vec![format!("{} ::= {fresh};", g.nts[n].0)], "a rule that makes no value for its typed symbol")
        }
        28 => {
            let ty: Vec<(usize, u8)> = (1..g.terms.len()).filter_map(|t| g.terms[t].1.map(|k| (t, k))).collect();
            let a = *ty.first()?;
            let b = ty.iter().find(|b| b.1 != a.1)?;
            (vec![format!("{n} ::= {fresh} {}|{}(x) {{ todo!() }}", tn(a.0), tn(b.0))], "one alias for tokens of different types")
        }
        29 => {
            // a ring of classes, with or without tokens of their own
            let k = r.range(1, 3);
            let v = (0..k)
                .map(|j| {
                    let mut l: Vec<String> = (0..r.below(2)).map(|_| tn(1 + r.below(g.terms.len() - 1))).collect();
                    let at = r.below(l.len() + 1);
                    l.insert(at, format!("Ring{}", (j + 1) % k));
                    format!("%token_class Ring{j} {};", l.join(" "))
                })
                .collect();
            (v, "a ring of token classes")
        }
        30 => (vec!["%token_class Hollow;".into()], "a token class without tokens"),
        31 => {
            let mut v = vec![format!("%token_class {fresh} {} {};", tn(t), tn(u))];
            v.push(match r.below(6) {
                0 | 1 => format!("%{} Other {fresh};", r.pick(&["left", "right", "nonassoc"])),
                2 => format!("%fallback {fresh} Other;"),
                3 => format!("%fallback Other {fresh};"),
                4 if g.wildcard.is_none() => format!("%wildcard {fresh};"),
                _ => format!("{n} ::= Other [{fresh}];"),
            });
            (v, "a token class in the place of a token")
        }
        32 => {
            let Some(w) = g.wildcard else { return None };
            (vec![format!("{n} ::= {fresh} {}(x) {{ todo!() }}", tn(w))], "a name for the wildcard")
        }
        33 => (vec![format!("%type #[allow(dead_code)] fresh_{n} u8;")], "an attribute on a nonterminal"),
        34 => {
            if g.generic || crate::emit::shape(g).token.or(crate::emit::shape(g).parser).is_some() {
                return None;
            }
            let own = *r.pick(&["", "<W>", "<'q>"]);
            (vec!["%token pub enum Token<Q> {};".into(), format!("%parser pub struct Parser{own} {{}};")], "a parameter of the tokens that the parser does not have")
        }
        35 => (vec![format!("{n} ::= {fresh} nowhere{};", r.pick(&["", "?", " {}", "?(x) { todo!() }"]))], "a symbol without rules"),
        37 => {
            // which of them is meant?
            let typed: Vec<usize> = (0..g.nts.len()).filter(|n| g.nts[*n].1 != Ty::Unit).collect();
            if typed.is_empty() || g.extra_token || g.default_type.is_some() {
                return None;
            }
            let n = *r.pick(&typed);
            let ty = g.nts[n].1.rust();
            let mut v = vec![format!("{} ::= Ftwo Fone Fthree;", g.nts[n].0), format!("%type Fone {ty};")];
            v.push(format!("%type {} {};", *r.pick(&["Ftwo", "Fthree"]), if r.pct(70) { ty } else { "u8".into() }));
            (v, "a rule without code and two typed symbols")
        }
        38 => {
            let typed: Vec<usize> = (0..g.nts.len()).filter(|n| g.nts[*n].1 != Ty::Unit).collect();
            if typed.is_empty() || g.extra_token || g.default_type.is_some() {
                return None;
            }
            let n = *r.pick(&typed);
            let ty = g.nts[n].1.rust();
            (vec![format!("{} ::= Ftwo Fone({}) ;", g.nts[n].0, r.pick(&["x", "_", "mut y"])), format!("%type Fone {ty};")], "a rule with a name but no code for its typed symbol")
        }
        36 => {
            if g.explicit_start {
                return None;
            }
            (vec!["%start_symbol nowhere;".into()], "a start symbol without rules")
        }
        _ => (
            vec![r.pick(&["%frobnicate;", "%token pub enum Token { A };", "%parser pub struct Parser { a: u8 };", "Input = A;", "input ::= ;;", "input: A;", "_start ::= A;", "input ::= _x;", "%stack_size many;", "%left A, B;"]).to_string()],
            "a statement that means nothing",
        ),
    };
    Some(x)
}
