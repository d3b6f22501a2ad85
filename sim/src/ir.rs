//! Grammars as data: what the generator makes, the emitter prints as `pomelo!` source, and
//! the reference model interprets. Nothing here knows how pomelo works inside.

use crate::json::J;
use crate::obj;

/// Type of a symbol's value.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Unit,
    Pay(u8),
    Ext,
    ExtPay(u8),
    Opt(Box<Ty>),
}

/// The payload that is `()`, declared as any other type.
pub const VOID: u8 = 50;

impl Ty {
    pub fn rust(&self) -> String {
        match self {
            Ty::Unit => "()".into(),
            Ty::Pay(VOID) => "()".into(),
            Ty::Pay(k) => format!("Pay<{k}>"),
            Ty::Ext => "Pay<99>".into(),
            Ty::ExtPay(VOID) => "(Pay<99>, ())".into(),
            Ty::ExtPay(k) => format!("(Pay<99>, Pay<{k}>)"),
            Ty::Opt(t) => format!("Option<{}>", t.rust()),
        }
    }
    fn enc(&self) -> String {
        match self {
            Ty::Unit => "u".into(),
            Ty::Pay(k) => format!("p{k}"),
            Ty::Ext => "e".into(),
            Ty::ExtPay(k) => format!("x{k}"),
            Ty::Opt(t) => format!("o{}", t.enc()),
        }
    }
    fn dec(s: &str) -> Ty {
        match s.as_bytes().first() {
            Some(b'p') => Ty::Pay(s[1..].parse().unwrap_or(0)),
            Some(b'e') => Ty::Ext,
            Some(b'x') => Ty::ExtPay(s[1..].parse().unwrap_or(0)),
            Some(b'o') => Ty::Opt(Box::new(Ty::dec(&s[1..]))),
            _ => Ty::Unit,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sym {
    T(usize),
    N(usize),
    C(usize),
    Err,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Assoc {
    Left,
    Right,
    Non,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub sym: Sym,
    pub opt: bool,
    /// 0: no alias, 1: plain name, 2: `mut` name, 3: tuple pattern when the type is a pair
    pub alias: u8,
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub lhs: usize,
    pub rhs: Vec<Item>,
    pub code: bool,
    pub prec: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Class {
    /// Named classes use %token_class; unnamed ones are written A|B at their single use.
    pub name: Option<String>,
    pub members: Vec<usize>,
}

/// Terminal 0 is the end of input and has no name of its own.
#[derive(Clone, Debug, Default)]
pub struct Gram {
    pub name: String,
    pub tags: Vec<String>,
    pub terms: Vec<(String, Option<u8>)>,
    pub nts: Vec<(String, Ty)>,
    pub classes: Vec<Class>,
    pub rules: Vec<Rule>,
    pub assoc: Vec<(Assoc, Vec<usize>)>,
    pub start: usize,
    pub explicit_start: bool,
    /// Type of the error symbol, when the grammar uses it.
    pub err_sym: Option<Option<u8>>,
    pub fallback: Vec<(usize, Vec<usize>)>,
    pub wildcard: Option<usize>,
    pub extra_arg: bool,
    pub err_ty: bool,
    pub default_type: Option<u8>,
    pub extra_token: bool,
    pub limit: Option<usize>,
    pub simstack: bool,
    pub has_syn: bool,
    pub has_pfail: bool,
    pub has_ovf: bool,
    pub generic: bool,
    pub layout: u64,
}

impl Gram {
    pub fn tag(&self, t: &str) -> bool {
        self.tags.iter().any(|x| x == t)
    }
    /// Type of the values carried by a terminal, after %default_type and %extra_token.
    pub fn term_ty(&self, t: usize) -> Ty {
        if t == 0 {
            return Ty::Unit;
        }
        let own = self.terms[t].1;
        if self.extra_token {
            return match own {
                None => Ty::Ext,
                Some(k) => Ty::ExtPay(k),
            };
        }
        if Some(t) == self.wildcard {
            return Ty::Unit;
        }
        match own.or(self.default_type) {
            None => Ty::Unit,
            Some(k) => Ty::Pay(k),
        }
    }
    pub fn nt_ty(&self, n: usize) -> Ty {
        match (&self.nts[n].1, self.default_type) {
            (Ty::Unit, Some(k)) => Ty::Pay(k),
            (t, _) => t.clone(),
        }
    }
    pub fn class_ty(&self, c: usize) -> Ty {
        self.term_ty(self.classes[c].members[0])
    }
    pub fn err_val_ty(&self) -> Ty {
        match (self.err_sym.flatten(), self.default_type) {
            (Some(k), _) | (None, Some(k)) => Ty::Pay(k),
            _ => Ty::Unit,
        }
    }
    pub fn sym_ty(&self, s: Sym) -> Ty {
        match s {
            Sym::T(t) => self.term_ty(t),
            Sym::N(n) => self.nt_ty(n),
            Sym::C(c) => self.class_ty(c),
            Sym::Err => self.err_val_ty(),
        }
    }
    pub fn item_ty(&self, it: &Item) -> Ty {
        let t = self.sym_ty(it.sym);
        if it.opt { Ty::Opt(Box::new(t)) } else { t }
    }
    /// Optional, compound or class symbols.
    pub fn has_shorthand(&self) -> bool {
        !self.classes.is_empty() || self.rules.iter().any(|r| r.rhs.iter().any(|i| i.opt))
    }
    pub fn has_fb(&self) -> bool {
        !self.fallback.is_empty() || self.wildcard.is_some()
    }
    pub fn stack_limit(&self) -> usize {
        self.limit.unwrap_or(100)
    }

    pub fn to_json(&self) -> J {
        let sym = |s: Sym| match s {
            Sym::T(i) => format!("t{i}"),
            Sym::N(i) => format!("n{i}"),
            Sym::C(i) => format!("c{i}"),
            Sym::Err => "e".into(),
        };
        obj! {
            "name" => &self.name,
            "tags" => self.tags.clone(),
            "terms" => self.terms.iter().map(|(n,t)| J::Arr(vec![n.into(), J::from(*t)])).collect::<Vec<_>>(),
            "nts" => self.nts.iter().map(|(n,t)| J::Arr(vec![n.into(), t.enc().into()])).collect::<Vec<_>>(),
            "classes" => self.classes.iter().map(|c| obj!{"name"=>c.name.clone(), "m"=>c.members.clone()}).collect::<Vec<_>>(),
            "rules" => self.rules.iter().map(|r| obj!{
                "lhs"=>r.lhs,
                "rhs"=>r.rhs.iter().map(|i| J::Arr(vec![sym(i.sym).into(), i.opt.into(), J::from(i.alias)])).collect::<Vec<_>>(),
                "code"=>r.code, "prec"=>r.prec}).collect::<Vec<_>>(),
            "assoc" => self.assoc.iter().map(|(a,v)| obj!{"a"=>match a {Assoc::Left=>"l",Assoc::Right=>"r",Assoc::Non=>"n"}, "t"=>v.clone()}).collect::<Vec<_>>(),
            "start" => self.start, "explicit_start" => self.explicit_start,
            "err_sym" => match self.err_sym { None => J::Null, Some(None) => J::from("unit"), Some(Some(k)) => J::from(k) },
            "fallback" => self.fallback.iter().map(|(f,v)| obj!{"f"=>*f,"t"=>v.clone()}).collect::<Vec<_>>(),
            "wildcard" => self.wildcard, "extra_arg" => self.extra_arg, "err_ty" => self.err_ty,
            "default_type" => self.default_type, "extra_token" => self.extra_token,
            "limit" => self.limit, "simstack" => self.simstack,
            "has_syn" => self.has_syn, "has_pfail" => self.has_pfail, "has_ovf" => self.has_ovf,
            "generic" => self.generic, "layout" => self.layout,
        }
    }
    pub fn from_json(j: &J) -> Gram {
        let us = |j: &J| j.arr().iter().map(|x| x.usize()).collect::<Vec<_>>();
        let ou = |j: &J| j.opt().map(|x| x.usize());
        let o8 = |j: &J| j.opt().map(|x| x.usize() as u8);
        let sym = |s: &str| {
            let n = s.get(1..).and_then(|x| x.parse().ok()).unwrap_or(0);
            match &s[..1] {
                "t" => Sym::T(n),
                "n" => Sym::N(n),
                "c" => Sym::C(n),
                _ => Sym::Err,
            }
        };
        Gram {
            name: j.get("name").str().into(),
            tags: j.get("tags").arr().iter().map(|x| x.str().to_string()).collect(),
            terms: j.get("terms").arr().iter().map(|x| (x.arr()[0].str().to_string(), o8(&x.arr()[1]))).collect(),
            nts: j.get("nts").arr().iter().map(|x| (x.arr()[0].str().to_string(), Ty::dec(x.arr()[1].str()))).collect(),
            classes: j
                .get("classes")
                .arr()
                .iter()
                .map(|c| Class { name: c.get("name").opt().map(|x| x.str().to_string()), members: us(c.get("m")) })
                .collect(),
            rules: j
                .get("rules")
                .arr()
                .iter()
                .map(|r| Rule {
                    lhs: r.get("lhs").usize(),
                    rhs: r
                        .get("rhs")
                        .arr()
                        .iter()
                        .map(|i| Item { sym: sym(i.arr()[0].str()), opt: i.arr()[1].bool(), alias: i.arr()[2].usize() as u8 })
                        .collect(),
                    code: r.get("code").bool(),
                    prec: ou(r.get("prec")),
                })
                .collect(),
            assoc: j
                .get("assoc")
                .arr()
                .iter()
                .map(|a| {
                    (
                        match a.get("a").str() {
                            "l" => Assoc::Left,
                            "r" => Assoc::Right,
                            _ => Assoc::Non,
                        },
                        us(a.get("t")),
                    )
                })
                .collect(),
            start: j.get("start").usize(),
            explicit_start: j.get("explicit_start").bool(),
            err_sym: match j.get("err_sym") {
                J::Null => None,
                J::Str(_) => Some(None),
                x => Some(Some(x.usize() as u8)),
            },
            fallback: j.get("fallback").arr().iter().map(|f| (f.get("f").usize(), us(f.get("t")))).collect(),
            wildcard: ou(j.get("wildcard")),
            extra_arg: j.get("extra_arg").bool(),
            err_ty: j.get("err_ty").bool(),
            default_type: o8(j.get("default_type")),
            extra_token: j.get("extra_token").bool(),
            limit: ou(j.get("limit")),
            simstack: j.get("simstack").bool(),
            has_syn: j.get("has_syn").bool(),
            has_pfail: j.get("has_pfail").bool(),
            has_ovf: j.get("has_ovf").bool(),
            generic: j.get("generic").bool(),
            layout: j.get("layout").u64(),
        }
    }
}

// ---------------------------------------------------------------------------------------
// The grammar with its documented shorthands spelled out.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Rule with a code block: the action with this id runs.
    Code(usize),
    /// No code and no type: nothing runs.
    Silent,
    /// No code, forwards the value of that right-hand side position.
    Forward(usize),
    OptNone,
    OptSome,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum XS {
    T(usize),
    N(usize),
    C(usize),
}

#[derive(Clone, Debug)]
pub struct XRule {
    pub lhs: usize,
    pub rhs: Vec<XS>,
    pub alias: Vec<bool>,
    pub untyped: Vec<bool>,
    pub kind: Kind,
    pub prec: Option<(usize, Assoc)>,
}

#[derive(Clone, Debug)]
pub struct XG {
    pub nterm: usize,
    pub nts: Vec<String>,
    pub classes: Vec<Vec<usize>>,
    pub rules: Vec<XRule>,
    pub start: usize,
    /// The error symbol as a nonterminal without rules, if used.
    pub err: Option<usize>,
    pub fallback: Vec<Option<usize>>,
    pub wildcard: Option<usize>,
    pub prec: Vec<Option<(usize, Assoc)>>,
}

pub fn expand(g: &Gram) -> XG {
    let nterm = g.terms.len();
    let mut nts: Vec<String> = g.nts.iter().map(|n| n.0.clone()).collect();
    let err = g.err_sym.map(|_| {
        nts.push("error".into());
        nts.len() - 1
    });
    let mut prec = vec![None; nterm];
    for (lvl, (a, v)) in g.assoc.iter().enumerate() {
        for t in v {
            prec[*t] = Some((lvl + 1, *a));
        }
    }
    let mut classes: Vec<Vec<usize>> = g.classes.iter().map(|c| c.members.clone()).collect();
    let mut seen_anon = vec![false; classes.len()];
    let mut opts: Vec<(XS, Ty, usize)> = Vec::new();
    let mut rules = Vec::new();
    let rule_prec = |rhs: &[XS], classes: &[Vec<usize>]| {
        for s in rhs {
            match s {
                XS::T(t) if prec[*t].is_some() => return prec[*t],
                XS::C(c) => {
                    if let Some(p) = classes[*c].iter().find_map(|t| prec[*t]) {
                        return Some(p);
                    }
                }
                _ => (),
            }
        }
        None
    };
    for (ri, r) in g.rules.iter().enumerate() {
        let mut rhs = Vec::new();
        for it in &r.rhs {
            let s = match it.sym {
                Sym::T(t) => XS::T(t),
                Sym::N(n) => XS::N(n),
                Sym::Err => XS::N(err.expect("error symbol declared")),
                Sym::C(c) => {
                    if g.classes[c].name.is_none() {
                        // every written A|B is a symbol of its own
                        if seen_anon[c] {
                            classes.push(classes[c].clone());
                            XS::C(classes.len() - 1)
                        } else {
                            seen_anon[c] = true;
                            XS::C(c)
                        }
                    } else {
                        XS::C(c)
                    }
                }
            };
            if it.opt {
                let n = match opts.iter().find(|o| o.0 == s) {
                    Some(o) => o.2,
                    None => {
                        nts.push(format!("opt{}", opts.len()));
                        opts.push((s, g.sym_ty(it.sym), nts.len() - 1));
                        nts.len() - 1
                    }
                };
                rhs.push(XS::N(n));
            } else {
                rhs.push(s);
            }
        }
        let p = match r.prec {
            Some(t) => prec[t],
            None => rule_prec(&rhs, &classes),
        };
        let kind = if r.code {
            Kind::Code(ri)
        } else if g.nt_ty(r.lhs) == Ty::Unit {
            Kind::Silent
        } else {
            let pos = r.rhs.iter().position(|it| g.item_ty(it) != Ty::Unit).unwrap_or(0);
            Kind::Forward(pos)
        };
        rules.push(XRule {
            lhs: r.lhs,
            alias: r.rhs.iter().map(|i| i.alias > 0).collect(),
            untyped: r.rhs.iter().map(|i| g.item_ty(i) == Ty::Unit).collect(),
            rhs,
            kind,
            prec: p,
        });
    }
    for (s, ty, n) in opts {
        rules.push(XRule { lhs: n, rhs: vec![], alias: vec![], untyped: vec![], kind: Kind::OptNone, prec: None });
        rules.push(XRule {
            lhs: n,
            rhs: vec![s],
            alias: vec![true],
            untyped: vec![ty == Ty::Unit],
            kind: Kind::OptSome,
            prec: rule_prec(&[s], &classes),
        });
    }
    let mut fallback = vec![None; nterm];
    for (f, v) in &g.fallback {
        for t in v {
            fallback[*t] = Some(*f);
        }
    }
    XG { nterm, nts, classes, rules, start: g.start, err, fallback, wildcard: g.wildcard, prec }
}
