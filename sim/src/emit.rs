//! Prints a grammar as `pomelo!` source together with the glue that lets the simulator drive
//! the generated parser. The order of directives and rules is drawn from the layout seed.

use crate::ir::*;
use crate::rng::Rng;
use std::fmt::Write;

fn rty(g: &Gram, t: &Ty) -> String {
    match t {
        Ty::Pay(0) if g.generic => "G".into(),
        Ty::Opt(t) => format!("Option<{}>", rty(g, t)),
        t => t.rust(),
    }
}

/// How Token and Parser are declared and named.
pub struct Shape {
    pub token: Option<&'static str>,
    pub parser: Option<&'static str>,
    /// the parameters of Token, as declared and as used
    params: &'static str,
    args: &'static str,
    /// the arguments given to Token and Parser
    tok: &'static str,
    par: &'static str,
}

pub fn shape(g: &Gram) -> Shape {
    let k = if g.layout == 0 { 0 } else { Rng::new(g.layout ^ 0x7368_6170).below(16) };
    let some = |token, parser, params, args, tok, par| Shape { token: Some(token), parser, params, args, tok, par };
    if g.generic {
        let (p, a, t) = ("<G: Val>", "<G>", "<Pay<0>>");
        match k {
            0 => some("pub enum Token<G> where G: Val", None, p, a, t, t),
            1 => some("pub enum Token<G: Val>", Some("#[allow(dead_code)] pub struct Parser<G: Val>"), p, a, t, t),
            2 => some("#[allow(dead_code)] pub enum Token<G> where G: Val", Some("pub struct Parser<G> where G: Val"), p, a, t, t),
            3 => some("pub enum Token<G: Val>", Some("pub struct Parser<G> where G: Val"), p, a, t, t),
            4 => some("pub enum Token<G: Val = Pay<0>>", None, p, a, "", t),
            5 => some("pub enum Token<G: Val, const N: usize>", None, "<G: Val, const N: usize>", "<G, N>", "<Pay<0>, 3>", "<Pay<0>, 3>"),
            6 => some("pub enum Token<G: Val, const N: usize>", Some("pub struct Parser<const N: usize, G: Val>"), "<G: Val, const N: usize>", "<G, N>", "<Pay<0>, 3>", "<3, Pay<0>>"),
            7 => some("pub enum Token<G: Val>", Some("pub struct Parser<const N: usize, G: Val>"), p, a, t, "<3, Pay<0>>"),
            8 => some("pub enum Token<G: Val>", Some("pub struct Parser<G: Val, const N: usize = 5>"), p, a, t, t),
            _ => some("pub enum Token<G: Val>", None, p, a, t, t),
        }
    } else {
        let none = Shape { token: None, parser: None, params: "", args: "", tok: "", par: "" };
        match k {
            0 => Shape { token: Some("#[allow(dead_code)] #[non_exhaustive] pub(crate) enum Token"), ..none },
            1 => Shape { parser: Some("#[must_use] pub struct Parser"), ..none },
            2 => Shape { token: Some("#[allow(dead_code)] pub enum Token"), parser: Some("pub(crate) struct Parser"), ..none },
            3 => Shape { parser: Some("pub struct Parser<const N: usize>"), par: "<4>", ..none },
            _ => none,
        }
    }
}

/// The macro input: what is between the braces of `pomelo! { ... }`.
pub fn grammar_text(g: &Gram) -> String {
    grammar_text_as(g, "parser", true)
}

pub fn grammar_text_as(g: &Gram, module: &str, glue: bool) -> String {
    let mut r = Rng::new(g.layout);
    let mut decl: Vec<String> = Vec::new();
    let err = if g.err_ty { "SErr" } else { "()" };
    let ext = if g.extra_arg { "Ctx" } else { "()" };
    if module != "parser" {
        decl.push(format!("%module {module};"));
    }
    if g.tag("verbose") {
        decl.push("%verbose;".into());
    }
    let mut used = vec![false; g.terms.len()];
    for ru in &g.rules {
        for it in &ru.rhs {
            match it.sym {
                Sym::T(t) => used[t] = true,
                Sym::C(c) => g.classes[c].members.iter().for_each(|m| used[*m] = true),
                _ => (),
            }
        }
    }
    for (i, (n, ty)) in g.terms.iter().enumerate().skip(1) {
        let attr = if r.pct(10) { "#[allow(dead_code)] " } else { "" };
        match ty {
            Some(k) => decl.push(format!("%type {attr}{n} {};", rty(g, &Ty::Pay(*k)))),
            None if !used[i] || g.layout == 0 || r.pct(10) => decl.push(format!("%type {attr}{n};")),
            None => (),
        }
    }
    for (n, ty) in &g.nts {
        if *ty != Ty::Unit {
            decl.push(format!("%type {n} {};", rty(g, ty)));
        }
    }
    if let Some(Some(k)) = g.err_sym {
        decl.push(format!("%type error {};", rty(g, &Ty::Pay(k))));
    }
    if let Some(k) = g.default_type {
        decl.push(format!("%default_type {};", rty(g, &Ty::Pay(k))));
    }
    // how the members of each class are written: some of them by a class of their own
    let mut nest = Rng::new(g.layout ^ 0x6e65_7374);
    let mut members: Vec<Vec<String>> = Vec::new();
    let mut style = Rng::new(g.layout ^ 0x7374_796c);
    // a member that is listed again changes nothing
    let mut again = Rng::new(g.layout ^ 0x6167_6169);
    for (i, c) in g.classes.iter().enumerate() {
        let mut m: Vec<String> = c.members.iter().map(|t| g.terms[*t].0.clone()).collect();
        for depth in 0..3 {
            if g.layout == 0 || m.is_empty() || !nest.pct(25) {
                break;
            }
            let a = nest.below(m.len());
            let b = nest.range(a + 1, m.len());
            let name = format!("Part{i}Of{depth}");
            let mut inner: Vec<String> = m.splice(a..b, [name.clone()]).collect();
            if a > 0 && again.pct(20) {
                inner.push(m[again.below(a)].clone());
            }
            decl.push(format!("%token_class {name} {};", inner.join(" ")));
        }
        if g.layout != 0 && again.pct(2) {
            // classes of classes that overlap, many times over
            let n = again.range(2, 40);
            let l: Vec<String> = m.iter().rev().cloned().collect();
            decl.push(format!("%token_class Over{i}L0 {}; %token_class Over{i}R0 {};", m.join(" "), l.join(" ")));
            for k in 1..=n {
                decl.push(format!("%token_class Over{i}L{k} Over{i}L{j} Over{i}R{j};", j = k - 1));
                decl.push(format!("%token_class Over{i}R{k} Over{i}R{j} Over{i}L{j};", j = k - 1));
            }
            m = vec![format!("Over{i}L{n}"), m[0].clone()];
        } else if g.layout != 0 && again.pct(10) {
            m.push(g.terms[*again.pick(&c.members)].0.clone());
        }
        if let Some(n) = &c.name {
            decl.push(format!("%token_class {n} {};", m.join(" ")));
        }
        members.push(m);
    }
    // the ways in which one thing can be written
    let mut write = Rng::new(g.layout ^ 0x7772_6974);
    for (f, v) in &g.fallback {
        let m: Vec<&str> = v.iter().map(|t| g.terms[*t].0.as_str()).collect();
        let split = if g.layout != 0 && m.len() > 1 && write.pct(25) { write.range(1, m.len() - 1) } else { m.len() };
        for part in [&m[..split], &m[split..]] {
            if !part.is_empty() {
                decl.push(format!("%fallback {} {};", g.terms[*f].0, part.join(" ")));
            }
        }
    }
    if let Some(w) = g.wildcard {
        decl.push(format!("%wildcard {};", g.terms[w].0));
    }
    if g.explicit_start {
        decl.push(format!("%start_symbol {};", g.nts[g.start].0));
    }
    // `()` is what these are anyway
    let mut unit = Rng::new(g.layout ^ 0x756e_6974);
    if g.extra_arg {
        decl.push("%extra_argument Ctx;".into());
    } else if g.layout != 0 && unit.pct(8) {
        decl.push("%extra_argument ();".into());
    }
    if g.err_ty {
        decl.push("%error SErr;".into());
    } else if g.layout != 0 && unit.pct(8) {
        decl.push("%error ();".into());
    }
    if g.extra_token {
        decl.push("%extra_token Pay<99>;".into());
    }
    let size = g.limit.unwrap_or(100);
    let size = match if g.layout == 0 { 9 } else { write.below(12) } {
        0 => format!("{size:#x}"),
        1 => format!("{size}usize"),
        2 => format!("0_{size}"),
        3 => format!("{size:#b}"),
        _ => size.to_string(),
    };
    match (g.limit, g.simstack) {
        (_, true) => decl.push(format!("%stack_size {size} SimStack;")),
        (Some(_), false) if g.layout != 0 && write.pct(15) => decl.push(format!("%stack_size {size} Vec;")),
        (Some(_), false) => decl.push(format!("%stack_size {size};")),
        _ => (),
    }
    let mut semi = || if g.layout != 0 && write.pct(20) { ";" } else { "" };
    // the shapes in which the two types may be declared, and more than one %include
    let sh = shape(g);
    if let Some(t) = sh.token {
        decl.push(format!("%token {t} {{}};"));
    }
    if let Some(p) = sh.parser {
        decl.push(format!("%parser {p} {{}};"));
    }
    let mut more = Rng::new(g.layout ^ 0x6d6f_7265);
    for i in 0..if g.layout == 0 { 0 } else { more.below(6).saturating_sub(3) } {
        decl.push(format!("%include {{ #[allow(dead_code)] pub const MORE{i}: usize = {i}; }}"));
    }
    if g.has_syn {
        let et = rty(g, &g.err_val_ty());
        // the list of a generic grammar can only be cloned when the parameter can
        let look = if g.generic {
            "let full: Vec<(String, i64, Option<TokD>)> = expected.map(|e| (e.name.to_string(), e.yy_major as i64, e.token.map(tokd))).collect();
        let part = full.first().map(|e| e.0.clone());
        let rest: Vec<String> = full.iter().skip(1).map(|e| e.0.clone()).collect();"
        } else {
            "let full: Vec<(String, i64, Option<TokD>)> = expected.clone().map(|e| (e.name.to_string(), e.yy_major as i64, e.token.map(tokd))).collect();
        let part = expected.next().map(|e| e.name.to_string());
        let rest: Vec<String> = expected.clone().map(|e| e.name.to_string()).collect();"
        };
        let call = format!("Syn::new(token.map(tokd), full, part, rest).ctx(extra).fin::<{et}, {err}>()");
        let call = match if g.layout == 0 { 0 } else { style.below(4) } {
            1 => format!("return {call};"),
            2 => format!("Ok({call}?)"),
            _ => call,
        };
        decl.push(format!(
            "%syntax_error {{
        {look}
        {call}
    }}{}",
            semi()
        ));
    }
    if g.has_pfail {
        decl.push(format!("%parse_fail {{ pfail::<{ext}, {err}>(extra) }}{}", semi()));
    }
    if g.has_ovf {
        decl.push(format!("%stack_overflow {{ ovf::<{ext}, {err}>(token.map(tokd), extra) }}{}", semi()));
    }
    if glue {
        let mut s = String::from("%include {\n        use pomsim::rt::*;\n");
        let (gp, ga) = (sh.params, sh.args);
        let _ = writeln!(s, "        #[allow(dead_code)] fn tokd{gp}(t: Token{ga}) -> TokD {{\n            match t {{");
        for (i, (n, _)) in g.terms.iter().enumerate().skip(1) {
            if g.term_ty(i) == Ty::Unit {
                let _ = writeln!(s, "                Token::{n} => TokD::unit({i}),");
            } else {
                let _ = writeln!(s, "                Token::{n}(v) => TokD::val({i}, v),");
            }
        }
        s.push_str("            }\n        }\n    }");
        s.push_str(semi());
        decl.push(s);
    }
    // rules
    let plain = |it: &Item| match it.sym {
        Sym::T(t) => Some(t) != g.wildcard,
        Sym::C(c) => g.classes[c].members.iter().all(|t| g.term_ty(*t) == g.class_ty(c) && Some(*t) != g.wildcard),
        _ => true,
    };
    let mut rules: Vec<(usize, String)> = Vec::new();
    for (id, ru) in g.rules.iter().enumerate() {
        let mut s = format!("{} ::=", g.nts[ru.lhs].0);
        let mut args = String::new();
        for (p, it) in ru.rhs.iter().enumerate() {
            s.push(' ');
            match it.sym {
                Sym::T(t) => s.push_str(&g.terms[t].0),
                Sym::N(n) => s.push_str(&g.nts[n].0),
                Sym::Err => s.push_str("error"),
                Sym::C(c) => match &g.classes[c].name {
                    Some(n) => s.push_str(n),
                    None => s.push_str(&members[c].join("|")),
                },
            }
            if it.opt {
                s.push('?');
            }
            match it.alias {
                // a pattern that takes nothing
                0 if ru.code && g.layout != 0 && plain(it) && style.pct(7) => s.push_str("(_)"),
                0 => (),
                3 => {
                    let _ = write!(s, "((a{p}, b{p}))");
                    let _ = write!(args, ".arg({p}, (a{p}, b{p}))");
                }
                k => {
                    let m = if k == 2 { "mut " } else { "" };
                    let at = if k == 1 && g.layout != 0 && style.pct(3) { " @ _" } else { "" };
                    let _ = write!(s, "({m}A{p}{at})");
                    let _ = write!(args, ".arg({p}, A{p})");
                }
            }
        }
        if let Some(t) = ru.prec {
            let _ = write!(s, " [{}]", g.terms[t].0);
        }
        if ru.code {
            let ty = rty(g, &g.nt_ty(ru.lhs));
            let call = format!("Act::new({id}){args}.ctx(extra).fin::<{ty}, {err}>()");
            // the ways in which user code leaves with an error
            let _ = match if g.layout == 0 { 0 } else { style.below(6) } {
                1 => write!(s, " {{ match {call} {{ Ok(v) => v, Err(e) => return Err(e) }} }}"),
                2 => write!(s, " {{ let v = {call}; if v.is_err() {{ return v.map(|_| ()); }} v? }}"),
                3 => write!(s, " {{ loop {{ break {call}?; }} }};"),
                _ => write!(s, " {{ {call}? }}"),
            };
        } else {
            s.push(';');
        }
        rules.push((ru.lhs, s));
    }
    // layout 0: everything in the order in which it was made
    if g.layout != 0 {
        r.shuffle(&mut decl);
        r.shuffle(&mut rules);
    }
    if !g.explicit_start {
        let p = rules.iter().position(|x| x.0 == g.start).unwrap_or(0);
        rules.swap(0, p);
    }
    let mut precs: Vec<String> = Vec::new();
    for (a, v) in &g.assoc {
        let m: Vec<&str> = v.iter().map(|t| g.terms[*t].0.as_str()).collect();
        precs.push(format!(
            "%{} {};",
            match a {
                Assoc::Left => "left",
                Assoc::Right => "right",
                Assoc::Non => "nonassoc",
            },
            m.join(" ")
        ));
    }
    // a random merge that keeps the order of precedence directives and of rules
    let mut out = String::new();
    let (mut a, mut b, mut c) = (decl.into_iter().peekable(), precs.into_iter().peekable(), rules.into_iter().map(|x| x.1).peekable());
    loop {
        let mut k = Vec::new();
        if a.peek().is_some() {
            k.push(0);
        }
        if b.peek().is_some() {
            k.push(1);
        }
        if c.peek().is_some() {
            k.push(2);
        }
        if k.is_empty() {
            break;
        }
        let line = match if g.layout == 0 { &k[0] } else { r.pick(&k) } {
            0 => a.next(),
            1 => b.next(),
            _ => c.next(),
        };
        let _ = writeln!(out, "    {}", line.unwrap());
    }
    out
}

/// A whole source file for one grammar.
pub fn source(g: &Gram) -> String {
    let mut s = String::new();
    let Shape { tok: tg, par: pg, .. } = shape(g);
    let _ = writeln!(s, "use pomsim::rt::*;\npomsim::pomelo::pomelo! {{\n{}}}", grammar_text(g));
    let _ = writeln!(s, "struct S(parser::Parser{pg});\nimpl Sess for S {{");
    let _ = writeln!(s, "    fn parse(&mut self, k: usize) -> Result<(), u64> {{\n        let mk = || -> parser::Token{tg} {{ match k {{");
    for (i, (n, _)) in g.terms.iter().enumerate().skip(1) {
        if g.term_ty(i) == Ty::Unit {
            let _ = writeln!(s, "            {i} => parser::Token::{n},");
        } else {
            let _ = writeln!(s, "            {i} => parser::Token::{n}(tokv()),");
        }
    }
    let _ = writeln!(s, "            _ => panic!(\"no such token\"),\n        }} }};\n        let mut t = mk();");
    if g.extra_token {
        // the extra value goes to another token and comes back
        s.push_str(
            "        tok_extra(t.extra());
        let mut u = aside(mk);
        std::mem::swap(t.extra_mut(), u.extra_mut());
        *t.extra_mut() = u.into_extra();
",
        );
    }
    let _ = writeln!(s, "        self.0.parse(t).map_err(|e| ErrT::code(&e))\n    }}");
    if g.extra_arg {
        s.push_str(
            "    fn end(self: Box<Self>) -> Result<(Vec<Atom>, Option<Snap>), u64> {
        self.0.end_of_input().map(|(v, x)| { let s = x.snap(); (flat(v), s) }).map_err(|e| ErrT::code(&e))
    }
    fn snap(&self) -> Option<Snap> { self.0.extra().snap() }
    fn bump(&mut self, code: u64) { self.0.extra_mut().bump(code) }
    fn into_extra(self: Box<Self>) -> Option<Snap> { self.0.into_extra().snap() }
}
pub fn new() -> Box<dyn Sess> { Box::new(S(parser::Parser::new(Ctx::mk()))) }
",
        );
    } else {
        s.push_str(
            "    fn end(self: Box<Self>) -> Result<(Vec<Atom>, Option<Snap>), u64> {
        self.0.end_of_input().map(|v| (flat(v), None)).map_err(|e| ErrT::code(&e))
    }
    fn snap(&self) -> Option<Snap> { None }
    fn bump(&mut self, _code: u64) {}
    fn into_extra(self: Box<Self>) -> Option<Snap> { None }
}
pub fn new() -> Box<dyn Sess> { Box::new(S(parser::Parser::new())) }
",
        );
    }
    s
}

/// The program that runs a set of grammars.
pub fn main_source(n: usize, skip: &[bool]) -> String {
    let mut s = String::from("#![allow(warnings)]\n");
    let mut v = String::new();
    for i in 0..n {
        if skip[i] {
            continue;
        }
        let _ = writeln!(s, "mod g{i:03};");
        let _ = writeln!(v, "        ({i}, g{i:03}::new as fn() -> Box<dyn pomsim::rt::Sess>),");
    }
    let _ = writeln!(s, "fn main() {{\n    pomsim::runner::main(&[\n{v}    ]);\n}}");
    s
}
