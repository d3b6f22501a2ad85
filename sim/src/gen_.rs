//! Makes grammars of many shapes, and keeps those that the documentation says are fine.

use crate::ir::*;
use crate::lalr::{A, Reject, Tab};
use crate::model::{Gx, prepare};
use crate::rng::{Rng, mix};

/// What the property under check wants to see more of.
#[derive(Clone, Debug)]
pub struct Prof {
    pub families: Vec<(&'static str, u32)>,
    pub err: u32,
    pub fallback: u32,
    pub wildcard: u32,
    pub opt: u32,
    pub class: u32,
    pub extra_arg: u32,
    pub err_ty: u32,
    pub default_type: u32,
    pub extra_token: u32,
    pub simstack: u32,
    pub small_limit: u32,
    pub syn: u32,
    pub pfail: u32,
    pub ovf: u32,
    pub generic: u32,
    pub typed: u32,
    pub code: u32,
}

pub fn profile(prop: &str) -> Prof {
    let mut p = Prof {
        families: vec![("rand", 30), ("expr", 22), ("stmt", 14), ("list", 12), ("big", 3), ("null", 6), ("long", 4), ("deep", 4), ("json", 3), ("sql", 4), ("la", 5), ("prec", 5), ("edge", 2)],
        err: 20,
        fallback: 15,
        wildcard: 10,
        opt: 25,
        class: 20,
        extra_arg: 50,
        err_ty: 60,
        default_type: 8,
        extra_token: 8,
        simstack: 50,
        small_limit: 15,
        syn: 80,
        pfail: 75,
        ovf: 70,
        generic: 6,
        typed: 60,
        code: 75,
    };
    match prop {
        "C01" => {
            p.code = 90;
            p.err = 8;
            p.families = vec![("rand", 30), ("expr", 30), ("stmt", 8), ("list", 10), ("big", 5), ("null", 8), ("long", 4), ("deep", 3), ("json", 3), ("sql", 4), ("la", 22), ("prec", 14), ("edge", 12)];
        }
        "C02" => {
            p.typed = 85;
            p.err = 35;
            p.small_limit = 30;
            p.families[2].1 = 30;
        }
        "C03" => {
            p.code = 95;
            p.err = 30;
            p.families[4].1 = 1;
        }
        "C04" => {
            p.err_ty = 85;
            p.syn = 90;
            p.pfail = 90;
            p.ovf = 90;
            p.small_limit = 35;
            p.code = 95;
            p.err = 30;
            p.families[4].1 = 1;
        }
        "C05" => {
            p.err = 100;
            p.syn = 97;
            p.families = vec![("stmt", 60), ("rand", 25), ("expr", 10), ("json", 6), ("sql", 6), ("list", 12), ("null", 6)];
        }
        "C06" => {
            p.err = 0;
            p.syn = 97;
            p.families[2].1 = 5;
        }
        "C07" => {
            p.small_limit = 65;
            p.ovf = 90;
            p.simstack = 60;
            p.err = 25;
            p.families = vec![("rand", 20), ("expr", 20), ("stmt", 15), ("list", 15), ("null", 15), ("long", 10), ("deep", 25), ("json", 5)];
        }
        "C08" => {
            p.syn = 100;
            p.err = 40;
            p.fallback = 35;
            p.wildcard = 15;
            p.families[1].1 = 30;
            p.families[4].1 = 6;
            p.families[12].1 = 6;
            p.families.push(("wide", 3));
        }
        "C09" => {
            p.fallback = 85;
            p.wildcard = 55;
            p.syn = 90;
            p.families = vec![("fb", 45), ("rand", 25), ("expr", 8), ("stmt", 8), ("list", 8), ("sql", 12), ("big", 2)];
        }
        "C10" => {
            p.opt = 55;
            p.class = 45;
            p.typed = 80;
            p.default_type = 15;
            p.extra_token = 20;
            p.generic = 12;
            p.families[3].1 = 25;
            p.families[6].1 = 12;
        }
        "C12" => {
            p.families = vec![("rand", 25), ("expr", 20), ("stmt", 20), ("list", 10), ("big", 6), ("null", 15), ("long", 6), ("deep", 12), ("json", 4), ("sql", 4), ("fb", 6), ("la", 12), ("prec", 6), ("edge", 14)];
            p.small_limit = 10;
            p.err = 35;
        }
        "C11" => {
            p.opt = 50;
            p.class = 45;
            p.fallback = 35;
            p.wildcard = 20;
            p.err = 30;
            p.default_type = 15;
        }
        "C13" => {
            p.extra_arg = 100;
            p.err = 30;
            p.small_limit = 30;
        }
        _ => (),
    }
    p
}

struct B {
    g: Gram,
}
impl B {
    fn new() -> B {
        let mut g = Gram::default();
        g.terms.push(("$".into(), None));
        B { g }
    }
    fn t(&mut self, n: &str) -> usize {
        if let Some(i) = self.g.terms.iter().position(|x| x.0 == n) {
            return i;
        }
        self.g.terms.push((n.into(), None));
        self.g.terms.len() - 1
    }
    fn n(&mut self, n: &str) -> usize {
        if let Some(i) = self.g.nts.iter().position(|x| x.0 == n) {
            return i;
        }
        self.g.nts.push((n.into(), Ty::Unit));
        self.g.nts.len() - 1
    }
    fn class(&mut self, name: Option<&str>, m: Vec<usize>) -> usize {
        self.g.classes.push(Class { name: name.map(|s| s.to_string()), members: m });
        self.g.classes.len() - 1
    }
    fn rule(&mut self, lhs: usize, rhs: Vec<Sym>) -> usize {
        self.g.rules.push(Rule { lhs, rhs: rhs.into_iter().map(|s| Item { sym: s, opt: false, alias: 0 }).collect(), code: true, prec: None });
        self.g.rules.len() - 1
    }
    /// Text form: `lhs ::= A b c?` with `error`, `A|B` and `[Prec]`.
    fn r(&mut self, s: &str) -> usize {
        let (l, rhs) = s.split_once("::=").expect("rule");
        let lhs = self.n(l.trim());
        let mut v = Vec::new();
        let mut prec = None;
        for w in rhs.split_whitespace() {
            if let Some(p) = w.strip_prefix('[') {
                prec = Some(self.t(p.trim_end_matches(']')));
                continue;
            }
            let (w, opt) = match w.strip_suffix('?') {
                Some(w) => (w, true),
                None => (w, false),
            };
            let sym = if w == "error" {
                self.g.err_sym = Some(None);
                Sym::Err
            } else if w.contains('|') {
                let m = w.split('|').map(|x| self.t(x)).collect();
                Sym::C(self.class(None, m))
            } else if w.starts_with(|c: char| c.is_ascii_uppercase()) {
                Sym::T(self.t(w))
            } else {
                Sym::N(self.n(w))
            };
            v.push(Item { sym, opt, alias: 0 });
        }
        self.g.rules.push(Rule { lhs, rhs: v, code: true, prec });
        self.g.rules.len() - 1
    }
}

const ADJ: [&str; 26] = ["Al", "Be", "Ce", "De", "Eps", "Fo", "Ga", "Hu", "In", "Jo", "Ka", "Lu", "Mi", "Nu", "Om", "Pi", "Qu", "Rho", "Si", "Ta", "Ups", "Vo", "Wu", "Xi", "Yo", "Ze"];

fn tname(r: &mut Rng, i: usize) -> String {
    format!("{}{}", r.pick(&ADJ), i)
}

fn fam_rand(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    let nn = r.range(2, 7);
    let nt = r.range(3, 10);
    for i in 0..nn {
        let s = format!("{}{i}", ["s", "ex", "it", "ba", "zo"][r.below(5)]);
        b.n(&s);
    }
    for i in 0..nt {
        let s = tname(r, i);
        b.t(&s);
    }
    let guide = r.range(20, 90) as u32;
    let epsilon = r.range(0, 30) as u32;
    for n in 0..nn {
        let k = r.range(1, 4);
        for _ in 0..k {
            let mut v = Vec::new();
            if !r.pct(epsilon) || (n == 0 && k == 1) {
                let len = *r.pick(&[1, 1, 2, 2, 3, 3, 4, 5]);
                if r.pct(guide) {
                    v.push(Sym::T(1 + r.below(nt)));
                }
                for _ in 0..len {
                    if r.pct(50) && nn > 1 {
                        // mostly downwards, sometimes recursive
                        let m = if r.pct(70) && n + 1 < nn { r.range(n + 1, nn - 1) } else { r.range(1, nn - 1) };
                        v.push(Sym::N(m));
                    } else {
                        v.push(Sym::T(1 + r.below(nt)));
                    }
                }
            }
            b.rule(n, v);
        }
    }
    if r.pct(p.err) {
        b.g.err_sym = Some(None);
        for _ in 0..r.range(1, 2) {
            let n = r.below(nn);
            let mut v = vec![Sym::Err];
            if r.pct(75) {
                v.push(Sym::T(1 + r.below(nt)));
            }
            if r.pct(30) {
                v.insert(0, Sym::T(1 + r.below(nt)));
            }
            b.rule(n, v);
        }
    }
    // random precedences now and then
    if r.pct(15) {
        let mut ts: Vec<usize> = (1..=nt).collect();
        r.shuffle(&mut ts);
        for c in ts.chunks(2).take(r.range(1, 3)) {
            b.g.assoc.push((*r.pick(&[Assoc::Left, Assoc::Right, Assoc::Non]), c.to_vec()));
        }
    }
    b.g
}

/// Several nonterminals with the same right hand side, told apart only by what may follow, and
/// that only through lists, options and chains that may be empty.
fn fam_la(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    let k = r.range(2, 4);
    let nctx = r.range(1, 3);
    let share = r.pct(25);
    let body: Vec<String> = (0..r.range(0, 2)).map(|i| format!("Body{i}")).collect();
    let body = if r.pct(12) { String::new() } else if body.is_empty() { "Body0".into() } else { body.join(" ") };
    let mut parts = 0;
    if r.pct(40) {
        b.r("input ::= items");
        b.r("items ::= item");
        if r.pct(50) {
            b.r("items ::= items Sep item");
        } else {
            b.r("items ::= items item");
        }
    } else {
        b.r("input ::= item");
    }
    for i in 0..k {
        // what follows
        let mut tail = String::new();
        for _ in 0..r.range(1, 3) {
            let n = parts;
            parts += 1;
            let own = if share { format!("Sh{}", r.below(4)) } else { format!("Tk{i}x{n}") };
            match r.below(12) {
                0 | 1 => {
                    b.r(&format!("l{n} ::="));
                    b.r(&format!("l{n} ::= l{n} {own}"));
                }
                10 | 11 => {
                    // the news have a long way to go
                    let d = r.range(2, 9);
                    let name = |i: usize| if i == 0 { format!("l{n}") } else { format!("l{n}d{i}") };
                    let side: Vec<bool> = (0..d).map(|_| r.pct(25)).collect();
                    let down = r.pct(75);
                    for j in 0..=d {
                        let i = if down { j } else { d - j };
                        if i == d {
                            b.r(&format!("{} ::=", name(d)));
                            if r.pct(60) {
                                b.r(&format!("{} ::= {own}", name(d)));
                            }
                        } else if side[i] {
                            b.r(&format!("{} ::= {} Sd{n}x{i}?", name(i), name(i + 1)));
                        } else {
                            b.r(&format!("{} ::= {}", name(i), name(i + 1)));
                        }
                    }
                }
                2 => {
                    b.r(&format!("l{n} ::="));
                    b.r(&format!("l{n} ::= {own} l{n}"));
                }
                3 => {
                    // the token only shows behind something else that may be empty
                    b.r(&format!("l{n} ::="));
                    b.r(&format!("l{n} ::= l{n} m{n} {own}"));
                    b.r(&format!("m{n} ::="));
                    b.r(&format!("m{n} ::= Em{i}"));
                }
                4 => {
                    b.r(&format!("l{n} ::= m{n}"));
                    b.r(&format!("m{n} ::= o{n}"));
                    b.r(&format!("o{n} ::="));
                    b.r(&format!("o{n} ::= {own}"));
                }
                5 => {
                    b.r(&format!("l{n} ::= m{n} {own}?"));
                    b.r(&format!("m{n} ::= Em{n}?"));
                }
                6 => {
                    b.r(&format!("l{n} ::= m{n} o{n} m{n}"));
                    b.r(&format!("m{n} ::="));
                    b.r(&format!("o{n} ::="));
                    b.r(&format!("o{n} ::= {own} o{n}"));
                }
                7 => {
                    // recursion through another, both of which may be empty
                    b.r(&format!("l{n} ::="));
                    b.r(&format!("l{n} ::= m{n} {own}"));
                    b.r(&format!("m{n} ::= l{n}"));
                }
                8 => {
                    b.r(&format!("l{n} ::= {own}|Ex{n}"));
                }
                _ => {
                    b.r(&format!("l{n} ::="));
                    b.r(&format!("l{n} ::= {own}"));
                }
            }
            tail += &format!("l{n} ");
        }
        b.r(&format!("q{i} ::= {body}"));
        let mut any = false;
        for c in 0..nctx {
            if any && !r.pct(70) {
                continue;
            }
            any = true;
            let pre = if c == 0 && r.pct(40) { String::new() } else { format!("Ct{c}") };
            let end = match r.below(5) {
                0 => String::new(),
                1 => format!("En{}", r.below(k)),
                _ => format!("En{i}"),
            };
            match r.below(6) {
                5 => {
                    // through several others, to either side of which something may stand
                    let d = r.range(2, 8);
                    b.r(&format!("item ::= {pre} w{i}c{c}d0 {tail} {end}"));
                    for j in 0..d {
                        let inner = if j + 1 == d { format!("q{i}") } else { format!("w{i}c{c}d{}", j + 1) };
                        b.r(&format!("w{i}c{c}d{j} ::= {inner}"));
                        if r.pct(20) {
                            b.r(&format!("w{i}c{c}d{j} ::= Wl{i}x{j} {inner} Wr{i}x{j}?"));
                        }
                    }
                }
                // the tail only in some of the contexts
                0 if c > 0 => {
                    b.r(&format!("item ::= {pre} q{i} {end}"));
                }
                1 => {
                    b.r(&format!("item ::= {pre} w{i}c{c} {tail} {end}"));
                    b.r(&format!("w{i}c{c} ::= q{i}"));
                }
                2 => {
                    // what follows lies outside the rule
                    b.r(&format!("item ::= {pre} w{i}c{c} {tail} {end}"));
                    b.r(&format!("w{i}c{c} ::= Wr{}? q{i} z{i}c{c}", r.below(2)));
                    b.r(&format!("z{i}c{c} ::="));
                    b.r(&format!("z{i}c{c} ::= Zt{i}"));
                }
                _ => {
                    b.r(&format!("item ::= {pre} q{i} {tail} {end}"));
                }
            }
        }
    }
    if r.pct(p.err) {
        b.r("item ::= error Sync");
    }
    b.g
}

/// More than two ways to go on, all of them with a precedence.
fn fam_prec(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    b.r("input ::= top");
    b.n("top");
    b.n("e");
    let nops = r.range(1, 4);
    let ops: Vec<String> = (0..nops).map(|i| format!("Op{i}")).collect();
    let mut marks: Vec<String> = ops.clone();
    for i in 0..r.range(0, 3) {
        marks.push(format!("Mk{i}"));
    }
    for o in &ops {
        let i = b.r(&format!("e ::= e {o} e"));
        if r.pct(20) {
            let m = r.pick(&marks).clone();
            b.g.rules[i].prec = Some(b.t(&m));
        }
    }
    b.r("e ::= Num");
    if r.pct(30) {
        b.r("e ::= LP e RP");
    }
    if r.pct(85) {
        b.r("top ::= e");
    }
    for k in 0..r.range(1, 3) {
        // another name for something that looks the same
        let f = format!("f{k}");
        for _ in 0..r.range(1, 2) {
            let o = r.pick(&ops).clone();
            let m = r.pick(&marks).clone();
            match r.below(5) {
                0 => b.r(&format!("{f} ::= e [{m}]")),
                1 => b.r(&format!("{f} ::= {o} e [{m}]")),
                2 => b.r(&format!("{f} ::= e {o} e")),
                _ => b.r(&format!("{f} ::= e {o} e [{m}]")),
            };
        }
        for _ in 0..r.range(1, 2) {
            let o = r.pick(&ops).clone();
            match r.below(6) {
                0 => b.r(&format!("top ::= {f}")),
                1 => b.r(&format!("e ::= {f}")),
                2 => b.r(&format!("top ::= {f} Tail{k}")),
                3 => b.r(&format!("e ::= {f} {o} Num")),
                4 => b.r(&format!("top ::= {f} {o} e")),
                _ => b.r(&format!("top ::= {f} {o} Num")),
            };
        }
    }
    if r.pct(p.err) {
        b.r("top ::= error");
    }
    let mut levels: Vec<Vec<usize>> = vec![vec![]; r.range(2, 4)];
    for m in &marks {
        let t = b.t(m);
        if r.pct(92) {
            let l = r.below(levels.len());
            levels[l].push(t);
        }
    }
    for l in levels {
        if !l.is_empty() {
            b.g.assoc.push((*r.pick(&[Assoc::Left, Assoc::Right, Assoc::Non, Assoc::Non]), l));
        }
    }
    b.g
}

/// So many entries that their places no longer fit 15 bits.
fn fam_huge(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    let (n, m) = (r.range(120, 150), r.range(290, 330));
    let gap = r.range(5, 9);
    b.r("input ::= items");
    b.r("items ::= item");
    b.r("items ::= items item");
    for i in 0..n {
        let cls: Vec<String> = (0..m).filter(|j| (i + j) % gap != 0).map(|j| format!("T{j}")).collect();
        b.r(&format!("item ::= P{i} {} Q{}", cls.join("|"), i % 5));
    }
    if r.pct(p.err) {
        b.r("item ::= error Q0");
    }
    b.g
}

/// More tokens than a byte can count, most of them expected in the same place.
fn fam_wide(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    for i in 0..r.range(2, 40) {
        b.t(&format!("U{i}"));
    }
    b.r("input ::= stmts");
    b.r("stmts ::= stmt");
    b.r("stmts ::= stmts stmt");
    b.r("stmt ::= Let word Is val Semi");
    b.r("stmt ::= word Semi");
    b.r("val ::= Num");
    b.r("val ::= word");
    b.r("val ::= Lp val Rp");
    for i in 0..r.range(240, 330) {
        if r.pct(97) {
            b.r(&format!("word ::= W{i}"));
        } else {
            b.r(&format!("stmt ::= W{i} Lp val Rp Semi"));
        }
    }
    if r.pct(p.err) {
        b.r("stmt ::= error Semi");
    }
    b.g
}

/// Sizes at which the types of the tables change.
fn fam_edge(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    let kind = *r.pick(&[0, 1, 2, 2, 3, 3]);
    if kind == 2 {
        // the lowest offset is minus the number of the first token that is used
        let h = *r.pick(&[125, 126, 127, 128, 129]) - 1;
        for i in 0..h {
            b.t(&format!("U{i}"));
        }
    }
    b.n("input");
    let k = r.range(5, 9);
    for i in 0..k {
        b.t(&format!("A{i}"));
    }
    b.r("input ::= stmts");
    b.r("stmts ::= stmt");
    b.r("stmts ::= stmts stmt");
    for i in 0..k {
        b.r(&format!("stmt ::= A{i} {}", r.pick(&["Semi", "val Semi", "val", "Lb val Rb", "val Comma val"])));
    }
    b.r("val ::= Num");
    b.r("val ::= Id");
    if r.pct(50) {
        b.r("val ::= Num? Lp val Rp");
    }
    if r.pct(p.err) {
        b.r("stmt ::= error Semi");
    }
    let syms = |b: &B| {
        let opts: std::collections::HashSet<Sym> = b.g.rules.iter().flat_map(|ru| ru.rhs.iter().filter(|i| i.opt).map(|i| i.sym)).collect();
        b.g.terms.len() + b.g.nts.len() + b.g.classes.len() + opts.len() + 2
    };
    let size = |b: &B| {
        let mut g = b.g.clone();
        g.start = 0;
        prepare(&g, 900).map_or(0, |x| x.t.act.len() + x.x.rules.len())
    };
    match kind {
        0 => {
            let want = *r.pick(&[126, 127, 128, 129, 255, 256, 257]);
            let mut i = 0;
            while syms(&b) < want {
                b.t(&format!("U{i}"));
                i += 1;
            }
        }
        1 => {
            // states and rules
            let want = r.range(248, 258);
            for i in 0..200 {
                let n = size(&b);
                if n == 0 || n >= want {
                    break;
                }
                // every one of these is a rule and two or three states
                let add = want - n;
                if add >= 9 {
                    b.r(&format!("stmt ::= P{i} Q{i}a Q{i}b Q{i}c Q{i}d Q{i}e Q{i}f"));
                } else if add >= 3 {
                    b.r(&format!("stmt ::= P{i} Semi"));
                } else {
                    b.r(&format!("stmt ::= P{i}"));
                }
            }
        }
        3 => {
            // long rows, so that offsets become large
            let n = if r.pct(30) { r.range(245, 320) } else { r.range(100, 135) };
            for i in 0..n {
                b.t(&format!("V{i}"));
            }
            for i in 0..n {
                if r.pct(85) {
                    b.r(&format!("val ::= V{i}"));
                }
            }
        }
        _ => (),
    }
    b.g
}

fn fam_expr(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    let start = b.n("input");
    let e = b.n("expr");
    let many = r.pct(25);
    let nops = if many { r.range(12, 26) } else { r.range(1, 7) };
    let nlev = if many { r.range(3, 8) } else { r.range(1, 4) };
    let mut levels: Vec<Vec<usize>> = vec![vec![]; nlev];
    let mut ops = Vec::new();
    for i in 0..nops {
        let s = format!("Op{}", tname(r, i));
        let t = b.t(&s);
        levels[r.below(nlev)].push(t);
        ops.push(t);
    }
    match r.below(4) {
        0 => {
            b.r("input ::= expr");
        }
        1 => {
            b.r("input ::= exprs");
            b.r("exprs ::= expr Semi");
            b.r("exprs ::= exprs expr Semi");
        }
        2 => {
            b.r("input ::= expr?");
        }
        _ => {
            b.r("input ::= Begin expr End");
        }
    }
    let _ = start;
    let mut used_class = Vec::new();
    if r.pct(p.class) {
        for (li, l) in levels.iter().enumerate() {
            if l.len() >= 2 && r.pct(60) {
                let name = format!("Ops{li}");
                let c = b.class(if r.pct(50) { Some(&name) } else { None }, l.clone());
                used_class.extend(l.clone());
                b.rule(e, vec![Sym::N(e), Sym::C(c), Sym::N(e)]);
            }
        }
    }
    for t in &ops {
        if used_class.contains(t) {
            continue;
        }
        match r.below(12) {
            0 => {
                b.rule(e, vec![Sym::T(*t), Sym::N(e)]);
            }
            1 => {
                b.rule(e, vec![Sym::N(e), Sym::T(*t)]);
            }
            _ => {
                b.rule(e, vec![Sym::N(e), Sym::T(*t), Sym::N(e)]);
                if r.pct(15) {
                    // the same token as a prefix operator with the precedence of another
                    let i = b.rule(e, vec![Sym::T(*t), Sym::N(e)]);
                    b.g.rules[i].prec = Some(*r.pick(&ops));
                }
            }
        }
    }
    if r.pct(p.class) {
        // prefix or postfix operators as a class, not all of them with a precedence
        let mut m: Vec<usize> = Vec::new();
        for i in 0..r.range(2, 3) {
            let s = format!("Pre{i}");
            let t = b.t(&s);
            m.push(t);
            if r.pct(50) {
                let l = r.below(nlev);
                levels[l].push(t);
            }
        }
        r.shuffle(&mut m);
        let c = b.class(if r.pct(40) { Some("Prefix") } else { None }, m);
        if r.pct(80) {
            b.rule(e, vec![Sym::C(c), Sym::N(e)]);
        } else {
            b.rule(e, vec![Sym::N(e), Sym::C(c)]);
        }
    }
    b.r("expr ::= Num");
    if r.pct(80) {
        b.r("expr ::= LP expr RP");
    }
    if r.pct(40) {
        b.r("expr ::= Id");
    }
    if r.pct(30) {
        b.r("expr ::= Id LP args? RP");
        b.r("args ::= expr");
        b.r("args ::= args Comma expr");
    }
    if r.pct(20) {
        b.r("expr ::= expr Quest expr Colon expr");
        let (q, c) = (b.t("Quest"), b.t("Colon"));
        let l = r.below(nlev);
        levels[l].push(q);
        levels[l].push(c);
    }
    if r.pct(20) {
        b.r("expr ::= expr LB expr RB");
        let q = b.t("LB");
        levels.push(vec![q]);
    }
    if r.pct(p.err) {
        match r.below(3) {
            0 => b.r("expr ::= LP error RP"),
            1 => b.r("input ::= error"),
            _ => b.r("expr ::= error"),
        };
    }
    for l in levels {
        if !l.is_empty() {
            b.g.assoc.push((*r.pick(&[Assoc::Left, Assoc::Left, Assoc::Right, Assoc::Non]), l));
        }
    }
    b.g
}

fn fam_stmt(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("program");
    b.r("program ::= stmts");
    if r.pct(60) {
        b.r("stmts ::=");
        b.r("stmts ::= stmts stmt");
    } else {
        b.r("stmts ::= stmt");
        b.r("stmts ::= stmts stmt");
    }
    b.r("stmt ::= exp Semi");
    if r.pct(70) {
        b.r("stmt ::= Id Eq exp Semi");
    }
    if r.pct(60) {
        b.r("stmt ::= LB stmts RB");
    }
    if r.pct(40) {
        b.r("stmt ::= If LP exp RP stmt");
        if r.pct(50) {
            b.r("stmt ::= If LP exp RP stmt Else stmt");
            let (x, y) = (b.t("RP"), b.t("Else"));
            b.g.assoc.push((Assoc::Right, vec![x, y]));
            for ru in b.g.rules.iter_mut() {
                if ru.rhs.len() >= 5 && ru.rhs[0].sym == Sym::T(b.g.terms.iter().position(|t| t.0 == "If").unwrap()) {
                    ru.prec = Some(x);
                }
            }
        }
    }
    if r.pct(40) {
        b.r("stmt ::= While exp Do stmts Done");
    }
    if r.pct(30) {
        b.r("stmt ::= Var names Semi");
        b.r("names ::= Id");
        b.r("names ::= names Comma Id");
    }
    b.r("exp ::= term");
    b.r("exp ::= exp Plus term");
    b.r("term ::= Num");
    if r.pct(60) {
        b.r("term ::= Id");
    }
    if r.pct(60) {
        b.r("term ::= LP exp RP");
    }
    if r.pct(p.err) {
        let n = r.range(1, 3);
        for _ in 0..n {
            match r.below(10) {
                0 | 1 | 2 => b.r("stmt ::= error Semi"),
                3 => b.r("stmt ::= LB error RB"),
                4 => b.r("term ::= LP error RP"),
                5 => b.r("term ::= error"),
                6 => b.r("program ::= error"),
                7 => b.r("exp ::= exp Plus error"),
                8 => b.r("stmt ::= Id Eq error Semi"),
                _ => b.r("stmt ::= If error stmt"),
            };
        }
    }
    b.g
}

fn fam_list(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    match r.below(3) {
        0 => b.r("input ::= items?"),
        1 => b.r("input ::= items"),
        _ => b.r("input ::= Open items? Close?"),
    };
    if r.pct(50) {
        b.r("items ::= item");
        b.r("items ::= items Comma item");
    } else if r.pct(50) {
        b.r("items ::= item Comma?");
        b.r("items ::= item Comma items");
    } else {
        b.r("items ::= item");
        b.r("items ::= items item");
    }
    let k = r.range(1, 5);
    for i in 0..k {
        let kw = format!("K{}", tname(r, i));
        let opts = ["Ta Tb? Tc?", "Ta|Tb Tc", "Tx? Ty", "atom? Ty", "Ta|Tb|Tc? Tz", "atom Tw? atom", "LP items? RP", "Tx|Ty", "atom? Tq?", "cls Tw", "cls? Tz", "Tx? Ty? Tz?", "Ta|Tb? Tq", "Tb|Ta? Tw", "Ta|Tb|Tc|Td? Tw", "Tb|Tc? Tx|Ty? Tz", "Ta|Tb? Ta|Tc"];
        let o = *r.pick(&opts);
        b.r(&format!("item ::= {kw} {o}"));
    }
    if b.g.nts.iter().any(|n| n.0 == "atom") {
        b.r("atom ::= Num");
        b.r("atom ::= Str");
        if r.pct(40) {
            b.r("atom ::= Minus? Flt");
        }
    }
    if let Some(c) = b.g.nts.iter().position(|n| n.0 == "cls") {
        // a token class stands in its place
        let m = (0..r.range(2, 4)).map(|i| b.t(&format!("Mem{i}"))).collect();
        let k = b.class(Some("Clsa"), m);
        for ru in b.g.rules.iter_mut() {
            for it in ru.rhs.iter_mut() {
                if it.sym == Sym::N(c) {
                    it.sym = Sym::C(k);
                }
            }
        }
        // the nonterminal is no longer used: give it a use of its own
        b.r("cls ::= Mxx");
        b.r("item ::= Kcls cls");
    }
    if r.pct(p.err) {
        match r.below(3) {
            0 => b.r("item ::= error"),
            1 => b.r("item ::= error Close"),
            _ => b.r("items ::= error Comma item"),
        };
    }
    b.g
}

fn fam_big(r: &mut Rng, _p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    let sparse = r.pct(50);
    b.r("input ::= stmts");
    b.r("stmts ::= stmt");
    b.r("stmts ::= stmts stmt");
    let n = if sparse { r.range(60, 140) } else { r.range(30, 60) };
    let pool = r.range(20, 120);
    for i in 0..n {
        let mut s = format!("stmt ::= Kw{i}");
        for _ in 0..r.range(0, 3) {
            match r.below(5) {
                0 => s.push_str(" val"),
                1 => s.push_str(&format!(" sub{}", r.below(6))),
                _ => s.push_str(&format!(" W{}", r.below(pool))),
            }
        }
        s.push_str(" Semi");
        b.r(&s);
    }
    b.r("val ::= Num");
    b.r("val ::= Id");
    b.r("val ::= LP val RP");
    for i in 0..6 {
        if b.g.nts.iter().any(|x| x.0 == format!("sub{i}")) {
            b.r(&format!("sub{i} ::= S{i}"));
            b.r(&format!("sub{i} ::= sub{i} S{i} val"));
            for j in 0..r.range(0, 8) {
                b.r(&format!("sub{i} ::= S{i}x{j} W{}", r.below(pool)));
            }
        }
    }
    if r.pct(30) {
        // a wide operator table on top
        for i in 0..r.range(10, 40) {
            b.r(&format!("stmt ::= Num Ex{i} val Semi"));
        }
    }
    b.g
}

fn fam_null(r: &mut Rng, _p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    let n = r.range(3, 9);
    let mut s = String::from("input ::=");
    for i in 0..n {
        s.push_str(&format!(" o{i}"));
    }
    if r.pct(50) {
        s.push_str(" End");
    }
    b.r(&s);
    for i in 0..n {
        let depth = r.range(0, 3);
        let mut cur = format!("o{i}");
        for d in 0..depth {
            let nx = format!("o{i}d{d}");
            b.r(&format!("{cur} ::= {nx}"));
            if r.pct(30) {
                b.r(&format!("{cur} ::= A{i}v{d} {nx} B{i}"));
            }
            cur = nx;
        }
        if r.pct(85) {
            b.r(&format!("{cur} ::="));
        }
        b.r(&format!("{cur} ::= A{i}"));
        if r.pct(30) {
            b.r(&format!("{cur} ::= {cur} A{i}w"));
        }
        if r.pct(25) {
            b.r(&format!("{cur} ::= LP input0 RP"));
        }
    }
    if b.g.nts.iter().any(|x| x.0 == "input0") {
        b.r("input0 ::=");
        b.r("input0 ::= LP input0 RP input0");
    }
    b.g
}

fn fam_long(r: &mut Rng, _p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    b.r("input ::= recs");
    b.r("recs ::=");
    b.r("recs ::= recs rec");
    for i in 0..r.range(1, 3) {
        let mut s = format!("rec ::= R{i}");
        for j in 0..r.range(8, 28) {
            match r.below(6) {
                0 => s.push_str(" val"),
                1 => s.push_str(&format!(" Q{j}?")),
                2 => s.push_str(" Va|Vb"),
                _ => s.push_str(&format!(" F{}", r.below(6))),
            }
        }
        b.r(&s);
    }
    b.r("val ::= Num");
    b.r("val ::= Str");
    b.g
}

fn fam_deep(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    b.r("input ::= e");
    b.r("e ::= Num");
    b.r("e ::= LP e RP");
    if r.pct(50) {
        b.r("e ::= LB l RB");
        b.r("l ::= e");
        b.r("l ::= e Comma l");
    }
    if r.pct(50) {
        b.r("e ::= Neg e");
    }
    if r.pct(40) {
        b.r("e ::= nil Cons e");
        b.r("nil ::= Nil");
    }
    if r.pct(p.err) {
        b.r("e ::= LP error RP");
    }
    b.g
}

fn fam_json(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    b.r("input ::= value");
    b.r("value ::= JNull");
    b.r("value ::= JBool");
    b.r("value ::= JNumber");
    b.r("value ::= JString");
    b.r("value ::= array");
    b.r("value ::= object");
    b.r("array ::= LBracket list? RBracket");
    b.r("list ::= value");
    b.r("list ::= list Comma value");
    b.r("object ::= LBrace dict? RBrace");
    b.r("dict ::= field");
    b.r("dict ::= dict Comma field");
    b.r("field ::= JString Colon value");
    if r.pct(p.err) {
        b.r(*r.pick(&["array ::= LBracket error RBracket", "value ::= error", "field ::= error", "object ::= LBrace error RBrace"]));
    }
    b.g
}

fn fam_sql(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    b.r("input ::= cmds");
    b.r("cmds ::= cmd Semi");
    b.r("cmds ::= cmds cmd Semi");
    b.r("cmd ::= Select cols From nm cond? order?");
    b.r("cmd ::= Delete From nm cond?");
    b.r("cmd ::= Explain cmd");
    b.r("cols ::= Star");
    b.r("cols ::= collist");
    b.r("collist ::= e asnm?");
    b.r("collist ::= collist Comma e asnm?");
    b.r("asnm ::= As nm");
    b.r("nm ::= Id");
    b.r("cond ::= Where e");
    b.r("order ::= Order By collist");
    b.r("e ::= Num");
    b.r("e ::= nm");
    b.r("e ::= e Plus|Minus e");
    b.r("e ::= e Eq e");
    b.r("e ::= LP e RP");
    let (o, eq) = (vec![b.t("Plus"), b.t("Minus")], b.t("Eq"));
    b.g.assoc.push((Assoc::Non, vec![eq]));
    b.g.assoc.push((Assoc::Left, o));
    if r.pct(60) {
        let id = b.t("Id");
        let v = vec![b.t("Explain"), b.t("By"), b.t("Order")];
        b.g.fallback.push((id, v[..r.range(1, 3)].to_vec()));
    }
    if r.pct(p.err) {
        b.r("cmd ::= error");
    }
    b.g
}

fn fam_fb(r: &mut Rng, p: &Prof) -> Gram {
    let mut b = B::new();
    b.n("input");
    b.r("input ::= stmts");
    b.r("stmts ::=");
    b.r("stmts ::= stmts stmt Semi");
    let nk = r.range(1, 5);
    let id = b.t("Id");
    for i in 0..nk {
        let f = *r.pick(&["Id", "Kx Id", "nm Eq nm", "nm", "Id Kx", "Num?", "Kx? Num", "nm nm"]);
        b.r(&format!("stmt ::= Kw{i} {f}"));
    }
    if r.pct(70) {
        b.r("stmt ::= Id Eq nm");
    }
    b.r("nm ::= Id");
    if r.pct(40) {
        b.r("nm ::= Num");
    }
    if r.pct(30) {
        b.r("nm ::= LP nm RP");
    }
    // fallback forest
    let mut ks: Vec<usize> = (0..nk).map(|i| b.t(&format!("Kw{i}"))).collect();
    if let Some(k) = b.g.terms.iter().position(|t| t.0 == "Kx") {
        ks.push(k);
    }
    for i in 0..r.range(0, 3) {
        // tokens that exist only to fall back
        ks.push(b.t(&format!("Only{i}")));
    }
    r.shuffle(&mut ks);
    if r.pct(5) {
        // a very long chain
        let k = r.below(ks.len());
        let n = if r.pct(70) { r.range(10, 70) } else { r.range(250, 300) };
        let l: Vec<usize> = (0..n).map(|i| b.t(&format!("Link{i}"))).collect();
        ks.splice(k..k, l);
    }
    let mut prev: Vec<usize> = vec![id];
    let mut map: Vec<(usize, Vec<usize>)> = Vec::new();
    for k in ks {
        let link = b.g.terms[k].0.starts_with("Link");
        if !link && !r.pct(80) {
            continue;
        }
        let f = if link || r.pct(45) { *prev.last().unwrap() } else { *r.pick(&prev) };
        match map.iter_mut().find(|x| x.0 == f) {
            Some(x) => x.1.push(k),
            None => map.push((f, vec![k])),
        }
        prev.push(k);
    }
    b.g.fallback = map;
    if r.pct(p.wildcard) {
        let w = b.t("Any");
        b.g.wildcard = Some(w);
        match r.below(4) {
            0 => b.r("stmt ::= Skip Any"),
            1 => {
                b.r("stmt ::= Raw LB anys RB");
                b.r("anys ::=");
                b.r("anys ::= anys Any")
            }
            2 => {
                b.r("stmt ::= Raw LB anys RB");
                b.r("anys ::= Any");
                b.r("anys ::= Any anys")
            }
            _ => b.r("nm ::= Q Any Q"),
        };
    }
    if r.pct(p.err) {
        b.r("stmt ::= error");
    }
    b.g
}

fn add_roles(g: &mut Gram, r: &mut Rng, p: &Prof) {
    let nt = g.terms.len();
    if nt < 4 {
        return;
    }
    if g.fallback.is_empty() && r.pct(p.fallback) {
        let mut ts: Vec<usize> = (1..nt).filter(|t| Some(*t) != g.wildcard).collect();
        r.shuffle(&mut ts);
        let k = r.range(2, 4).min(ts.len());
        if r.pct(50) {
            g.fallback.push((ts[0], ts[1..k].to_vec()));
        } else {
            for w in ts[..k].windows(2) {
                g.fallback.push((w[0], vec![w[1]]));
            }
        }
    }
    if g.wildcard.is_none() && r.pct(p.wildcard) {
        // an existing token, or a new one put in the place of another
        let used: Vec<(usize, usize)> =
            g.rules.iter().enumerate().flat_map(|(i, ru)| ru.rhs.iter().enumerate().filter(|x| matches!(x.1.sym, Sym::T(_)) && !x.1.opt).map(move |x| (i, x.0))).collect();
        if let Some(&(i, j)) = (!used.is_empty()).then(|| r.pick(&used)) {
            g.terms.push(("Wild".into(), None));
            let w = g.terms.len() - 1;
            g.wildcard = Some(w);
            if r.pct(50) {
                g.rules[i].rhs[j].sym = Sym::T(w);
            } else {
                let mut ru = g.rules[i].clone();
                ru.rhs[j].sym = Sym::T(w);
                g.rules.push(ru);
            }
        }
    }
}

fn add_shorthand(g: &mut Gram, r: &mut Rng, p: &Prof) {
    if r.pct(p.opt) {
        for _ in 0..r.range(1, 2) {
            let i = r.below(g.rules.len());
            if g.rules[i].rhs.is_empty() {
                continue;
            }
            let j = r.below(g.rules[i].rhs.len());
            if g.rules[i].rhs[j].sym != Sym::Err {
                g.rules[i].rhs[j].opt = true;
            }
        }
    }
    if r.pct(p.class) {
        let i = r.below(g.rules.len());
        let nt = g.terms.len();
        for it in g.rules[i].rhs.iter_mut() {
            if let Sym::T(t) = it.sym {
                let mut m = vec![t];
                for _ in 0..r.range(1, 2) {
                    let o = 1 + r.below(nt - 1);
                    if !m.contains(&o) {
                        m.push(o);
                    }
                }
                if m.len() < 2 || m.iter().any(|t| Some(*t) == g.wildcard) {
                    continue;
                }
                r.shuffle(&mut m);
                let name = r.pct(50).then(|| format!("Kl{}X", g.classes.len()));
                g.classes.push(Class { name, members: m });
                it.sym = Sym::C(g.classes.len() - 1);
                break;
            }
        }
    }
}

/// Types, aliases, code, callbacks and options.
fn decorate(g: &mut Gram, r: &mut Rng, p: &Prof) {
    g.layout = r.next() >> 12;
    g.explicit_start = r.pct(30);
    g.generic = r.pct(p.generic);
    g.extra_arg = r.pct(p.extra_arg);
    g.err_ty = r.pct(p.err_ty);
    g.has_syn = r.pct(p.syn);
    g.has_pfail = r.pct(p.pfail);
    g.has_ovf = r.pct(p.ovf);
    g.simstack = r.pct(p.simstack);
    g.limit = if r.pct(p.small_limit) {
        Some(match r.below(50) {
            0 => 1,
            1..=29 => r.range(2, 12),
            _ => r.range(13, 60),
        })
    } else {
        match r.below(40) {
            0..=19 => None,
            20..=29 => Some(0),
            // where a narrow count would wrap around
            30 | 31 => Some(r.range(65_533, 65_540)),
            32 => Some(r.range(126, 130)),
            33 | 34 => Some(r.range(254, 258)),
            _ => Some(r.range(90, 400)),
        }
    };
    if g.limit == Some(0) {
        g.has_ovf = r.pct(30);
    }
    g.extra_token = g.wildcard.is_none() && r.pct(p.extra_token);
    g.default_type = (!g.extra_token && r.pct(p.default_type)).then(|| r.below(6) as u8);
    // terminals
    let nk = *r.pick(&[1usize, 2, 3, 4, 6]);
    for t in 1..g.terms.len() {
        g.terms[t].1 = (Some(t) != g.wildcard && r.pct(p.typed)).then(|| r.below(nk) as u8);
    }
    let same = g.extra_token || g.default_type.is_some();
    for _ in 0..g.terms.len() {
        for (f, v) in g.fallback.clone() {
            for t in v {
                if same || (g.terms[f].1.is_some() && g.terms[f].1 != g.terms[t].1) {
                    if r.pct(50) && !same {
                        g.terms[f].1 = None;
                    } else {
                        g.terms[t].1 = g.terms[f].1;
                    }
                }
            }
        }
    }
    loop {
        let Some(f) = g.fallback.iter().find(|(f, v)| g.terms[*f].1.is_some() && v.iter().any(|t| g.terms[*t].1 != g.terms[*f].1)) else { break };
        let f = f.0;
        g.terms[f].1 = None;
    }
    for c in 0..g.classes.len() {
        if r.pct(75) {
            // same type throughout, unless the fallback rules forbid it
            let k = g.terms[g.classes[c].members[0]].1;
            for m in g.classes[c].members.clone() {
                if g.fallback.is_empty() && Some(m) != g.wildcard {
                    g.terms[m].1 = k;
                }
            }
        }
    }
    if g.generic && !g.terms.iter().any(|t| t.1 == Some(0)) {
        g.generic = false;
    }
    if let Some(e) = &mut g.err_sym {
        *e = r.pct(p.typed).then(|| r.below(nk + 1) as u8);
    }
    for n in 0..g.nts.len() {
        g.nts[n].1 = if r.pct(p.typed) {
            let k = r.below(nk + 1) as u8;
            if r.pct(10) { Ty::Opt(Box::new(Ty::Pay(k))) } else { Ty::Pay(k) }
        } else {
            Ty::Unit
        };
    }
    let same_class = |g: &Gram, c: usize| g.classes[c].members.iter().all(|m| g.term_ty(*m) == g.term_ty(g.classes[c].members[0]));
    for i in 0..g.rules.len() {
        // what may not be optional
        for j in 0..g.rules[i].rhs.len() {
            let s = g.rules[i].rhs[j].sym;
            let bad = match s {
                Sym::T(t) => Some(t) == g.wildcard,
                Sym::C(c) => !same_class(g, c),
                Sym::Err => true,
                _ => false,
            };
            if bad {
                g.rules[i].rhs[j].opt = false;
            }
        }
        let lt = g.nt_ty(g.rules[i].lhs);
        let typed: Vec<usize> = (0..g.rules[i].rhs.len()).filter(|j| g.item_ty(&g.rules[i].rhs[*j]) != Ty::Unit).collect();
        let has_class = g.rules[i].rhs.iter().any(|it| matches!(it.sym, Sym::C(c) if g.classes[c].members.iter().any(|m| g.term_ty(*m) != Ty::Unit)));
        let forward = typed.len() == 1 && g.item_ty(&g.rules[i].rhs[typed[0]]) == lt && !has_class && g.default_type.is_none();
        let code = if lt == Ty::Unit { r.pct(p.code) } else { !forward || r.pct(70) };
        let mut aliases = Vec::new();
        for it in &g.rules[i].rhs {
            let ok = match it.sym {
                Sym::T(t) => Some(t) != g.wildcard,
                Sym::C(c) => same_class(g, c),
                _ => true,
            };
            aliases.push(if !code || !ok || !r.pct(75) {
                0
            } else {
                match g.item_ty(it) {
                    Ty::ExtPay(_) if r.pct(50) => 3,
                    _ if r.pct(20) => 2,
                    _ => 1,
                }
            });
        }
        let ru = &mut g.rules[i];
        ru.code = code;
        for (it, a) in ru.rhs.iter_mut().zip(aliases) {
            it.alias = a;
        }
    }
}

fn prune(g: &mut Gram) {
    // rules that cannot be reached or that never end, and what they leave unused
    let nn = g.nts.len();
    loop {
        let mut prod = vec![false; nn];
        loop {
            let mut ch = false;
            for ru in &g.rules {
                if !prod[ru.lhs] && ru.rhs.iter().all(|i| i.opt || !matches!(i.sym, Sym::N(n) if !prod[n])) {
                    prod[ru.lhs] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut reach = vec![false; nn];
        reach[g.start] = true;
        loop {
            let mut ch = false;
            for ru in &g.rules {
                if reach[ru.lhs] {
                    for i in &ru.rhs {
                        if let Sym::N(n) = i.sym {
                            ch |= !reach[n];
                            reach[n] = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let n0 = g.rules.len();
        let keep: Vec<bool> = g.rules.iter().map(|ru| reach[ru.lhs] && ru.rhs.iter().all(|i| !matches!(i.sym, Sym::N(n) if !prod[n]))).collect();
        let mut k = keep.iter();
        g.rules.retain(|_| *k.next().unwrap());
        // the same rule twice can only conflict
        let mut seen: Vec<(usize, Vec<(Sym, bool)>)> = Vec::new();
        g.rules.retain(|ru| {
            let key = (ru.lhs, ru.rhs.iter().map(|i| (i.sym, i.opt)).collect::<Vec<_>>());
            if seen.contains(&key) {
                false
            } else {
                seen.push(key);
                true
            }
        });
        if g.rules.len() == n0 {
            break;
        }
    }
    // nonterminals without rules vanish
    let mut map = vec![usize::MAX; nn];
    let mut nts = Vec::new();
    for n in 0..nn {
        if n == g.start || g.rules.iter().any(|ru| ru.lhs == n) {
            map[n] = nts.len();
            nts.push(g.nts[n].clone());
        }
    }
    g.nts = nts;
    g.start = map[g.start];
    for ru in g.rules.iter_mut() {
        ru.lhs = map[ru.lhs];
        for it in ru.rhs.iter_mut() {
            if let Sym::N(n) = it.sym {
                it.sym = Sym::N(map[n]);
            }
        }
    }
    if !g.rules.iter().any(|ru| ru.rhs.iter().any(|i| i.sym == Sym::Err)) {
        g.err_sym = None;
    }
    // classes that are not used any more
    let used: Vec<bool> = (0..g.classes.len()).map(|c| g.rules.iter().any(|ru| ru.rhs.iter().any(|i| i.sym == Sym::C(c)))).collect();
    let mut cm = vec![0; g.classes.len()];
    let mut cl = Vec::new();
    for c in 0..g.classes.len() {
        if used[c] {
            cm[c] = cl.len();
            cl.push(g.classes[c].clone());
        }
    }
    g.classes = cl;
    for ru in g.rules.iter_mut() {
        for it in ru.rhs.iter_mut() {
            if let Sym::C(c) = it.sym {
                it.sym = Sym::C(cm[c]);
            }
        }
    }
}

/// Precedence levels with hundreds of others in between.
fn far_apart(mut g: Gram, r: &mut Rng) -> Gram {
    if g.assoc.len() > 1 && r.pct(4) {
        let at = r.range(1, g.assoc.len() - 1);
        for i in 0..r.range(252, 257) {
            g.terms.push((format!("Far{i}"), None));
            let t = g.terms.len() - 1;
            g.assoc.insert(at, (*r.pick(&[Assoc::Left, Assoc::Right, Assoc::Non]), vec![t]));
        }
    }
    g
}

pub fn family(f: &str, r: &mut Rng, p: &Prof) -> Gram {
    match f {
        "rand" => fam_rand(r, p),
        "expr" => {
            let g = fam_expr(r, p);
            far_apart(g, r)
        }
        "stmt" => fam_stmt(r, p),
        "list" => fam_list(r, p),
        "big" => fam_big(r, p),
        "null" => fam_null(r, p),
        "long" => fam_long(r, p),
        "deep" => fam_deep(r, p),
        "la" => fam_la(r, p),
        "prec" => {
            let g = fam_prec(r, p);
            far_apart(g, r)
        }
        "edge" => fam_edge(r, p),
        "huge" => fam_huge(r, p),
        "wide" => fam_wide(r, p),
        "json" => fam_json(r, p),
        "sql" => fam_sql(r, p),
        _ => fam_fb(r, p),
    }
}

/// Grammar number `i` of the corpus of a check: a function of the seed alone.
pub fn gram(prop: &str, seed: u64, i: usize) -> Gx {
    let p = profile(prop);
    let mut r = Rng::new(mix(mix(seed, crate::rng::hash_str(prop)), i as u64));
    let total: u32 = p.families.iter().map(|f| f.1).sum();
    // the family is chosen once, so that those that are often refused are not under-represented
    let mut x = r.below(total as usize) as u32;
    let mut fam = p.families[0].0;
    for f in &p.families {
        if x < f.1 {
            fam = f.0;
            break;
        }
        x -= f.1;
    }
    if prop == "C01" && i % 90 == 17 {
        fam = "huge";
    }
    let mut tries = 0;
    loop {
        tries += 1;
        let mut r = r.fork(tries);
        let f = if tries > 4000 { "list" } else { fam };
        let mut g = family(f, &mut r, &p);
        g.start = 0;
        add_shorthand(&mut g, &mut r, &p);
        add_roles(&mut g, &mut r, &p);
        prune(&mut g);
        if g.rules.is_empty() {
            continue;
        }
        decorate(&mut g, &mut r, &p);
        if need(prop, &g) {
            continue;
        }
        if f == "edge" {
            // numbered as made
            g.layout = 0;
        }
        names(&mut g, &mut r);
        voids(&mut g, &mut r);
        g.name = format!("{f}-{i}");
        g.tags = vec![f.into()];
        if let Ok(gx) = prepare(&g, 900) {
            // too trivial?
            let trivial = gx.t.act.len() < 4 && tries < 3000;
            if !trivial {
                return gx;
            }
        }
    }
}

/// Now and then, one of the types is `()`.
fn voids(g: &mut Gram, r: &mut Rng) {
    if !r.pct(12) {
        return;
    }
    let from = r.range(1, 4) as u8;
    let to = |k: &mut u8| {
        if *k == from {
            *k = VOID;
        }
    };
    fn ty(t: &mut Ty, to: &dyn Fn(&mut u8)) {
        match t {
            Ty::Pay(k) | Ty::ExtPay(k) => to(k),
            Ty::Opt(t) => ty(t, to),
            _ => (),
        }
    }
    g.terms.iter_mut().filter_map(|t| t.1.as_mut()).for_each(to);
    g.nts.iter_mut().for_each(|n| ty(&mut n.1, &to));
    g.err_sym.iter_mut().flatten().for_each(to);
    g.default_type.iter_mut().for_each(to);
}

/// Now and then, names that mean something to Rust or that the generated code uses too.
fn names(g: &mut Gram, r: &mut Rng) {
    if !r.pct(12) {
        return;
    }
    let mut tn = ["Some", "None", "Ok", "Err", "Option", "Vec", "Token", "Parser", "Result", "Default", "String", "Box", "YYMinorType", "YY0", "ExpectedTokens", "Iterator", "T", "E"];
    let mut nn = ["extra", "token", "expected", "yy", "i32", "str", "x", "e", "root", "yyres", "yyp0", "parse", "new", "std", "core", "main", "parser", "u8"];
    r.shuffle(&mut tn);
    r.shuffle(&mut nn);
    let mut tn: Vec<&str> = tn.into_iter().filter(|n| g.terms.iter().all(|t| t.0 != *n) && g.classes.iter().all(|c| c.name.as_deref() != Some(n))).collect();
    let mut nn: Vec<&str> = nn.into_iter().filter(|n| g.nts.iter().all(|t| t.0 != *n)).collect();
    for t in g.terms.iter_mut().skip(1) {
        if r.pct(50) {
            t.0 = tn.pop().map_or(t.0.clone(), |n| n.into());
        }
    }
    for n in g.nts.iter_mut() {
        if r.pct(50) {
            n.0 = nn.pop().map_or(n.0.clone(), |n| n.into());
        }
    }
}

/// A grammar as it comes, good or bad.
pub fn raw(prop: &str, r: &mut Rng) -> Gram {
    let p = profile(prop);
    loop {
        let f = p.families[r.below(p.families.len())].0;
        if f == "edge" {
            continue;
        }
        let mut g = family(f, r, &p);
        g.start = 0;
        add_shorthand(&mut g, r, &p);
        add_roles(&mut g, r, &p);
        if r.pct(70) {
            prune(&mut g);
        }
        if g.rules.is_empty() {
            continue;
        }
        decorate(&mut g, r, &p);
        names(&mut g, r);
        voids(&mut g, r);
        g.name = f.into();
        g.tags = vec![f.into()];
        return g;
    }
}

/// Is something missing that the property is about?
fn need(prop: &str, g: &Gram) -> bool {
    match prop {
        "C05" => g.err_sym.is_none(),
        "C06" => g.err_sym.is_some(),
        "C09" => !g.has_fb(),
        "C13" => !g.extra_arg,
        "C08" => !g.has_syn,
        _ => false,
    }
}

pub fn reason(r: &Reject) -> &'static str {
    match r {
        Reject::StartOnRhs => "start symbol on the right",
        Reject::NoRules(_) => "nonterminal without rules",
        Reject::Conflict(_) => "conflict",
        Reject::Unclear(_) => "several conflicts on a token",
        Reject::Unreduced(_) => "rule never reduced",
        Reject::TooBig => "too big",
    }
}

// ---------------------------------------------------------------------------------------
// Token streams

/// Cheapest expansion of every nonterminal.
pub fn costs(gx: &Gx) -> Vec<usize> {
    let mut c = vec![usize::MAX / 4; gx.x.nts.len()];
    if let Some(e) = gx.x.err {
        c[e] = 0;
    }
    loop {
        let mut ch = false;
        for ru in &gx.x.rules {
            let s: usize = ru.rhs.iter().map(|s| if let XS::N(n) = s { c[*n] } else { 1 }).fold(0usize, |a, b| a.saturating_add(b).min(usize::MAX / 4));
            if s < c[ru.lhs] {
                c[ru.lhs] = s;
                ch = true;
            }
        }
        if !ch {
            return c;
        }
    }
}

/// A sentence of the grammar (ignoring precedence), with tokens disguised as those that fall
/// back to them, and rubbish where an error rule allows it.
pub fn sentence(gx: &Gx, r: &mut Rng, budget: usize, costs: &[usize], deep: bool) -> Vec<usize> {
    let mut out = Vec::new();
    let mut st = vec![XS::N(gx.x.start)];
    let mut steps = 0;
    while let Some(s) = st.pop() {
        steps += 1;
        match s {
            XS::T(t) => out.push(disguise(gx, r, t)),
            XS::C(c) => {
                let t = *r.pick(&gx.x.classes[c]);
                out.push(disguise(gx, r, t))
            }
            XS::N(n) if Some(n) == gx.x.err => {
                for _ in 0..r.below(4) {
                    out.push(1 + r.below(gx.x.nterm - 1));
                }
            }
            XS::N(n) => {
                let left: usize = st.len() + out.len();
                let rules: Vec<usize> = (0..gx.x.rules.len()).filter(|i| gx.x.rules[*i].lhs == n).collect();
                let cost = |i: usize| gx.x.rules[i].rhs.iter().map(|s| if let XS::N(n) = s { costs[*n] } else { 1 }).fold(0usize, |a, b| a.saturating_add(b));
                let i = if left > budget || steps > 20 * budget + 200 {
                    *rules.iter().min_by_key(|i| cost(**i)).unwrap()
                } else if deep && r.pct(70) {
                    *rules.iter().max_by_key(|i| (gx.x.rules[**i].rhs.iter().filter(|s| matches!(s, XS::N(_))).count(), gx.x.rules[**i].rhs.len())).unwrap()
                } else {
                    *r.pick(&rules)
                };
                st.extend(gx.x.rules[i].rhs.iter().rev());
            }
        }
        if out.len() > 4 * budget + 400 {
            break;
        }
    }
    out
}

fn disguise(gx: &Gx, r: &mut Rng, t: usize) -> usize {
    if Some(t) == gx.x.wildcard {
        return if r.pct(80) { 1 + r.below(gx.x.nterm - 1) } else { t };
    }
    if !gx.g.fallback.is_empty() && r.pct(40) {
        let mut c = t;
        for _ in 0..3 {
            let v: Vec<usize> = (1..gx.x.nterm).filter(|k| gx.x.fallback[*k] == Some(c)).collect();
            if v.is_empty() {
                break;
            }
            c = *r.pick(&v);
            if r.pct(50) {
                break;
            }
        }
        return c;
    }
    t
}

/// The control part of a parser (states without values): used to pick interesting tokens.
pub struct Walker {
    pub st: Vec<usize>,
}
impl Walker {
    pub fn new() -> Walker {
        Walker { st: vec![0] }
    }
    pub fn feed(&mut self, gx: &Gx, t: usize) -> bool {
        for _ in 0..10_000 {
            let Some(&top) = self.st.last() else { return false };
            match gx.t.lookup(&gx.x, top, t).0 {
                A::Shift(s) => {
                    self.st.push(s);
                    return true;
                }
                A::Reduce(r) => {
                    let ru = &gx.x.rules[r];
                    let n = self.st.len() - ru.rhs.len().min(self.st.len());
                    self.st.truncate(n);
                    let Some(&top) = self.st.last() else { return false };
                    if ru.lhs == gx.x.start && self.st.len() == 1 {
                        return true;
                    }
                    match gx.t.goto[top].get(&ru.lhs) {
                        Some(&s) => self.st.push(s),
                        None => return false,
                    }
                }
                _ => {
                    if let Some(e) = gx.x.err {
                        let keep = self.st.clone();
                        while let Some(&s) = self.st.last() {
                            if let Some(&to) = gx.t.goto[s].get(&e) {
                                self.st.push(to);
                                return false;
                            }
                            self.st.pop();
                        }
                        self.st = keep;
                    }
                    return false;
                }
            }
        }
        false
    }
    pub fn can(&self, gx: &Gx, t: usize) -> bool {
        self.st.last().is_some_and(|s| matches!(gx.t.lookup(&gx.x, *s, t).0, A::Shift(_) | A::Reduce(_)))
    }
}
impl Default for Walker {
    fn default() -> Self {
        Self::new()
    }
}

/// A stream that follows the tables, preferring actions not taken before.
pub fn walk(gx: &Gx, r: &mut Rng, len: usize, bad_pct: u32, visits: &mut std::collections::HashMap<(usize, usize), u32>) -> Vec<usize> {
    let mut w = Walker::new();
    let mut out = Vec::new();
    let nt = gx.x.nterm;
    for i in 0..len {
        let Some(&top) = w.st.last() else { break };
        let ok: Vec<usize> = (1..nt).filter(|t| w.can(gx, *t)).collect();
        if (ok.is_empty() || (i > len / 2 && r.pct(10))) && w.can(gx, 0) {
            break;
        }
        let t = if ok.is_empty() || r.pct(bad_pct) {
            1 + r.below(nt - 1)
        } else if r.pct(60) {
            let m = ok.iter().map(|t| visits.get(&(top, *t)).copied().unwrap_or(0)).min().unwrap();
            let v: Vec<usize> = ok.iter().copied().filter(|t| visits.get(&(top, *t)).copied().unwrap_or(0) == m).collect();
            *r.pick(&v)
        } else {
            *r.pick(&ok)
        };
        *visits.entry((top, t)).or_default() += 1;
        out.push(t);
        w.feed(gx, t);
    }
    out
}

pub fn has_reduce_any(t: &Tab) -> bool {
    t.dflt.iter().any(|d| !d.is_empty())
}
