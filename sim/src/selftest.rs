//! Tests of the checks themselves: the reference LALR tables against an Earley recogniser that
//! shares nothing with them, and repetition of runs across processes, seeds and widths.

use crate::build::{Corpus, Scratch, in_parallel, run_shard};
use crate::{Ctl, make_grams};
use pomsim::gen_::{Walker, costs, sentence};
use pomsim::ir::{XG, XS};
use pomsim::lalr::A;
use pomsim::model::Gx;
use pomsim::rng::{Rng, hash_str, mix};
use std::collections::BTreeSet;

/// Earley's recogniser: is `w` derived, and after how many tokens is a prefix hopeless?
fn earley(x: &XG, w: &[usize]) -> (bool, usize) {
    type It = (usize, usize, usize);
    let mut sets: Vec<BTreeSet<It>> = vec![BTreeSet::new(); w.len() + 1];
    for (i, r) in x.rules.iter().enumerate() {
        if r.lhs == x.start {
            sets[0].insert((i, 0, 0));
        }
    }
    let fits = |s: &XS, t: usize| match s {
        XS::T(k) => *k == t,
        XS::C(c) => x.classes[*c].contains(&t),
        XS::N(_) => false,
    };
    let mut dead = w.len() + 1;
    for i in 0..=w.len() {
        // to a fixpoint: slow and plain, and right for nullable rules
        loop {
            let mut add = Vec::new();
            for &(r, d, o) in &sets[i] {
                match x.rules[r].rhs.get(d) {
                    Some(XS::N(n)) => {
                        for (q, qr) in x.rules.iter().enumerate() {
                            if qr.lhs == *n {
                                add.push((q, 0, i));
                            }
                        }
                    }
                    None => {
                        for &(p, e, oo) in &sets[o] {
                            if x.rules[p].rhs.get(e) == Some(&XS::N(x.rules[r].lhs)) {
                                add.push((p, e + 1, oo));
                            }
                        }
                    }
                    _ => (),
                }
            }
            let n = sets[i].len();
            sets[i].extend(add);
            if sets[i].len() == n {
                break;
            }
        }
        if i < w.len() {
            let next: Vec<It> = sets[i]
                .iter()
                .filter(|(r, d, _)| x.rules[*r].rhs.get(*d).is_some_and(|s| fits(s, w[i])))
                .map(|(r, d, o)| (*r, d + 1, *o))
                .collect();
            if next.is_empty() {
                dead = i;
                break;
            }
            sets[i + 1].extend(next);
        }
    }
    let ok = dead > w.len() && sets[w.len()].iter().any(|(r, d, o)| *o == 0 && x.rules[*r].lhs == x.start && *d == x.rules[*r].rhs.len());
    (ok, dead)
}

/// The reference tables on the same word: accepted, and the token that was refused.
fn tables(gx: &Gx, w: &[usize]) -> (bool, usize) {
    let x = &gx.x;
    let mut st = vec![0usize];
    for (i, t) in w.iter().copied().chain([0]).enumerate() {
        loop {
            match gx.t.act[*st.last().unwrap()][t] {
                A::Shift(s) => {
                    st.push(s);
                    break;
                }
                A::Reduce(r) => {
                    st.truncate(st.len() - x.rules[r].rhs.len());
                    if x.rules[r].lhs == x.start && st.len() == 1 && t == 0 {
                        return (true, w.len() + 1);
                    }
                    st.push(gx.t.goto[*st.last().unwrap()][&x.rules[r].lhs]);
                }
                A::None | A::Error => return (false, i),
            }
        }
    }
    (false, w.len())
}

fn lalr(c: &Ctl) -> bool {
    let mut fine = true;
    let (mut grams, mut words, mut accepted) = (0, 0u64, 0u64);
    for prop in ["C01", "C10", "C12"] {
        let gxs: Vec<Gx> = make_grams(prop, c.seed, 0, 700).into_iter().filter(|g| g.x.err.is_none() && g.x.rules.len() < 60).collect();
        let res = in_parallel(c.width, gxs, |gx| {
            let mut r = Rng::new(mix(c.seed, hash_str(&gx.g.name)));
            let co = costs(&gx);
            let mut n = (0u64, 0u64);
            for _ in 0..120 {
                let mut w = match r.below(3) {
                    0 => sentence(&gx, &mut r, 8, &co, false),
                    1 => {
                        let mut k = Walker::new();
                        let mut v = Vec::new();
                        for _ in 0..r.below(14) {
                            let ok: Vec<usize> = (1..gx.x.nterm).filter(|t| k.can(&gx, *t)).collect();
                            if ok.is_empty() {
                                break;
                            }
                            let t = *r.pick(&ok);
                            k.feed(&gx, t);
                            v.push(t);
                        }
                        v
                    }
                    _ => (0..r.below(6)).map(|_| 1 + r.below(gx.x.nterm - 1)).collect(),
                };
                if r.pct(30) && !w.is_empty() {
                    let i = r.below(w.len());
                    match r.below(3) {
                        0 => {
                            w.remove(i);
                        }
                        1 => w[i] = 1 + r.below(gx.x.nterm - 1),
                        _ => w.insert(i, 1 + r.below(gx.x.nterm - 1)),
                    }
                }
                w.truncate(40);
                let (e, dead) = earley(&gx.x, &w);
                let (t, at) = tables(&gx, &w);
                n.0 += 1;
                n.1 += t as u64;
                // settling a conflict takes parses away
                let same = if gx.t.prec_used { !t || e } else { t == e && (t || at == dead.min(w.len())) };
                if !same {
                    return Err(format!("{} (precedence: {}): {w:?}: Earley {e} {dead}, tables {t} {at}\n{}", gx.g.name, gx.t.prec_used, pomsim::emit::grammar_text(&gx.g)));
                }
            }
            Ok(n)
        });
        for x in res {
            match x {
                Ok((n, a)) => {
                    grams += 1;
                    words += n;
                    accepted += a;
                }
                Err(m) => {
                    println!("{m}");
                    fine = false;
                }
            }
        }
    }
    println!("reference tables against Earley: {grams} grammars, {words} words of which {accepted} accepted: {}", if fine { "agree" } else { "DISAGREE" });
    fine
}

fn repeat(c: &Ctl) -> bool {
    let mut fine = true;
    let mut n = 0;
    for prop in ["C01", "C02", "C03", "C05", "C07", "C09", "C13"] {
        for seed in [c.seed, c.seed + 100] {
            let k = Ctl { prop: prop.into(), seed, thorough: false, home: c.home.clone(), t0: c.t0, width: 8 };
            let work = Scratch::new(&k, "self");
            let corpus = Corpus::build(&k, &work.0, make_grams(prop, seed, 0, 48));
            let jobs: Vec<usize> = (0..corpus.shards.len()).filter(|s| corpus.shards[*s].n > 0).collect();
            let mut all = Vec::new();
            for width in [8, 1, 3] {
                all.push(in_parallel(width, jobs.clone(), |s| run_shard(&k, &corpus.shards[s], s, seed, 500, 300, &format!("w{width}")).result.get("digest").str().to_string()));
            }
            n += all.iter().map(|v| v.len()).sum::<usize>();
            if all.iter().any(|v| *v != all[0]) {
                println!("{prop}, seed {seed}: runs differ: {all:?}");
                fine = false;
            }
        }
    }
    println!("{n} processes, three for each of the same runs, at 8, 1 and 3 at once: {}", if fine { "the same" } else { "DIFFER" });
    fine
}

pub fn run(c: &Ctl) -> i32 {
    let a = lalr(c);
    let b = repeat(c);
    (!(a && b)) as i32
}
