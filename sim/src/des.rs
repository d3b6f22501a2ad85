//! The network between the tokenizer and the parser host: a discrete-event simulation in
//! virtual time. It decides which tokens reach the parser, in which order, and what happens
//! to the host meanwhile.

use crate::rng::Rng;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

#[derive(Clone, Debug)]
pub struct Net {
    pub reliable: bool,
    pub loss: u32,
    pub dup: u32,
    pub corrupt: u32,
    pub jitter: u64,
    pub stall: u32,
    pub partitions: usize,
    pub crashes: usize,
    pub truncate: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arrive {
    Tok(usize),
    /// The host loses its parser (nothing of it is durable) and starts another one.
    Crash,
    /// A long silence, after which the caller looks at the session's state.
    Quiet,
    Eof,
}

#[derive(Default, Debug)]
pub struct NetStats {
    pub faults: BTreeMap<&'static str, u64>,
    pub ms: u64,
    pub frames: u64,
}

impl Net {
    pub fn random(r: &mut Rng) -> Net {
        let quiet = r.pct(25);
        Net {
            reliable: r.pct(30),
            loss: if quiet { 0 } else { *r.pick(&[0, 0, 10, 30, 80, 200]) },
            dup: if quiet { 0 } else { *r.pick(&[0, 0, 10, 40, 100]) },
            corrupt: if quiet { 0 } else { *r.pick(&[0, 0, 10, 40, 120]) },
            jitter: if quiet { 0 } else { *r.pick(&[0, 0, 3, 8, 40]) },
            stall: *r.pick(&[0, 10, 40]),
            partitions: if r.pct(15) { r.range(1, 2) } else { 0 },
            crashes: if r.pct(12) { r.range(1, 2) } else { 0 },
            truncate: r.pct(10),
        }
    }
    pub fn perfect() -> Net {
        Net { reliable: true, loss: 0, dup: 0, corrupt: 0, jitter: 0, stall: 0, partitions: 0, crashes: 0, truncate: false }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum E {
    Send(usize),
    Recv { inc: u32, seq: usize, tok: usize },
    Crash,
    Timer { inc: u32, seq: usize, n: u32 },
}

pub fn deliver(r: &mut Rng, toks: &[usize], nterm: usize, cfg: &Net) -> (Vec<Arrive>, NetStats) {
    let mut st = NetStats::default();
    let mut out = Vec::new();
    let n = toks.len();
    let mut q: BinaryHeap<Reverse<(u64, u64, E)>> = BinaryHeap::new();
    let mut seq = 0u64;
    let mut at = |q: &mut BinaryHeap<Reverse<(u64, u64, E)>>, t: u64, e: E| {
        seq += 1;
        q.push(Reverse((t, seq, e)));
    };
    let span = 10 * n as u64 + 10;
    let mut parts: Vec<(u64, u64)> = Vec::new();
    for _ in 0..cfg.partitions {
        let a = r.below(span as usize) as u64;
        parts.push((a, a + r.range(10, 120) as u64));
    }
    for _ in 0..cfg.crashes {
        let t = r.below(span as usize) as u64;
        at(&mut q, t, E::Crash);
    }
    let cut = if cfg.truncate && n > 0 {
        *st.faults.entry("truncated stream").or_default() += 1;
        r.below(n)
    } else {
        n
    };
    let mut t = 0;
    for i in 0..n {
        t += 10;
        if r.permille(cfg.stall) {
            t += r.range(500, 5000) as u64;
            *st.faults.entry("sender stall").or_default() += 1;
        }
        at(&mut q, t, E::Send(i));
    }
    let mut inc = 0u32;
    let mut next = 0usize; // reliable receiver
    let mut buf: BTreeMap<usize, usize> = BTreeMap::new();
    let mut last = 0;
    let mut maxseq = 0;
    let mut acked = vec![false; n];
    let mut guard = 0;
    while let Some(Reverse((now, _, e))) = q.pop() {
        st.ms = now;
        guard += 1;
        if guard > 40 * n + 4000 {
            break;
        }
        match e {
            E::Send(i) | E::Timer { seq: i, .. } => {
                if let E::Timer { inc: k, n: tries, .. } = e {
                    if k != inc || acked[i] || tries > 60 {
                        continue;
                    }
                    *st.faults.entry("retransmission").or_default() += 1;
                }
                st.frames += 1;
                let cutoff = parts.iter().any(|p| p.0 <= now && now < p.1);
                if cfg.reliable {
                    let k = if let E::Timer { n, .. } = e { n + 1 } else { 1 };
                    at(&mut q, now + 60, E::Timer { inc, seq: i, n: k });
                }
                if cutoff {
                    *st.faults.entry("partition dropped frame").or_default() += 1;
                    continue;
                }
                if r.permille(cfg.loss) {
                    *st.faults.entry("frame lost").or_default() += 1;
                    continue;
                }
                let mut tok = toks[i];
                if !cfg.reliable && r.permille(cfg.corrupt) {
                    *st.faults.entry("frame corrupted").or_default() += 1;
                    tok = 1 + r.below(nterm - 1);
                }
                let d = 1 + if cfg.jitter > 0 { r.below(10 * cfg.jitter as usize) as u64 } else { 0 };
                at(&mut q, now + d, E::Recv { inc, seq: i, tok });
                if r.permille(cfg.dup) {
                    *st.faults.entry("frame duplicated").or_default() += 1;
                    at(&mut q, now + 2 * d + 3, E::Recv { inc, seq: i, tok });
                }
            }
            E::Crash => {
                *st.faults.entry("host crash and restart").or_default() += 1;
                out.push(Arrive::Crash);
                inc += 1;
                next = 0;
                buf.clear();
                if cfg.reliable {
                    // the sender notices and starts over
                    acked.iter_mut().for_each(|a| *a = false);
                    let mut t = now + 50;
                    for i in 0..n {
                        t += 10;
                        at(&mut q, t, E::Send(i));
                    }
                }
            }
            E::Recv { inc: k, seq: i, tok } => {
                if k != inc {
                    continue; // lost with the host
                }
                if now > last + 400 && !out.is_empty() {
                    out.push(Arrive::Quiet);
                }
                if cfg.reliable {
                    acked[i] = true;
                    if i < next || buf.insert(i, tok).is_some() {
                        continue;
                    }
                    while let Some(t) = buf.remove(&next) {
                        if next < cut {
                            out.push(Arrive::Tok(t));
                        }
                        next += 1;
                    }
                } else {
                    if i < maxseq {
                        *st.faults.entry("frame overtaken").or_default() += 1;
                    }
                    maxseq = maxseq.max(i);
                    if i < cut {
                        out.push(Arrive::Tok(tok));
                    }
                }
                last = now;
            }
        }
    }
    out.push(Arrive::Eof);
    (out, st)
}
