//! A simulated run as data: every call, fault and thread assignment, in order. Executing the
//! same trace against the same grammars gives the same execution.

use crate::json::J;
use crate::obj;
use crate::rt::{Fault, What};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// Start a session (a parser) of grammar number `g` of the run.
    New(usize),
    Parse(usize),
    End,
    /// The caller changes the extra argument.
    Bump(u64),
    /// Take the extra argument and give up the parser.
    IntoExtra,
    /// Abandon the parser.
    Drop,
    /// Let a call that was preempted inside user code go on.
    Resume,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub sess: usize,
    pub op: Op,
    pub faults: Vec<Fault>,
    pub thread: usize,
}
impl Step {
    pub fn new(sess: usize, op: Op) -> Step {
        Step { sess, op, faults: vec![], thread: 0 }
    }
    pub fn to_json(&self) -> J {
        let (o, a) = match &self.op {
            Op::New(g) => ("new", *g as u64),
            Op::Parse(t) => ("parse", *t as u64),
            Op::End => ("end", 0),
            Op::Bump(v) => ("bump", *v),
            Op::IntoExtra => ("into_extra", 0),
            Op::Drop => ("drop", 0),
            Op::Resume => ("resume", 0),
        };
        let mut v = vec![J::from(self.sess), J::from(o), J::from(a), J::from(self.thread)];
        if !self.faults.is_empty() {
            v.push(J::Arr(
                self.faults
                    .iter()
                    .map(|f| {
                        let mut w = vec![J::from(if f.push { "push" } else { "hook" }), J::from(f.nth)];
                        match &f.what {
                            What::Err => w.push("err".into()),
                            What::Panic => w.push("panic".into()),
                            What::Yield => w.push("yield".into()),
                            What::Preempt => w.push("preempt".into()),
                            What::Touch => w.push("touch".into()),
                            What::Nest(s) => {
                                w.push("nest".into());
                                w.push(J::Arr(s.iter().map(|x| x.to_json()).collect()));
                            }
                        }
                        J::Arr(w)
                    })
                    .collect(),
            ));
        }
        J::Arr(v)
    }
    pub fn from_json(j: &J) -> Step {
        let v = j.arr();
        let a = v[2].u64();
        Step {
            sess: v[0].usize(),
            op: match v[1].str() {
                "new" => Op::New(a as usize),
                "parse" => Op::Parse(a as usize),
                "end" => Op::End,
                "bump" => Op::Bump(a),
                "into_extra" => Op::IntoExtra,
                "resume" => Op::Resume,
                _ => Op::Drop,
            },
            thread: v[3].usize(),
            faults: v.get(4).map_or(vec![], |f| {
                f.arr()
                    .iter()
                    .map(|f| {
                        let f = f.arr();
                        Fault {
                            push: f[0].str() == "push",
                            nth: f[1].usize(),
                            what: match f[2].str() {
                                "err" => What::Err,
                                "panic" => What::Panic,
                                "yield" => What::Yield,
                                "preempt" => What::Preempt,
                                "touch" => What::Touch,
                                _ => What::Nest(f.get(3).map_or(vec![], |s| s.arr().iter().map(Step::from_json).collect())),
                            },
                        }
                    })
                    .collect()
            }),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Run {
    pub seed: u64,
    /// Names of the grammars that sessions refer to.
    pub grams: Vec<String>,
    /// 0: all on one thread; n: worker threads, one running at a time.
    pub threads: usize,
    pub steps: Vec<Step>,
}
impl Run {
    pub fn to_json(&self) -> J {
        obj! {
            "seed" => self.seed, "grams" => self.grams.clone(), "threads" => self.threads,
            "steps" => J::Arr(self.steps.iter().map(|s| s.to_json()).collect()),
        }
    }
    pub fn from_json(j: &J) -> Run {
        Run {
            seed: j.get("seed").u64(),
            grams: j.get("grams").arr().iter().map(|s| s.str().to_string()).collect(),
            threads: j.get("threads").usize(),
            steps: j.get("steps").arr().iter().map(Step::from_json).collect(),
        }
    }
}
