//! What generated corpus grammars link against: tracked values, the hooks that stand for user
//! code (rule actions and callbacks), the instrumented stack, and the seams through which the
//! simulator injects faults into them.

use crate::count::Quiet;
use crate::rng::mix;
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::mpsc::{Receiver, Sender};
use std::sync::{Mutex, MutexGuard};

pub type Atom = i64;
pub const NONE: Atom = -1;
pub const SOME: Atom = -2;
pub const UNIT: Atom = -3;

/// A token as seen by user code.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TokD {
    pub kind: usize,
    pub atoms: Vec<Atom>,
    pub unit: bool,
}
impl TokD {
    pub fn unit(kind: usize) -> TokD {
        TokD { kind, atoms: vec![], unit: true }
    }
    pub fn val<T: Val>(kind: usize, v: T) -> TokD {
        let mut atoms = Vec::new();
        v.flat(&mut atoms);
        TokD { kind, atoms, unit: false }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok,
    Err(u64),
    Panic,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Act { rule: usize, args: Vec<(usize, Vec<Atom>)>, new: Vec<Atom>, out: Out },
    Syn { tok: Option<TokD>, exp: Vec<(String, i64, Option<TokD>)>, part: Option<String>, rest: Vec<String>, new: Vec<Atom>, out: Out },
    PFail { out: Out },
    Ovf { tok: Option<TokD>, out: Out },
}

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Err,
    Panic,
    Yield,
    /// Give way between two instructions of the call, after `nth` of them.
    Preempt,
    /// The same before the `nth` instruction that uses writable static memory.
    Touch,
    Nest(Vec<crate::trace::Step>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    /// Fires at the n-th hook (or the n-th stack push) of the call.
    pub nth: usize,
    pub push: bool,
    pub what: What,
}

pub struct Injected;
pub struct OverBudget;

#[derive(Default)]
pub struct SessRt {
    pub next_id: Atom,
    pub live: HashSet<Atom>,
    pub live_hash: u64,
    pub bad_drop: Option<Atom>,
    pub evs: Vec<Ev>,
    pub faults: Vec<Fault>,
    pub hooks: usize,
    pub pushes: usize,
    pub ops: u64,
    pub budget: u64,
    pub max_len: usize,
    pub tok_atoms: Vec<Atom>,
    pub in_call: bool,
    pub outside: bool,
    pub next_code: u64,
    pub fired: Vec<(&'static str, u64)>,
    pub push_fired: bool,
}

impl SessRt {
    fn fresh(&mut self) -> Atom {
        self.next_id += 1;
        let id = self.next_id;
        self.live.insert(id);
        self.live_hash ^= mix(id as u64, 77);
        id
    }
    fn gone(&mut self, id: Atom) {
        if self.live.remove(&id) {
            self.live_hash ^= mix(id as u64, 77);
        } else if self.bad_drop.is_none() {
            self.bad_drop = Some(id);
        }
    }
    pub fn fire(&mut self, k: &'static str) {
        match self.fired.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 += 1,
            None => self.fired.push((k, 1)),
        }
    }
}

pub struct World {
    pub sess: Vec<SessRt>,
}
pub static W: Mutex<World> = Mutex::new(World { sess: Vec::new() });

pub fn world() -> MutexGuard<'static, World> {
    W.lock().unwrap_or_else(|e| e.into_inner())
}

thread_local! {
    /// The sessions whose calls are in progress on this thread, innermost last.
    pub static CUR: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    /// Set on worker threads: how to yield to the scheduler in the middle of a call.
    pub static WORKER: RefCell<Option<(Sender<crate::exec::Msg>, Receiver<crate::exec::Job>, usize)>> = const { RefCell::new(None) };
}

pub fn cur() -> usize {
    CUR.with(|c| c.borrow().last().copied()).unwrap_or(usize::MAX)
}
fn with<R>(s: usize, f: impl FnOnce(&mut SessRt) -> R) -> Option<R> {
    let _q = Quiet::new();
    let mut w = world();
    w.sess.get_mut(s).map(f)
}

/// A tracked value of type number K.
#[derive(Debug)]
pub struct Pay<const K: u32> {
    id: Atom,
    sess: usize,
}
impl<const K: u32> Drop for Pay<K> {
    fn drop(&mut self) {
        let id = self.id;
        with(self.sess, |s| s.gone(id));
    }
}

pub trait Val: Sized {
    fn make() -> Self;
    fn flat(self, o: &mut Vec<Atom>);
    fn peek(&self, o: &mut Vec<Atom>);
}
impl<const K: u32> Val for Pay<K> {
    fn make() -> Self {
        let sess = cur();
        let id = with(sess, |s| s.fresh()).unwrap_or(0);
        Pay { id, sess }
    }
    fn flat(self, o: &mut Vec<Atom>) {
        self.peek(o);
    }
    fn peek(&self, o: &mut Vec<Atom>) {
        // ids are per session: a value of another session shows up as a large number
        o.push(if self.sess == cur() { self.id } else { (self.sess as Atom).wrapping_add(1).wrapping_mul(1_000_000_000).wrapping_add(self.id) });
    }
}
impl Val for () {
    fn make() -> Self {}
    fn flat(self, o: &mut Vec<Atom>) {
        o.push(UNIT);
    }
    fn peek(&self, o: &mut Vec<Atom>) {
        o.push(UNIT);
    }
}
impl<T: Val> Val for Option<T> {
    fn make() -> Self {
        Some(T::make())
    }
    fn flat(self, o: &mut Vec<Atom>) {
        match self {
            None => o.push(NONE),
            Some(t) => {
                o.push(SOME);
                t.flat(o);
            }
        }
    }
    fn peek(&self, o: &mut Vec<Atom>) {
        match self {
            None => o.push(NONE),
            Some(t) => {
                o.push(SOME);
                t.peek(o);
            }
        }
    }
}
impl<A: Val, B: Val> Val for (A, B) {
    fn make() -> Self {
        let a = A::make();
        (a, B::make())
    }
    fn flat(self, o: &mut Vec<Atom>) {
        self.0.flat(o);
        self.1.flat(o);
    }
    fn peek(&self, o: &mut Vec<Atom>) {
        self.0.peek(o);
        self.1.peek(o);
    }
}

/// Values made here belong to no session, and nobody counts them.
pub fn aside<T>(f: impl FnOnce() -> T) -> T {
    let _q = Quiet::new();
    CUR.with(|c| c.borrow_mut().push(usize::MAX));
    let t = f();
    CUR.with(|c| c.borrow_mut().pop());
    t
}
/// What the token about to be delivered says its extra value is.
pub fn tok_extra<T: Val>(e: &T) {
    let _q = Quiet::new();
    let mut a = Vec::new();
    e.peek(&mut a);
    with(cur(), |s| {
        for (x, y) in s.tok_atoms.iter_mut().zip(a) {
            *x = y;
        }
    });
}

/// Make the value of the token about to be delivered.
pub fn tokv<T: Val>() -> T {
    let _q = Quiet::new();
    let v = T::make();
    let mut a = Vec::new();
    v.peek(&mut a);
    with(cur(), |s| s.tok_atoms = a);
    v
}

pub trait ErrT: Sized {
    fn mk(code: u64) -> Self;
    fn code(&self) -> u64;
}
impl ErrT for () {
    fn mk(_: u64) {}
    fn code(&self) -> u64 {
        0
    }
}
/// The %error type of some grammars. Its default is what the default callbacks return.
#[derive(Debug, Default)]
pub struct SErr(pub u64);
impl ErrT for SErr {
    fn mk(code: u64) -> SErr {
        SErr(code)
    }
    fn code(&self) -> u64 {
        self.0
    }
}

/// State of the %extra_argument.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Snap {
    pub id: Atom,
    pub n: u64,
    pub h: u64,
}
impl Snap {
    pub fn bump(&mut self, code: u64) {
        self.n += 1;
        self.h = mix(self.h, code);
    }
}
#[derive(Debug)]
pub struct Ctx {
    p: Pay<98>,
    s: Snap,
}
pub trait CtxLike {
    fn mk() -> Self;
    fn bump(&mut self, code: u64);
    fn snap(&self) -> Option<Snap>;
}
impl CtxLike for () {
    fn mk() {}
    fn bump(&mut self, _: u64) {}
    fn snap(&self) -> Option<Snap> {
        None
    }
}
impl CtxLike for Ctx {
    fn mk() -> Ctx {
        let p = Pay::<98>::make();
        let s = Snap { id: p.id, n: 0, h: 0 };
        Ctx { p, s }
    }
    fn bump(&mut self, code: u64) {
        self.s.bump(code);
    }
    fn snap(&self) -> Option<Snap> {
        Some(Snap { id: self.p.id, ..self.s })
    }
}
pub const BUMP_SYN: u64 = 1_000_001;
pub const BUMP_PFAIL: u64 = 1_000_002;
pub const BUMP_OVF: u64 = 1_000_003;
pub const BUMP_CALLER: u64 = 2_000_000;

/// Every hook passes here: runs the fault planned for it, if any.
fn hook(can_fail: bool) -> Out {
    let _q = Quiet::new();
    let me = cur();
    let over = with(me, |s| {
        s.ops += 1;
        s.ops > s.budget && s.in_call
    });
    if over == Some(true) {
        crate::count::no_more_stepping();
        std::panic::resume_unwind(Box::new(OverBudget));
    }
    let f = with(me, |s| {
        let n = s.hooks;
        s.hooks += 1;
        if !s.in_call {
            s.outside = true;
        }
        s.faults.iter().find(|f| !f.push && f.nth == n && !matches!(f.what, What::Preempt | What::Touch)).map(|f| f.what.clone())
    })
    .flatten();
    match f {
        None => Out::Ok,
        Some(What::Err) if can_fail => {
            let c = with(me, |s| {
                s.next_code += 1;
                s.fire("hook error");
                s.next_code
            });
            Out::Err(c.unwrap_or(0))
        }
        Some(What::Err) => Out::Ok,
        Some(What::Panic) => {
            with(me, |s| s.fire("hook panic"));
            Out::Panic
        }
        Some(What::Yield) => {
            if crate::exec::yield_now() {
                with(me, |s| s.fire("preempted in hook"));
            }
            Out::Ok
        }
        Some(What::Preempt | What::Touch) => Out::Ok,
        Some(What::Nest(steps)) => {
            with(me, |s| s.fire("nested session steps"));
            crate::exec::nested(&steps);
            Out::Ok
        }
    }
}
fn push_ev(e: Ev) {
    with(cur(), |s| s.evs.push(e));
}
fn code() -> u64 {
    with(cur(), |s| {
        s.next_code += 1;
        s.next_code
    })
    .unwrap_or(0)
}
fn boom() -> ! {
    crate::count::no_more_stepping();
    std::panic::resume_unwind(Box::new(Injected))
}

/// A rule action.
pub struct Act {
    rule: usize,
    args: Vec<(usize, Vec<Atom>)>,
    _quiet: Quiet,
}
impl Act {
    pub fn new(rule: usize) -> Act {
        Act { _quiet: Quiet::new(), rule, args: Vec::new() }
    }
    pub fn arg<T: Val>(mut self, pos: usize, v: T) -> Act {
        let _q = Quiet::new();
        let mut a = Vec::new();
        v.flat(&mut a);
        self.args.push((pos, a));
        self
    }
    pub fn ctx<C: CtxLike>(self, c: &mut C) -> Act {
        c.bump(self.rule as u64);
        self
    }
    pub fn fin<T: Val, E: ErrT>(self) -> Result<T, E> {
        let _q = Quiet::new();
        let out = hook(true);
        let mut new = Vec::new();
        let r = match out {
            Out::Ok => {
                let v = T::make();
                v.peek(&mut new);
                Some(Ok(v))
            }
            Out::Err(c) => Some(Err(E::mk(c))),
            Out::Panic => None,
        };
        push_ev(Ev::Act { rule: self.rule, args: self.args, new, out });
        match r {
            Some(r) => r,
            None => boom(),
        }
    }
}

/// %syntax_error
pub struct Syn {
    tok: Option<TokD>,
    exp: Vec<(String, i64, Option<TokD>)>,
    part: Option<String>,
    rest: Vec<String>,
}
impl Syn {
    pub fn new(tok: Option<TokD>, exp: Vec<(String, i64, Option<TokD>)>, part: Option<String>, rest: Vec<String>) -> Syn {
        Syn { tok, exp, part, rest }
    }
    pub fn ctx<C: CtxLike>(self, c: &mut C) -> Syn {
        c.bump(BUMP_SYN);
        self
    }
    pub fn fin<T: Val, E: ErrT>(self) -> Result<T, E> {
        let _q = Quiet::new();
        let out = hook(true);
        let mut new = Vec::new();
        let r = match out {
            Out::Ok => {
                let v = T::make();
                v.peek(&mut new);
                Some(Ok(v))
            }
            Out::Err(c) => Some(Err(E::mk(c))),
            Out::Panic => None,
        };
        push_ev(Ev::Syn { tok: self.tok, exp: self.exp, part: self.part, rest: self.rest, new, out });
        match r {
            Some(r) => r,
            None => boom(),
        }
    }
}
pub fn pfail<C: CtxLike, E: ErrT>(c: &mut C) -> E {
    c.bump(BUMP_PFAIL);
    if hook(false) == Out::Panic {
        push_ev(Ev::PFail { out: Out::Panic });
        boom()
    }
    let n = code();
    push_ev(Ev::PFail { out: Out::Err(n) });
    E::mk(n)
}
pub fn ovf<C: CtxLike, E: ErrT>(tok: Option<TokD>, c: &mut C) -> E {
    c.bump(BUMP_OVF);
    if hook(false) == Out::Panic {
        push_ev(Ev::Ovf { tok, out: Out::Panic });
        boom()
    }
    let n = code();
    push_ev(Ev::Ovf { tok, out: Out::Err(n) });
    E::mk(n)
}

/// The stack of some grammars: exactly the documented operations, each of them observed.
pub struct SimStack<T> {
    v: Vec<T>,
    sess: usize,
}
impl<T> SimStack<T> {
    fn op(&self) {
        let over = with(self.sess, |s| {
            s.ops += 1;
            s.ops > s.budget && s.in_call
        });
        if over == Some(true) {
            crate::count::no_more_stepping();
            std::panic::resume_unwind(Box::new(OverBudget));
        }
    }
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        SimStack { v: Vec::new(), sess: cur() }
    }
    pub fn push(&mut self, t: T) {
        self.op();
        let len = self.v.len() + 1;
        let p = with(self.sess, |s| {
            let n = s.pushes;
            s.pushes += 1;
            let f = s.faults.iter().any(|f| f.push && f.nth == n);
            if f {
                s.fire("stack push panic");
                s.push_fired = true;
            } else {
                s.max_len = s.max_len.max(len);
            }
            f
        });
        if p == Some(true) {
            // the allocation for the new entry failed
            boom();
        }
        self.v.push(t);
    }
    pub fn pop(&mut self) -> Option<T> {
        self.op();
        self.v.pop()
    }
    pub fn last(&self) -> Option<&T> {
        self.op();
        self.v.last()
    }
    pub fn is_empty(&self) -> bool {
        self.op();
        self.v.is_empty()
    }
    pub fn len(&self) -> usize {
        self.op();
        self.v.len()
    }
    pub fn clear(&mut self) {
        self.op();
        self.v.clear();
    }
}

/// One parser of a corpus grammar, with the differences between their types ironed out.
pub trait Sess: Send {
    fn parse(&mut self, kind: usize) -> Result<(), u64>;
    fn end(self: Box<Self>) -> Result<(Vec<Atom>, Option<Snap>), u64>;
    fn snap(&self) -> Option<Snap>;
    fn bump(&mut self, code: u64);
    fn into_extra(self: Box<Self>) -> Option<Snap>;
}
pub fn flat<T: Val>(v: T) -> Vec<Atom> {
    let _q = Quiet::new();
    let mut a = Vec::new();
    v.flat(&mut a);
    a
}
