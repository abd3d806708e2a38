//! Symbolic interpreter for the IR: one `Worker` per thread, states forked at symbolic branches.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::parse::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

pub const HBASE: u64 = 0x5000_0000_0000;
pub const SBASE: u64 = 0x7000_0000_0000;
const OSHIFT: u32 = 26;
const OMASK: u64 = (1 << OSHIFT) - 1;
const MAX_ALLOC: u64 = 48 << 20;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(Eid),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    body: Arc<Body>,
    regs: Vec<Val>,
    block: u32,
    ip: u32,
    dst: u32,
    smark: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    /// branch decision: outcome, implied by the path condition, hash of the condition
    B(bool, bool, u32),
    /// concretization step: value, equal?, implied, hash of the expression
    V(u128, bool, bool, u32),
    /// object chosen for a table lookup: address, hash of the address expression
    T(u64, u32),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    heap: Rc<Vec<Option<Rc<Obj>>>>,
    stack: Vec<Option<Rc<Obj>>>,
    gmut: Rc<FxMap<u32, Rc<Obj>>>,
    pc: Rc<Vec<Eid>>,
    known: Rc<FxMap<Eid, u128>>,
    ksup: Sup,
    kver: u64,
    model: Rc<Vec<u8>>,
    nsyms: u32,
    dec: Vec<Dec>,
    /// number of decisions taken from a donated prefix so far
    dpos: usize,
    /// object chosen by the table lookup being executed
    table: Option<u64>,
    prefix: Option<Rc<Vec<Dec>>>,
    obs: Rc<Vec<(u32, Eid)>>,
    steps: u64,
    checks: u32,
    maxdepth: u32,
    /// deepest call since this was last asked
    peak: u32,
    /// bytes of heap held, and how many may be (0: no limit)
    live: u64,
    climit: u64,
}

pub enum Stop {
    Done,
    Kill,
    Viol(String, String),
    Incon(String),
}
type X<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Work {
    pub job: usize,
    pub dec: Vec<Dec>,
    pub model: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub model: Vec<u8>,
    pub nsyms: u32,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub model: Vec<u8>,
    pub nsyms: u32,
    pub obs: Vec<u64>,
    pub prio: u64,
}

#[derive(Default, Clone)]
pub struct JobStats {
    pub paths: u64,
    pub forks: u64,
    pub killed: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub panic_sites: u64,
    pub covers: BTreeMap<String, u64>,
    pub maxdepth: u32,
    pub max_syms: u32,
    pub violations: Vec<Violation>,
    pub incon: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub max_conc: u64,
    pub time: f64,
}

#[derive(Clone)]
pub struct Limits {
    pub max_steps: u64,
    pub max_conc: u32,
    pub samples: usize,
    pub tier: u64,
    pub seed: u64,
    pub max_viol: usize,
    /// run on these concrete input bytes instead of symbols
    pub concrete: Option<Vec<u8>>,
}

#[derive(Clone, Copy, PartialEq)]
enum H {
    Ir,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    Strlen,
    Abort,
    Nop,
    Zero,
    Random,
    RBytes,
    RAssume,
    RCheck,
    RObserve,
    RObserveBytes,
    RCover,
    RConcretize,
    RTier,
    RSteps,
    RHeapLimit,
    RHeap,
    RDepth,
    RPeak,
    RFail,
    RArg,
    REnd,
    Intr(I),
    Unknown,
}
#[derive(Clone, Copy, PartialEq)]
enum I {
    Memcpy,
    Memset,
    Umin,
    Umax,
    Smin,
    Smax,
    Abs,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddS,
    UsubS,
    SaddS,
    SsubS,
    Ucmp,
    Scmp,
    Nop,
    Zero,
    Arg0,
    Trap,
    LoadRel,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
}

fn handler(name: &str, defined: bool) -> H {
    if let Some(r) = name.strip_prefix("rsym_") {
        return match r {
            "bytes" => H::RBytes,
            "assume" => H::RAssume,
            "check" => H::RCheck,
            "observe" => H::RObserve,
            "observe_bytes" => H::RObserveBytes,
            "cover" => H::RCover,
            "concretize" => H::RConcretize,
            "tier" => H::RTier,
            "depth" => H::RDepth,
            "depth_peak" => H::RPeak,
            "steps" => H::RSteps,
            "heap_limit" => H::RHeapLimit,
            "heap" => H::RHeap,
            "fail" => H::RFail,
            "arg" => H::RArg,
            "end" => H::REnd,
            "init" if defined => H::Ir,
            _ => H::Unknown,
        };
    }
    if let Some(r) = name.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        let i = if p("memcpy.") || p("memmove.") {
            I::Memcpy
        } else if p("memset.") {
            I::Memset
        } else if p("umin.") {
            I::Umin
        } else if p("umax.") {
            I::Umax
        } else if p("smin.") {
            I::Smin
        } else if p("smax.") {
            I::Smax
        } else if p("abs.") {
            I::Abs
        } else if p("ctpop.") {
            I::Ctpop
        } else if p("ctlz.") {
            I::Ctlz
        } else if p("cttz.") {
            I::Cttz
        } else if p("bswap.") {
            I::Bswap
        } else if p("bitreverse.") {
            I::Bitrev
        } else if p("fshl.") {
            I::Fshl
        } else if p("fshr.") {
            I::Fshr
        } else if p("uadd.with") {
            I::UaddO
        } else if p("usub.with") {
            I::UsubO
        } else if p("umul.with") {
            I::UmulO
        } else if p("sadd.with") {
            I::SaddO
        } else if p("ssub.with") {
            I::SsubO
        } else if p("smul.with") {
            I::SmulO
        } else if p("uadd.sat") {
            I::UaddS
        } else if p("usub.sat") {
            I::UsubS
        } else if p("sadd.sat") {
            I::SaddS
        } else if p("ssub.sat") {
            I::SsubS
        } else if p("ucmp.") {
            I::Ucmp
        } else if p("scmp.") {
            I::Scmp
        } else if p("lifetime.") || p("experimental.noalias") || p("assume") || p("dbg.") || p("prefetch") || p("donothing") || p("invariant.") || p("x86.sse2.pause") || p("sideeffect") {
            I::Nop
        } else if p("is.constant") {
            I::Zero
        } else if p("expect.") || p("threadlocal.address") || p("launder.") || p("strip.") || p("ssa.copy") || p("ptrmask") && false {
            I::Arg0
        } else if p("trap") || p("ubsantrap") || p("debugtrap") {
            I::Trap
        } else if p("load.relative") {
            I::LoadRel
        } else if p("vector.reduce.or") {
            I::VecReduceOr
        } else if p("vector.reduce.and") {
            I::VecReduceAnd
        } else if p("vector.reduce.add") {
            I::VecReduceAdd
        } else {
            return H::Unknown;
        };
        return H::Intr(i);
    }
    match name {
        "malloc" => return H::Malloc,
        "calloc" => return H::Calloc,
        "realloc" => return H::Realloc,
        "free" => return H::Free,
        "posix_memalign" => return H::Memalign,
        "bcmp" => return H::Bcmp,
        "memcmp" => return H::Memcmp,
        "strlen" => return H::Strlen,
        "abort" => return H::Abort,
        // nothing is undone at the end of a thread
        "__cxa_thread_atexit_impl" | "__cxa_atexit" => return H::Zero,
        // keys of hash tables: fixed
        "getrandom" => return H::Random,
        _ => {}
    }
    if name.contains("4core9panicking") || name.contains("18handle_alloc_error") || name.contains("12handle_error") && name.contains("raw_vec") || name.contains("3std9panicking") || name.contains("3std7process5abort") {
        return H::Panic;
    }
    if name.contains("no_alloc_shim") {
        return H::Nop;
    }
    if defined {
        H::Ir
    } else {
        H::Unknown
    }
}

pub struct Worker<'m> {
    m: &'m Module,
    hs: Vec<H>,
    pub ar: Arena,
    pub z3: Z3,
    cache: HashMap<Vec<Eid>, (Res, Vec<(u32, u8)>)>,
    pub cache_hits: u64,
    pub model_hits: u64,
    recent: Vec<Rc<Vec<u8>>>,
    simp_memo: FxMap<Eid, Eid>,
    simp_ver: u64,
    next_ver: u64,
    pub lim: Limits,
    pub out: Vec<State>,
    /// visited (function, block)
    pub visited: HashSet<(u32, u32)>,
    gobj: Vec<Option<Rc<Obj>>>,
    gstart: Vec<u64>,
    pub st: JobStats,
    pub job_arg: u64,
    mt: HashMap<(u32, u64), Eid>,
}

impl<'m> Worker<'m> {
    pub fn new(m: &'m Module, lim: Limits, z3_ms: u32) -> Worker<'m> {
        let hs = m.funcs.iter().map(|f| handler(&f.name, f.defined)).collect();
        let gstart = m.globals.iter().map(|g| g.addr).collect();
        Worker {
            m,
            hs,
            ar: Arena::new(),
            z3: Z3::new(z3_ms),
            cache: HashMap::new(),
            cache_hits: 0,
            model_hits: 0,
            recent: vec![],
            simp_memo: Default::default(),
            simp_ver: 0,
            next_ver: 1,
            lim,
            out: vec![],
            visited: HashSet::new(),
            gobj: m.globals.iter().map(|_| None).collect(),
            gstart,
            st: JobStats::default(),
            job_arg: 0,
            mt: HashMap::new(),
        }
    }
    /// Drop all expressions (only when no states are alive).
    pub fn reset_arena(&mut self) {
        self.ar = Arena::new();
        self.z3.reset();
        self.cache.clear();
        self.recent.clear();
        self.simp_memo.clear();
        self.simp_ver = 0;
        self.mt.clear();
    }

    pub fn start(&mut self, func: &str, w: &Work) -> Result<State, String> {
        let f = *self.m.fidx.get(func).ok_or(format!("no function {}", func))?;
        let body = self.m.body(f)?;
        if body.nparams != 0 {
            return Err(format!("{} takes parameters", func));
        }
        let fr = Frame { func: f, regs: vec![Val::C(0); body.nregs], body, block: 0, ip: 0, dst: NOREG, smark: 0 };
        self.visited.insert((f, 0));
        Ok(State {
            frames: vec![Rc::new(fr)],
            heap: Rc::new(vec![None]),
            stack: vec![None],
            gmut: Rc::new(Default::default()),
            pc: Rc::new(vec![]),
            known: Rc::new(Default::default()),
            ksup: Sup::default(),
            kver: 0,
            model: Rc::new(w.model.clone()),
            nsyms: 0,
            dec: vec![],
            dpos: 0,
            table: None,
            prefix: if w.dec.is_empty() { None } else { Some(Rc::new(w.dec.clone())) },
            obs: Rc::new(vec![]),
            steps: 0,
            checks: 0,
            maxdepth: 0,
            peak: 0,
            live: 0,
            climit: 0,
        })
    }

    // ---------------------------------------------------------------- constraints

    fn simp(&mut self, s: &State, e: Eid) -> Eid {
        if self.ar.konst(e).is_some() || !self.ar.sup(e).meets(&s.ksup) {
            return e;
        }
        if self.simp_ver != s.kver {
            self.simp_memo.clear();
            self.simp_ver = s.kver;
        }
        let mut memo = std::mem::take(&mut self.simp_memo);
        // to a fixpoint: rewriting can expose terms that are themselves known
        let mut r = self.ar.subst(e, &s.known, &s.ksup, &mut memo);
        let mut p = e;
        while r != p && self.ar.konst(r).is_none() {
            p = r;
            r = self.ar.subst(p, &s.known, &s.ksup, &mut memo);
        }
        self.simp_memo = memo;
        r
    }

    fn learn(&mut self, s: &mut State, c: Eid, v: bool) {
        // record c == v and consequences
        let mut st = vec![(c, v)];
        let mut bound = false;
        while let Some((c, v)) = st.pop() {
            match self.ar.n(c) {
                Node::Const(_) => continue,
                Node::Bin(Op::Xor, a, b) if self.ar.konst(b) == Some(1) => {
                    st.push((a, !v));
                    continue;
                }
                Node::Bin(Op::And, a, b) if v && self.ar.w(c) == 1 => {
                    st.push((a, true));
                    st.push((b, true));
                }
                Node::Bin(Op::Or, a, b) if !v && self.ar.w(c) == 1 => {
                    st.push((a, false));
                    st.push((b, false));
                }
                Node::Cmp(Cmp::Eq, a, b) if v => {
                    if let Some(k) = self.ar.konst(b) {
                        Rc::make_mut(&mut s.known).insert(a, k);
                        if let Node::Sym(_) = self.ar.n(a) {
                            bound = true;
                        }
                    }
                }
                _ => {}
            }
            let sup = *self.ar.sup(c);
            Rc::make_mut(&mut s.known).insert(c, v as u128);
            s.ksup = s.ksup.or(&sup);
        }
        s.kver = self.next_ver;
        self.next_ver += 1;
        if bound {
            // rewrite the path condition with the new binding
            let symk: FxMap<Eid, u128> = s.known.iter().filter(|(e, _)| matches!(self.ar.n(**e), Node::Sym(_))).map(|(e, k)| (*e, *k)).collect();
            let mut ks = Sup::default();
            for e in symk.keys() {
                ks = ks.or(self.ar.sup(*e));
            }
            let mut memo = Default::default();
            let mut out = Vec::with_capacity(s.pc.len());
            for c in s.pc.iter() {
                // keep the binding constraints themselves
                let is_binding = match self.ar.n(*c) {
                    Node::Cmp(Cmp::Eq, a, b) => matches!(self.ar.n(a), Node::Sym(_)) && self.ar.konst(b).is_some(),
                    _ => false,
                };
                let r = if is_binding { *c } else { self.ar.subst(*c, &symk, &ks, &mut memo) };
                if self.ar.konst(r) == Some(1) {
                    continue;
                }
                if !out.contains(&r) {
                    out.push(r);
                }
            }
            s.pc = Rc::new(out);
        }
    }

    fn constrain(&mut self, s: &mut State, c: Eid, v: bool) {
        let t = if v { c } else { self.ar.not1(c) };
        if !s.pc.contains(&t) {
            Rc::make_mut(&mut s.pc).push(t);
        }
        self.learn(s, c, v);
    }

    /// Is `pc /\ c` satisfiable?  `c` is a non-constant width-1 term.
    /// On Sat returns a full model.
    fn feasible(&mut self, s: &State, c: Eid) -> (Res, Rc<Vec<u8>>) {
        // independence slice
        let mut sup = *self.ar.sup(c);
        let mut sel: Vec<Eid> = vec![c];
        let mut rest: Vec<Eid> = s.pc.to_vec();
        loop {
            let mut changed = false;
            let mut i = 0;
            while i < rest.len() {
                let cs = *self.ar.sup(rest[i]);
                if cs.meets(&sup) {
                    sup = sup.or(&cs);
                    sel.push(rest.swap_remove(i));
                    changed = true;
                } else {
                    i += 1;
                }
            }
            if !changed {
                break;
            }
        }
        sel.sort();
        sel.dedup();
        let splice = |base: &Rc<Vec<u8>>, asg: &[(u32, u8)], nsyms: u32| -> Rc<Vec<u8>> {
            let mut v = (**base).clone();
            if v.len() < nsyms as usize {
                v.resize(nsyms as usize, 0);
            }
            for (i, b) in asg {
                v[*i as usize] = *b;
            }
            Rc::new(v)
        };
        if let Some((r, asg)) = self.cache.get(&sel) {
            self.cache_hits += 1;
            return (*r, if *r == Res::Sat { splice(&s.model, asg, s.nsyms) } else { s.model.clone() });
        }
        // counterexample cache
        for k in (0..self.recent.len()).rev() {
            let md = self.recent[k].clone();
            if sel.iter().all(|e| self.ar.eval(*e, &md) != 0) {
                self.model_hits += 1;
                let asg: Vec<(u32, u8)> = sup.iter().map(|i| (i, md.get(i as usize).copied().unwrap_or(0))).collect();
                let r = splice(&s.model, &asg, s.nsyms);
                self.cache.insert(sel, (Res::Sat, asg));
                return (Res::Sat, r);
            }
        }
        let syms: Vec<u32> = sup.iter().collect();
        let (r, vals) = self.z3.check(&self.ar, &sel, &syms);
        let asg: Vec<(u32, u8)> = syms.iter().copied().zip(vals).collect();
        let md = if r == Res::Sat {
            let md = splice(&s.model, &asg, s.nsyms);
            // guard against a bad translation or a bad model
            if !sel.iter().all(|e| self.ar.eval(*e, &md) != 0) {
                return (Res::Unknown, s.model.clone());
            }
            self.recent.push(md.clone());
            if self.recent.len() > 16 {
                self.recent.remove(0);
            }
            md
        } else {
            s.model.clone()
        };
        self.cache.insert(sel, (r, asg));
        (r, md)
    }

    fn next_prefix(&mut self, s: &mut State) -> Option<Dec> {
        let p = s.prefix.as_ref()?;
        let d = p[s.dpos];
        s.dpos += 1;
        if s.dpos == p.len() {
            s.prefix = None;
        }
        Some(d)
    }

    /// Decide a width-1 condition, forking when both outcomes are feasible.
    fn decide(&mut self, s: &mut State, c: Eid) -> X<bool> {
        let mut c = self.simp(s, c);
        if let Some(k) = self.ar.konst(c) {
            return Ok(k != 0);
        }
        let mut flip = false;
        if let Node::Bin(Op::Xor, a, b) = self.ar.n(c) {
            if self.ar.konst(b) == Some(1) {
                c = a;
                flip = true;
            }
        }
        let h32 = self.ar.nodes[c as usize].h as u32;
        if let Some(d) = self.next_prefix(s) {
            match d {
                Dec::B(v, implied, hh) if hh == h32 => {
                    s.dec.push(d);
                    if implied {
                        self.learn(s, c, v);
                    } else {
                        self.constrain(s, c, v);
                    }
                    return Ok(v ^ flip);
                }
                d => return Err(Stop::Incon(format!("replay diverged {:?} {} {}", d, h32, self.ar.show(c, 6)))),
            }
        }
        let v = self.ar.eval(c, &s.model) != 0;
        let neg = if v { self.ar.not1(c) } else { c };
        let (r, md) = self.feasible(s, neg);
        match r {
            Res::Unknown => {
                if std::env::var("RSYM_DBG").is_ok() {
                    eprintln!("UNKNOWN {} {}", self.location(s), self.ar.show(c, 12));
                }
                return Err(Stop::Incon("solver gave no answer".into()));
            }
            Res::Unsat => {
                s.dec.push(Dec::B(v, true, h32));
                self.learn(s, c, v);
            }
            Res::Sat => {
                let mut o = s.clone();
                o.model = md;
                o.dec.push(Dec::B(!v, false, h32));
                self.constrain(&mut o, c, !v);
                self.out.push(o);
                if std::env::var("RSYM_DBG").is_ok() {
                    eprintln!("FORK {} {}", self.location(s), self.ar.show(c, 4));
                }
                self.st.forks += 1;
                s.dec.push(Dec::B(v, false, h32));
                self.constrain(s, c, v);
            }
        }
        Ok(v ^ flip)
    }

    /// Fix the value of an expression, forking over all feasible values.
    fn concretize(&mut self, s: &mut State, e: Eid) -> X<u128> {
        let mut n = 0;
        loop {
            let e = self.simp(s, e);
            if let Some(k) = self.ar.konst(e) {
                return Ok(k);
            }
            n += 1;
            if n > self.lim.max_conc {
                return Err(Stop::Incon(format!("more than {} values for an address or size", self.lim.max_conc)));
            }
            let w = self.ar.w(e);
            let h32 = self.ar.nodes[e as usize].h as u32;
            if let Some(d) = self.next_prefix(s) {
                match d {
                    Dec::V(v, eq, implied, hh) if hh == h32 => {
                        s.dec.push(d);
                        let k = self.ar.c(v, w);
                        let c = self.ar.eq(e, k);
                        if implied {
                            self.learn(s, c, eq);
                        } else {
                            self.constrain(s, c, eq);
                        }
                        if eq {
                            return Ok(v);
                        }
                        continue;
                    }
                    d => return Err(Stop::Incon(format!("replay diverged {:?} {} {}", d, h32, self.ar.show(e, 6)))),
                }
            }
            if std::env::var("RSYM_DBG").is_ok() {
                eprintln!("CONC {} {}", self.location(s), self.ar.show(e, 4));
            }
            let v = self.ar.eval(e, &s.model);
            let k = self.ar.c(v, w);
            let c = self.ar.eq(e, k);
            let neg = self.ar.not1(c);
            let (r, md) = self.feasible(s, neg);
            match r {
                Res::Unknown => return Err(Stop::Incon("solver gave no answer".into())),
                Res::Unsat => {
                    s.dec.push(Dec::V(v, true, true, h32));
                    self.learn(s, c, true);
                }
                Res::Sat => {
                    let mut o = s.clone();
                    o.model = md;
                    o.dec.push(Dec::V(v, false, false, h32));
                    self.constrain(&mut o, c, false);
                    self.out.push(o);
                    self.st.forks += 1;
                    s.dec.push(Dec::V(v, true, false, h32));
                    self.constrain(s, c, true);
                }
            }
            return Ok(v);
        }
    }
    fn conc(&mut self, s: &mut State, v: &Val) -> X<u64> {
        match v {
            Val::C(c) => Ok(*c as u64),
            Val::E(e) => Ok(self.concretize(s, *e)? as u64),
            Val::A(_) => Err(Stop::Incon("aggregate where a scalar was expected".into())),
        }
    }

    fn assume(&mut self, s: &mut State, c: Eid) -> X<()> {
        let c = self.simp(s, c);
        if let Some(k) = self.ar.konst(c) {
            return if k != 0 { Ok(()) } else { Err(Stop::Kill) };
        }
        if s.prefix.is_none() && self.ar.eval(c, &s.model) == 0 {
            let (r, md) = self.feasible(s, c);
            match r {
                Res::Unknown => return Err(Stop::Incon("solver gave no answer".into())),
                Res::Unsat => return Err(Stop::Kill),
                Res::Sat => s.model = md,
            }
        }
        self.constrain(s, c, true);
        Ok(())
    }

    // ---------------------------------------------------------------- values

    fn e(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::C(c) => self.ar.c(*c, w),
            Val::E(e) => {
                debug_assert!(self.ar.w(*e) == w, "width {} expected {}", self.ar.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    fn v(&self, e: Eid) -> Val {
        match self.ar.konst(e) {
            Some(c) => Val::C(c),
            None => Val::E(e),
        }
    }
    fn kval(k: &K, ty: &Ty) -> Val {
        match k {
            K::I(v) => Val::C(*v),
            K::Zero => Self::zero(ty),
            K::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
            K::A(v) => Val::A(Rc::new(v.iter().enumerate().map(|(i, x)| Self::kval(x, &ty.elem(i))).collect())),
        }
    }
    fn zero(ty: &Ty) -> Val {
        if ty.is_agg() {
            Val::A(Rc::new((0..ty.nelems()).map(|i| Self::zero(&ty.elem(i))).collect()))
        } else {
            Val::C(0)
        }
    }
    #[inline]
    fn get(fr: &Frame, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => fr.regs[*r as usize].clone(),
            Opnd::C(c) => Val::C(*c),
            Opnd::K(k, t) => Self::kval(k, t),
            Opnd::None => Val::C(0),
        }
    }

    fn bin(&mut self, op: Bop, w: u32, a: &Val, b: &Val) -> X<Val> {
        let o = match op {
            Bop::Add => Op::Add,
            Bop::Sub => Op::Sub,
            Bop::Mul => Op::Mul,
            Bop::UDiv => Op::UDiv,
            Bop::URem => Op::URem,
            Bop::SDiv => Op::SDiv,
            Bop::SRem => Op::SRem,
            Bop::Shl => Op::Shl,
            Bop::LShr => Op::LShr,
            Bop::AShr => Op::AShr,
            Bop::And => Op::And,
            Bop::Or => Op::Or,
            Bop::Xor => Op::Xor,
        };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if *y == 0 && matches!(o, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                return Err(Stop::Viol("memory".into(), "division by zero executed".into()));
            }
            return Ok(Val::C(cbin(o, w, *x, *y)));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(o, x, y);
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (sx, sy) = (sext(*x, w), sext(*y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            };
            return Val::C(r as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let (c, p, q, neg) = match p {
            Pred::Eq => (Cmp::Eq, x, y, false),
            Pred::Ne => (Cmp::Eq, x, y, true),
            Pred::Ult => (Cmp::Ult, x, y, false),
            Pred::Uge => (Cmp::Ult, x, y, true),
            Pred::Ugt => (Cmp::Ult, y, x, false),
            Pred::Ule => (Cmp::Ult, y, x, true),
            Pred::Slt => (Cmp::Slt, x, y, false),
            Pred::Sge => (Cmp::Slt, x, y, true),
            Pred::Sgt => (Cmp::Slt, y, x, false),
            Pred::Sle => (Cmp::Slt, y, x, true),
        };
        let r = self.ar.cmp(c, p, q);
        let r = if neg { self.ar.not1(r) } else { r };
        self.v(r)
    }
    fn cast(&mut self, c: Cast, fw: u32, tw: u32, a: &Val) -> Val {
        match a {
            Val::C(x) => Val::C(match c {
                Cast::ZExt | Cast::Copy => *x,
                Cast::SExt => sext(*x, fw) as u128 & mask(tw),
                Cast::Trunc => x & mask(tw),
            }),
            Val::E(e) => {
                let r = match c {
                    Cast::Copy => *e,
                    Cast::ZExt => self.ar.zext(*e, tw),
                    Cast::SExt => self.ar.sext(*e, tw),
                    Cast::Trunc => self.ar.trunc(*e, tw),
                };
                self.v(r)
            }
            Val::A(_) => a.clone(),
        }
    }
    fn ite(&mut self, c: Eid, ty: &Ty, a: &Val, b: &Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let v = (0..x.len()).map(|i| self.ite(c, &ty.elem(i), &x[i], &y[i])).collect();
            return Val::A(Rc::new(v));
        }
        let w = ty.bits();
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.ite(c, x, y);
        self.v(r)
    }

    // ---------------------------------------------------------------- memory

    fn gindex(&self, addr: u64) -> Option<usize> {
        let i = match self.gstart.binary_search(&addr) {
            Ok(i) => i,
            Err(0) => return None,
            Err(i) => i - 1,
        };
        let g = &self.m.globals[i];
        if addr <= g.addr + g.size {
            Some(i)
        } else {
            None
        }
    }
    fn gload(&mut self, i: usize) -> Rc<Obj> {
        if let Some(o) = &self.gobj[i] {
            return o.clone();
        }
        let g = &self.m.globals[i];
        let o = Rc::new(Obj { data: g.init.clone(), sym: SymBytes::None });
        self.gobj[i] = Some(o.clone());
        o
    }
    fn oob(&self, addr: u64, n: u64, what: &str) -> Stop {
        Stop::Viol("memory".into(), format!("invalid {} of {} byte(s) at {:#x}", what, n, addr))
    }
    /// Object and offset for an access of `n` bytes.
    fn object(&mut self, s: &State, addr: u64, n: u64, what: &str) -> X<(Rc<Obj>, u64)> {
        if addr >= SBASE {
            let (id, off) = (((addr - SBASE) >> OSHIFT) as usize, addr & OMASK);
            if let Some(Some(o)) = s.stack.get(id) {
                if off + n <= o.size() {
                    return Ok((o.clone(), off));
                }
            }
        } else if addr >= HBASE {
            let (id, off) = (((addr - HBASE) >> OSHIFT) as usize, addr & OMASK);
            if let Some(Some(o)) = s.heap.get(id) {
                if off + n <= o.size() {
                    return Ok((o.clone(), off));
                }
            }
        } else if addr >= GBASE && addr < FBASE {
            if let Some(i) = self.gindex(addr) {
                let off = addr - self.m.globals[i].addr;
                let o = match s.gmut.get(&(i as u32)) {
                    Some(o) => o.clone(),
                    None => self.gload(i),
                };
                if self.m.globals[i].external {
                    return Err(Stop::Incon(format!("access to external global {}", self.m.globals[i].name)));
                }
                if off + n <= o.size() {
                    return Ok((o, off));
                }
            }
        }
        Err(self.oob(addr, n, what))
    }
    /// Mutable access.
    fn with_mut<T>(&mut self, s: &mut State, addr: u64, n: u64, f: impl FnOnce(&mut Obj, u64) -> T) -> X<T> {
        if addr >= SBASE {
            let (id, off) = (((addr - SBASE) >> OSHIFT) as usize, addr & OMASK);
            if let Some(Some(o)) = s.stack.get_mut(id) {
                if off + n <= o.size() {
                    return Ok(f(Rc::make_mut(o), off));
                }
            }
        } else if addr >= HBASE {
            let (id, off) = (((addr - HBASE) >> OSHIFT) as usize, addr & OMASK);
            if id < s.heap.len() && s.heap[id].is_some() {
                let o = Rc::make_mut(&mut s.heap)[id].as_mut().unwrap();
                if off + n <= o.size() {
                    return Ok(f(Rc::make_mut(o), off));
                }
            }
        } else if addr >= GBASE && addr < FBASE {
            if let Some(i) = self.gindex(addr) {
                let off = addr - self.m.globals[i].addr;
                if !self.m.globals[i].constant && !self.m.globals[i].external {
                    if !s.gmut.contains_key(&(i as u32)) {
                        let o = self.gload(i);
                        Rc::make_mut(&mut s.gmut).insert(i as u32, o);
                    }
                    let o = Rc::make_mut(&mut s.gmut).get_mut(&(i as u32)).unwrap();
                    if off + n <= o.size() {
                        return Ok(f(Rc::make_mut(o), off));
                    }
                }
            }
        }
        Err(self.oob(addr, n, "write"))
    }
    fn read_obj(&mut self, o: &Obj, off: u64, w: u32) -> Val {
        let n = ((w + 7) / 8) as u64;
        if !o.any_sym(off, n) {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = v << 8 | o.data[(off + i) as usize] as u128;
            }
            return Val::C(v & mask(w));
        }
        let mut e = 0;
        for i in 0..n {
            let b = o.symat(off + i);
            let b = if b != 0 { b } else { self.ar.c(o.data[(off + i) as usize] as u128, 8) };
            e = if i == 0 { b } else { self.ar.concat(b, e) };
        }
        if w < 8 * n as u32 {
            e = self.ar.trunc(e, w);
        }
        self.v(e)
    }
    fn read(&mut self, s: &State, addr: u64, ty: &Ty) -> X<Val> {
        if ty.is_agg() {
            if let Ty::Vec(n, t) = ty {
                if t.bits() < 8 {
                    let v = self.read(s, addr, &Ty::Int((*n as u32) * t.bits()))?;
                    return Ok(self.split_vec(&v, *n as usize, t.bits()));
                }
            }
            let mut v = vec![];
            for i in 0..ty.nelems() {
                v.push(self.read(s, addr + ty.field_off(i), &ty.elem(i))?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let w = ty.bits();
        let (o, off) = self.object(s, addr, ((w + 7) / 8) as u64, "read")?;
        Ok(self.read_obj(&o, off, w))
    }
    fn split_vec(&mut self, v: &Val, n: usize, w: u32) -> Val {
        let out = (0..n)
            .map(|i| match v {
                Val::C(c) => Val::C((c >> (i as u32 * w)) & mask(w)),
                Val::E(e) => {
                    let x = self.ar.extract(*e, i as u32 * w, w);
                    self.v(x)
                }
                _ => unreachable!(),
            })
            .collect();
        Val::A(Rc::new(out))
    }
    fn join_vec(&mut self, v: &[Val], w: u32) -> Val {
        let mut e = self.e(&v[0], w);
        for x in &v[1..] {
            let h = self.e(x, w);
            e = self.ar.concat(h, e);
        }
        self.v(e)
    }
    fn write(&mut self, s: &mut State, addr: u64, ty: &Ty, v: &Val) -> X<()> {
        if ty.is_agg() {
            let a = match v {
                Val::A(a) => a.clone(),
                _ => return Err(Stop::Incon("scalar stored as aggregate".into())),
            };
            if let Ty::Vec(n, t) = ty {
                if t.bits() < 8 {
                    let j = self.join_vec(&a, t.bits());
                    return self.write(s, addr, &Ty::Int((*n as u32) * t.bits()), &j);
                }
            }
            for i in 0..ty.nelems() {
                self.write(s, addr + ty.field_off(i), &ty.elem(i), &a[i])?;
            }
            return Ok(());
        }
        let w = ty.bits();
        let n = ((w + 7) / 8) as u64;
        match v {
            Val::C(c) => {
                let c = *c;
                self.with_mut(s, addr, n, |o, off| {
                    for i in 0..n {
                        o.data[(off + i) as usize] = (c >> (8 * i)) as u8;
                    }
                    o.clear_sym(off, n);
                })
            }
            Val::E(e) => {
                let e = if w < 8 * n as u32 { self.ar.zext(*e, 8 * n as u32) } else { *e };
                let bytes: Vec<Eid> = (0..n).map(|i| self.ar.extract(e, 8 * i as u32, 8)).collect();
                let cs: Vec<Option<u128>> = bytes.iter().map(|b| self.ar.konst(*b)).collect();
                self.with_mut(s, addr, n, |o, off| {
                    for i in 0..n as usize {
                        match cs[i] {
                            Some(k) => {
                                o.data[off as usize + i] = k as u8;
                                o.set_sym(off + i as u64, 0);
                            }
                            None => o.set_sym(off + i as u64, bytes[i]),
                        }
                    }
                })
            }
            Val::A(_) => Err(Stop::Incon("aggregate stored as scalar".into())),
        }
    }
    fn copy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let (o, off) = self.object(s, src, n, "read")?;
        let bytes = o.data[off as usize..(off + n) as usize].to_vec();
        let syms = o.syms_in(off, n);
        drop(o);
        self.with_mut(s, dst, n, |d, doff| {
            d.data[doff as usize..(doff + n) as usize].copy_from_slice(&bytes);
            d.clear_sym(doff, n);
            for (i, e) in syms {
                d.set_sym(doff + i, e);
            }
        })
    }
    /// The size of an allocation; under a limit the solver is asked whether it can exceed it.
    fn alloc_size(&mut self, s: &mut State, v: &Val) -> X<u64> {
        if let (Val::E(e), true, true) = (v, s.climit != 0, s.prefix.is_none()) {
            let e = self.simp(s, *e);
            if self.ar.konst(e).is_none() {
                let room = self.ar.c((s.climit - s.live.min(s.climit)) as u128, 64);
                let over = self.ar.ult(room, e);
                self.st.checks += 1;
                self.st.checks_solver += 1;
                match self.feasible(s, over) {
                    (Res::Sat, md) => {
                        s.model = md;
                        return Err(Stop::Viol("check".into(), "more memory held than the input accounts for".into()));
                    }
                    (Res::Unsat, _) => {}
                    (Res::Unknown, _) => return Err(Stop::Incon("solver gave no answer on an allocation".into())),
                }
            }
        }
        self.conc(s, v)
    }
    fn alloc(&mut self, s: &mut State, size: u64) -> X<u64> {
        if s.climit != 0 && s.live.saturating_add(size) > s.climit {
            return Err(Stop::Viol("check".into(), "more memory held than the input accounts for".into()));
        }
        if size > MAX_ALLOC {
            return Err(Stop::Viol("hang".into(), format!("allocation of {} bytes", size)));
        }
        let h = Rc::make_mut(&mut s.heap);
        let id = h.len() as u64;
        if id >= 1 << 18 {
            return Err(Stop::Viol("hang".into(), "too many heap objects".into()));
        }
        h.push(Some(Rc::new(Obj::new(size))));
        s.live += size;
        Ok(HBASE + (id << OSHIFT))
    }
    fn free(&mut self, s: &mut State, p: u64) -> X<()> {
        if p == 0 {
            return Ok(());
        }
        if p < HBASE || p >= SBASE || p & OMASK != 0 {
            return Err(Stop::Viol("memory".into(), format!("free of {:#x}", p)));
        }
        let id = ((p - HBASE) >> OSHIFT) as usize;
        if s.heap.get(id).map_or(true, |o| o.is_none()) {
            return Err(Stop::Viol("memory".into(), format!("double free of {:#x}", p)));
        }
        let h = Rc::make_mut(&mut s.heap);
        s.live -= h[id].as_ref().map_or(0, |o| o.size());
        h[id] = None;
        Ok(())
    }

    /// Address operand: either concrete, or symbolic over a small constant table.
    fn load(&mut self, s: &mut State, p: &Val, ty: &Ty) -> X<Val> {
        let a = match p {
            Val::C(c) => *c as u64,
            Val::E(e) => {
                let e = self.simp(s, *e);
                match self.ar.konst(e) {
                    Some(c) => c as u64,
                    None => {
                        let v = self.table_load(s, e, ty)?;
                        let a = if v.is_none() { self.concretize(s, e)? as u64 } else { 0 };
                        s.table = None;
                        if let Some(v) = v {
                            return Ok(v);
                        }
                        a
                    }
                }
            }
            Val::A(_) => return Err(Stop::Incon("aggregate address".into())),
        };
        self.read(s, a, ty)
    }
    fn table_load(&mut self, s: &mut State, e: Eid, ty: &Ty) -> X<Option<Val>> {
        if ty.is_agg() {
            return Ok(None);
        }
        let w = ty.bits();
        let n = ((w + 7) / 8) as u64;
        // which object the address falls into is read off the current model; a replayed prefix
        // has another model, so the choice is part of the decision trail
        let h32 = self.ar.nodes[e as usize].h as u32;
        let a0 = match s.table {
            // this load forked and is executed again
            Some(a) => a,
            None => {
                let a = match self.next_prefix(s) {
                    Some(Dec::T(a, hh)) if hh == h32 => a,
                    Some(_) => return Err(Stop::Incon("replay diverged at a table".into())),
                    None => self.ar.eval(e, &s.model) as u64,
                };
                s.dec.push(Dec::T(a, h32));
                s.table = Some(a);
                a
            }
        };
        if !(GBASE..FBASE).contains(&a0) {
            return Ok(None);
        }
        let gi = match self.gindex(a0) {
            Some(i) => i,
            None => return Ok(None),
        };
        let (base, size, constant) = {
            let g = &self.m.globals[gi];
            (g.addr, g.size, g.constant && !g.external)
        };
        if !constant || size > 2048 || size < n {
            return Ok(None);
        }
        // in bounds?
        let kb = self.ar.c(base as u128, 64);
        let off = self.ar.bin(Op::Sub, e, kb);
        let lim = self.ar.c((size - n + 1) as u128, 64);
        let inb = self.ar.ult(off, lim);
        if !self.decide(s, inb)? {
            return Ok(None);
        }
        let off = self.simp(s, off);
        if let Some(k) = self.ar.konst(off) {
            return Ok(Some(self.read(s, base + k as u64, ty)?));
        }
        // alignment known from the shape of the offset expression
        let tz = self.ar.tz(off).min(6);
        let step = 1u64 << tz;
        if let Some(r) = self.mt.get(&(off, (gi as u64) << 8 | w as u64)) {
            let r = *r;
            return Ok(Some(self.v(r)));
        }
        let mut runs: Vec<(u64, u128)> = vec![]; // start offset, value
        let o = self.gload(gi);
        let mut k = 0;
        while k + n <= size {
            let v = match self.read_obj(&o, k, w) {
                Val::C(c) => c,
                _ => unreachable!(),
            };
            if runs.last().map_or(true, |r| r.1 != v) {
                runs.push((k, v));
            }
            k += step;
        }
        if runs.len() > 300 {
            return Ok(None);
        }
        let bits = 64 - (size).leading_zeros();
        let bits = (bits + 7) / 8 * 8;
        let idx = self.ar.trunc(off, bits.min(64));
        let r = self.run_tree(&runs, idx, w);
        self.mt.insert((off, (gi as u64) << 8 | w as u64), r);
        Ok(Some(self.v(r)))
    }
    fn run_tree(&mut self, runs: &[(u64, u128)], idx: Eid, w: u32) -> Eid {
        if runs.len() == 1 {
            return self.ar.c(runs[0].1, w);
        }
        let mid = runs.len() / 2;
        let iw = self.ar.w(idx);
        let k = self.ar.c(runs[mid].0 as u128, iw);
        let c = self.ar.ult(idx, k);
        let l = self.run_tree(&runs[..mid], idx, w);
        let r = self.run_tree(&runs[mid..], idx, w);
        self.ar.ite(c, l, r)
    }

    fn bytes_at(&mut self, s: &State, p: u64, n: u64) -> X<Vec<Eid>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.object(s, p, n, "read")?;
        Ok((0..n)
            .map(|i| {
                let b = o.symat(off + i);
                if b != 0 {
                    b
                } else {
                    self.ar.c(o.data[(off + i) as usize] as u128, 8)
                }
            })
            .collect())
    }
    fn str_at(&mut self, s: &State, p: u64, n: u64) -> String {
        match self.object(s, p, n, "read") {
            Ok((o, off)) => String::from_utf8_lossy(&o.data[off as usize..(off + n) as usize]).into_owned(),
            Err(_) => "?".into(),
        }
    }

    // ---------------------------------------------------------------- driver

    pub fn location(&self, s: &State) -> String {
        // innermost frames: function names and debug ids, resolved by the caller
        let mut v = vec![];
        for f in s.frames.iter().rev().take(24) {
            let i = &f.body.blocks[f.block as usize].insts;
            let ip = (f.ip as usize).min(i.len() - 1);
            v.push(format!("{}", i[ip].dbg));
        }
        v.join(",")
    }

    /// Run until the state ends.  Forks are pushed to `self.out`.
    pub fn run(&mut self, s: &mut State, stop: &dyn Fn() -> bool) -> Stop {
        let mut n = 0u64;
        loop {
            n += 1;
            if n & 0xfff == 0 {
                if stop() {
                    return Stop::Incon("time limit".into());
                }
                if s.steps > self.lim.max_steps {
                    return Stop::Viol("hang".into(), format!("more than {} instructions on one path", self.lim.max_steps));
                }
            }
            s.steps += 1;
            self.st.steps += 1;
            if let Err(e) = self.step(s) {
                return e;
            }
        }
    }

    pub fn finish(&mut self, s: &State) -> Sample {
        let obs = s
            .obs
            .iter()
            .map(|(w, e)| {
                let _ = w;
                self.ar.eval(*e, &s.model) as u64
            })
            .collect();
        let mut h = Fx::default();
        for d in &s.dec {
            use std::hash::Hasher;
            match d {
                Dec::B(v, ..) => h.write_u64(*v as u64 + 7),
                Dec::V(v, e, ..) => h.write_u64(*v as u64 * 2 + *e as u64),
                Dec::T(..) => {}
            }
        }
        use std::hash::Hasher;
        h.write_u64(self.lim.seed);
        let x = h.finish();
        let mut model = (*s.model).clone();
        model.resize(s.nsyms as usize, 0);
        Sample { model, nsyms: s.nsyms, obs, prio: (x ^ (x >> 31)).wrapping_mul(0x9E37_79B9_7F4A_7C15) }
    }
    pub fn info(&self, s: &State) -> (u32, u32, u32, u64) {
        (s.nsyms, s.checks, s.maxdepth, s.steps)
    }
    pub fn model_of(&self, s: &State) -> (Vec<u8>, u32) {
        let mut model = (*s.model).clone();
        model.resize(s.nsyms as usize, 0);
        (model, s.nsyms)
    }
    pub fn donate(&self, s: &State, job: usize) -> Work {
        let mut dec = s.dec.clone();
        // a state that has not consumed its own prefix yet keeps the remainder
        if let Some(p) = &s.prefix {
            dec.extend_from_slice(&p[s.dpos..]);
        }
        Work { job, dec, model: (*s.model).clone() }
    }

    fn jump(&mut self, s: &mut State, to: u32) -> X<()> {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        let from = fr.block;
        let body = fr.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = p.inc.iter().find(|x| x.0 == from);
                match o {
                    Some((_, o)) => vals.push(Self::get(fr, o)),
                    None => return Err(Stop::Incon("phi without matching predecessor".into())),
                }
            }
            for (p, v) in b.phis.iter().zip(vals) {
                fr.regs[p.dst as usize] = v;
            }
        }
        fr.block = to;
        fr.ip = 0;
        let f = fr.func;
        self.visited.insert((f, to));
        Ok(())
    }

    fn step(&mut self, s: &mut State) -> X<()> {
        let (body, block, ip) = {
            let f = s.frames.last().unwrap();
            (f.body.clone(), f.block, f.ip)
        };
        let inst = &body.blocks[block as usize].insts[ip as usize];
        macro_rules! g {
            ($o:expr) => {
                Self::get(s.frames.last().unwrap(), $o)
            };
        }
        let val: Val = match &inst.k {
            Kind::Bin(op, ty, a, b) => {
                let (x, y) = (g!(a), g!(b));
                if let (Val::A(p), Val::A(q)) = (&x, &y) {
                    let w = ty.elem(0).bits();
                    let mut v = vec![];
                    for i in 0..p.len() {
                        v.push(self.bin(*op, w, &p[i], &q[i])?);
                    }
                    Val::A(Rc::new(v))
                } else {
                    self.bin(*op, ty.bits(), &x, &y)?
                }
            }
            Kind::Icmp(p, ty, a, b) => {
                let (x, y) = (g!(a), g!(b));
                if let (Val::A(xa), Val::A(ya)) = (&x, &y) {
                    let w = ty.elem(0).bits();
                    let v = (0..xa.len()).map(|i| self.icmp(*p, w, &xa[i], &ya[i])).collect();
                    Val::A(Rc::new(v))
                } else {
                    self.icmp(*p, ty.bits(), &x, &y)
                }
            }
            Kind::Cast(c, t1, t2, a) => {
                let x = g!(a);
                if let (Val::A(xa), true) = (&x, *c != Cast::Copy) {
                    let (w1, w2) = (t1.elem(0).bits(), t2.elem(0).bits());
                    let v = (0..xa.len()).map(|i| self.cast(*c, w1, w2, &xa[i])).collect();
                    Val::A(Rc::new(v))
                } else {
                    self.cast(*c, t1.bits(), t2.bits(), &x)
                }
            }
            Kind::BitcastVec(t1, t2, a) => {
                let x = g!(a);
                let flat = match &x {
                    Val::A(v) => self.join_vec(v, t1.elem(0).bits()),
                    v => v.clone(),
                };
                if t2.is_agg() {
                    self.split_vec(&flat, t2.nelems(), t2.elem(0).bits())
                } else {
                    flat
                }
            }
            Kind::Select(ty, vecc, c, a, b) => {
                let cv = g!(c);
                if *vecc {
                    let (x, y) = (g!(a), g!(b));
                    match (&cv, &x, &y) {
                        (Val::A(cs), Val::A(p), Val::A(q)) => {
                            let et = ty.elem(0);
                            let mut v = vec![];
                            for i in 0..cs.len() {
                                let ce = self.e(&cs[i], 1);
                                v.push(self.ite(ce, &et, &p[i], &q[i]));
                            }
                            Val::A(Rc::new(v))
                        }
                        _ => return Err(Stop::Incon("vector select".into())),
                    }
                } else {
                    match cv {
                        Val::C(k) => {
                            if k != 0 {
                                g!(a)
                            } else {
                                g!(b)
                            }
                        }
                        Val::E(e) => {
                            let e = self.simp(s, e);
                            let (x, y) = (g!(a), g!(b));
                            self.ite(e, ty, &x, &y)
                        }
                        _ => return Err(Stop::Incon("select".into())),
                    }
                }
            }
            Kind::Br(l) => return self.jump(s, *l),
            Kind::CondBr(c, a, b) => {
                let t = match g!(c) {
                    Val::C(k) => k != 0,
                    Val::E(e) => self.decide(s, e)?,
                    _ => return Err(Stop::Incon("branch on aggregate".into())),
                };
                return self.jump(s, if t { *a } else { *b });
            }
            Kind::Switch(w, v, d, cases) => {
                let x = g!(v);
                let e = match x {
                    Val::C(c) => {
                        let t = cases.iter().find(|k| k.0 == c).map_or(*d, |k| k.1);
                        return self.jump(s, t);
                    }
                    Val::E(e) => self.simp(s, e),
                    _ => return Err(Stop::Incon("switch on aggregate".into())),
                };
                if let Some(c) = self.ar.konst(e) {
                    let t = cases.iter().find(|k| k.0 == c).map_or(*d, |k| k.1);
                    return self.jump(s, t);
                }
                // group by target
                let mut targets: Vec<u32> = vec![];
                for (_, t) in cases.iter() {
                    if !targets.contains(t) && *t != *d {
                        targets.push(*t);
                    }
                }
                for t in targets {
                    let mut ks: Vec<u128> = cases.iter().filter(|k| k.1 == t).map(|k| k.0).collect();
                    ks.sort();
                    let mut cond = self.ar.fal();
                    let mut i = 0;
                    while i < ks.len() {
                        let mut j = i;
                        while j + 1 < ks.len() && ks[j + 1] == ks[j] + 1 {
                            j += 1;
                        }
                        let lo = self.ar.c(ks[i], *w);
                        let c = if i == j {
                            self.ar.eq(e, lo)
                        } else {
                            let hi = self.ar.c(ks[j], *w);
                            let p = self.ar.ule(lo, e);
                            let q = self.ar.ule(e, hi);
                            self.ar.bin(Op::And, p, q)
                        };
                        cond = self.ar.bin(Op::Or, cond, c);
                        i = j + 1;
                    }
                    if self.decide(s, cond)? {
                        return self.jump(s, t);
                    }
                }
                return self.jump(s, *d);
            }
            Kind::Ret(v) => {
                let r = v.as_ref().map(|o| g!(o));
                let fr = s.frames.pop().unwrap();
                s.stack.truncate(fr.smark);
                match s.frames.last_mut() {
                    None => return Err(Stop::Done),
                    Some(c) => {
                        let c = Rc::make_mut(c);
                        if let (Some(r), true) = (r, fr.dst != NOREG) {
                            c.regs[fr.dst as usize] = r;
                        }
                        return Ok(());
                    }
                }
            }
            Kind::Unreachable => {
                return Err(Stop::Viol("memory".into(), "code marked unreachable was executed (undefined behaviour)".into()));
            }
            Kind::Load(ty, p) => {
                let p = g!(p);
                self.load(s, &p, ty)?
            }
            Kind::Store(ty, v, p) => {
                let (v, p) = (g!(v), g!(p));
                let a = self.conc(s, &p)?;
                self.write(s, a, ty, &v)?;
                return self.advance(s);
            }
            Kind::Alloca(sz, n) => {
                let n = g!(n);
                let n = self.conc(s, &n)?;
                let id = s.stack.len() as u64;
                s.stack.push(Some(Rc::new(Obj::new(sz * n))));
                Val::C((SBASE + (id << OSHIFT)) as u128)
            }
            Kind::Gep(b, off, dynv) => {
                let base = g!(b);
                let mut r = match base {
                    Val::C(c) => Val::C((c as u64).wrapping_add(*off) as u128),
                    b => self.bin(Bop::Add, 64, &b, &Val::C(*off as u128))?,
                };
                for (o, iw, scale) in dynv {
                    let i = g!(o);
                    let i = if *iw < 64 { self.cast(Cast::SExt, *iw, 64, &i) } else { i };
                    let sc = self.bin(Bop::Mul, 64, &i, &Val::C(*scale as u128))?;
                    r = self.bin(Bop::Add, 64, &r, &sc)?;
                }
                r
            }
            Kind::ExtractValue(a, ix) => {
                let mut v = g!(a);
                for i in ix {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Incon("extractvalue of scalar".into())),
                    };
                }
                v
            }
            Kind::InsertValue(ty, a, b, ix) => {
                fn ins(ty: &Ty, v: &Val, ix: &[u32], x: Val) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    let mut e = match v {
                        Val::A(a) => (**a).clone(),
                        _ => match Worker::zero(ty) {
                            Val::A(a) => (*a).clone(),
                            _ => vec![],
                        },
                    };
                    let i = ix[0] as usize;
                    e[i] = ins(&ty.elem(i), &e[i].clone(), &ix[1..], x);
                    Val::A(Rc::new(e))
                }
                let (x, y) = (g!(a), g!(b));
                ins(ty, &x, ix, y)
            }
            Kind::ExtractElement(a, b) => {
                let (x, i) = (g!(a), g!(b));
                let i = self.conc(s, &i)? as usize;
                match &x {
                    Val::A(v) if i < v.len() => v[i].clone(),
                    _ => return Err(Stop::Incon("extractelement".into())),
                }
            }
            Kind::InsertElement(ty, a, b, c) => {
                let (x, y, i) = (g!(a), g!(b), g!(c));
                let i = self.conc(s, &i)? as usize;
                let mut e = match &x {
                    Val::A(a) => (**a).clone(),
                    _ => vec![Val::C(0); ty.nelems()],
                };
                e[i] = y;
                Val::A(Rc::new(e))
            }
            Kind::Shuffle(n, a, b, mk) => {
                let (x, y) = (g!(a), g!(b));
                let at = |v: &Val, i: usize| match v {
                    Val::A(a) => a.get(i).cloned().unwrap_or(Val::C(0)),
                    _ => Val::C(0),
                };
                let v = mk.iter().map(|i| if (*i as u64) < *n { at(&x, *i as usize) } else { at(&y, (*i as u64).wrapping_sub(*n) as usize) }).collect();
                Val::A(Rc::new(v))
            }
            Kind::AtomicRmw(op, w, p, v) => {
                let (p, v) = (g!(p), g!(v));
                let a = self.conc(s, &p)?;
                let old = self.read(s, a, &Ty::Int(*w))?;
                let new = match op {
                    0 => v,
                    1 => self.bin(Bop::Add, *w, &old, &v)?,
                    2 => self.bin(Bop::Sub, *w, &old, &v)?,
                    3 => self.bin(Bop::And, *w, &old, &v)?,
                    4 => self.bin(Bop::Or, *w, &old, &v)?,
                    _ => self.bin(Bop::Xor, *w, &old, &v)?,
                };
                self.write(s, a, &Ty::Int(*w), &new)?;
                old
            }
            Kind::CmpXchg(w, p, a, b) => {
                let (p, a, b) = (g!(p), g!(a), g!(b));
                let ad = self.conc(s, &p)?;
                let old = self.read(s, ad, &Ty::Int(*w))?;
                let c = self.icmp(Pred::Eq, *w, &old, &a);
                let hit = match &c {
                    Val::C(k) => *k != 0,
                    Val::E(e) => self.decide(s, *e)?,
                    _ => unreachable!(),
                };
                if hit {
                    self.write(s, ad, &Ty::Int(*w), &b)?;
                }
                Val::A(Rc::new(vec![old, Val::C(hit as u128)]))
            }
            Kind::Fence => return self.advance(s),
            Kind::Unsupported(t) => return Err(Stop::Incon(format!("unsupported instruction: {}", t))),
            Kind::Call(callee, rt, args) => {
                let f = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let p = g!(o);
                        let a = self.conc(s, &p)?;
                        let i = a.wrapping_sub(FBASE) / 16;
                        if a < FBASE || a % 16 != 0 || i as usize >= self.m.funcs.len() {
                            return Err(Stop::Viol("memory".into(), format!("call of a non-function address {:#x}", a)));
                        }
                        i as u32
                    }
                };
                let av: Vec<Val> = args.iter().map(|(_, o)| g!(o)).collect();
                match self.hs[f as usize] {
                    H::Ir => {
                        let body = self.m.body(f).map_err(Stop::Incon)?;
                        if s.frames.len() > 20000 {
                            return Err(Stop::Viol("stack".into(), "call depth above 20000 frames".into()));
                        }
                        let mut regs = vec![Val::C(0); body.nregs];
                        if av.len() < body.nparams {
                            return Err(Stop::Incon("argument count mismatch".into()));
                        }
                        for (i, v) in av.into_iter().take(body.nparams).enumerate() {
                            regs[i] = v;
                        }
                        {
                            let fr = Rc::make_mut(s.frames.last_mut().unwrap());
                            fr.ip += 1;
                        }
                        let smark = s.stack.len();
                        s.frames.push(Rc::new(Frame { func: f, body, regs, block: 0, ip: 0, dst: inst.dst, smark }));
                        s.maxdepth = s.maxdepth.max(s.frames.len() as u32);
                        s.peak = s.peak.max(s.frames.len() as u32);
                        self.visited.insert((f, 0));
                        return Ok(());
                    }
                    h => match self.external(s, h, f, rt, args, av)? {
                        Some(v) => v,
                        None => return self.advance(s),
                    },
                }
            }
        };
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        fr.ip += 1;
        if inst.dst != NOREG {
            fr.regs[inst.dst as usize] = val;
        }
        Ok(())
    }
    fn advance(&mut self, s: &mut State) -> X<()> {
        Rc::make_mut(s.frames.last_mut().unwrap()).ip += 1;
        Ok(())
    }

    /// text of a panic: the name of the panic function and a constant message when there is one
    fn panic_text(&mut self, s: &State, f: u32, av: &[Val]) -> String {
        let n = &self.m.funcs[f as usize].name;
        // last path component of the mangled name
        let mut t = String::new();
        let b = n.as_bytes();
        let mut i = 0;
        let mut last = String::new();
        while i < b.len() {
            if b[i].is_ascii_digit() && i > 0 {
                let st = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                if let Ok(k) = n[st..i].parse::<usize>() {
                    let k2 = if b.get(i) == Some(&b'_') { i + 1 } else { i };
                    if k > 2 && k2 + k <= n.len() {
                        last = n[k2..k2 + k].to_string();
                        i = k2 + k;
                        continue;
                    }
                }
            } else {
                i += 1;
            }
        }
        t.push_str(&last);
        if last == "panic" || last.starts_with("expect") {
            if let (Some(Val::C(p)), Some(Val::C(n))) = (av.first(), av.get(1)) {
                if *n < 200 {
                    t.push_str(": ");
                    t.push_str(&self.str_at(s, *p as u64, *n as u64));
                }
            }
        }
        // Location argument
        for v in av.iter().rev() {
            if let Val::C(p) = v {
                let p = *p as u64;
                if let Some(i) = self.gindex(p) {
                    let g = &self.m.globals[i];
                    if g.addr == p && g.size == 24 {
                        if let (Ok(Val::C(fp)), Ok(Val::C(fl)), Ok(Val::C(line))) =
                            (self.read(s, p, &Ty::Int(64)), self.read(s, p + 8, &Ty::Int(64)), self.read(s, p + 16, &Ty::Int(32)))
                        {
                            if fl < 400 {
                                let f = self.str_at(s, fp as u64, fl as u64);
                                t.push_str(&format!(" at {}:{}", f.trim_end_matches('\0'), line));
                            }
                        }
                        break;
                    }
                }
            }
        }
        t
    }

    fn external(&mut self, s: &mut State, h: H, f: u32, rt: &Ty, args: &[(Ty, Opnd)], av: Vec<Val>) -> X<Option<Val>> {
        let w0 = args.first().map_or(0, |a| a.0.bits());
        Ok(match h {
            H::Ir => unreachable!(),
            H::Panic => {
                let t = self.panic_text(s, f, &av);
                return Err(Stop::Viol("panic".into(), t));
            }
            H::Abort => return Err(Stop::Viol("panic".into(), "abort".into())),
            H::Nop => None,
            H::Zero => Some(Val::C(0)),
            H::Random => {
                let (p, n) = (self.conc(s, &av[0])?, self.conc(s, &av[1])?);
                if n > 0 {
                    self.with_mut(s, p, n, |o, off| {
                        for x in &mut o.data[off as usize..(off + n) as usize] {
                            *x = 7;
                        }
                        o.clear_sym(off, n);
                    })?;
                }
                Some(Val::C(n as u128))
            }
            H::Malloc => {
                let n = self.alloc_size(s, &av[0])?;
                Some(Val::C(self.alloc(s, n)? as u128))
            }
            H::Calloc => {
                let n = self.alloc_size(s, &av[0])?;
                let m = self.alloc_size(s, &av[1])?;
                Some(Val::C(self.alloc(s, n.saturating_mul(m))? as u128))
            }
            H::Realloc => {
                let p = self.conc(s, &av[0])?;
                let n = self.alloc_size(s, &av[1])?;
                let q = self.alloc(s, n)?;
                if p != 0 {
                    let (o, _) = self.object(s, p, 0, "realloc")?;
                    let k = o.size().min(n);
                    drop(o);
                    self.copy(s, q, p, k)?;
                    self.free(s, p)?;
                }
                Some(Val::C(q as u128))
            }
            H::Free => {
                let p = self.conc(s, &av[0])?;
                self.free(s, p)?;
                None
            }
            H::Memalign => {
                let pp = self.conc(s, &av[0])?;
                let n = self.alloc_size(s, &av[2])?;
                let q = self.alloc(s, n)?;
                self.write(s, pp, &Ty::Int(64), &Val::C(q as u128))?;
                Some(Val::C(0))
            }
            H::Bcmp | H::Memcmp => {
                let n = self.conc(s, &av[2])?;
                s.steps += n;
                let p = self.conc(s, &av[0])?;
                let q = self.conc(s, &av[1])?;
                let a = self.bytes_at(s, p, n)?;
                let b = self.bytes_at(s, q, n)?;
                if h == H::Bcmp {
                    let mut t = self.ar.tru();
                    for i in 0..a.len() {
                        let e = self.ar.eq(a[i], b[i]);
                        t = self.ar.bin(Op::And, t, e);
                    }
                    let ne = self.ar.not1(t);
                    let r = self.ar.zext(ne, 32);
                    Some(self.v(r))
                } else {
                    let mut r = self.ar.c(0, 32);
                    let neg = self.ar.c(mask(32), 32);
                    let one = self.ar.c(1, 32);
                    for i in (0..a.len()).rev() {
                        let e = self.ar.eq(a[i], b[i]);
                        let l = self.ar.ult(a[i], b[i]);
                        let d = self.ar.ite(l, neg, one);
                        r = self.ar.ite(e, r, d);
                    }
                    Some(self.v(r))
                }
            }
            H::Strlen => {
                let p = self.conc(s, &av[0])?;
                let mut n = 0;
                loop {
                    let b = self.read(s, p + n, &Ty::Int(8))?;
                    let end = match b {
                        Val::C(c) => c == 0,
                        Val::E(e) => {
                            let z = self.ar.c(0, 8);
                            let z = self.ar.eq(e, z);
                            self.decide(s, z)?
                        }
                        Val::A(_) => unreachable!(),
                    };
                    if end {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n as u128))
            }
            H::RBytes => {
                let p = self.conc(s, &av[0])?;
                let n = self.conc(s, &av[1])?;
                if s.nsyms as u64 + n > MAX_SYMS as u64 {
                    return Err(Stop::Incon("too many symbolic bytes".into()));
                }
                let first = s.nsyms;
                let es: Vec<Eid> = (0..n as u32).map(|i| self.ar.sym(first + i)).collect();
                s.nsyms += n as u32;
                if s.model.len() < s.nsyms as usize {
                    let k = s.nsyms as usize;
                    Rc::make_mut(&mut s.model).resize(k, 0);
                }
                if let Some(c) = &self.lim.concrete {
                    let bytes: Vec<u8> = (0..n as usize).map(|i| c.get(first as usize + i).copied().unwrap_or(0)).collect();
                    if n > 0 {
                        self.with_mut(s, p, n, |o, off| {
                            o.data[off as usize..(off + n) as usize].copy_from_slice(&bytes);
                            o.clear_sym(off, n);
                        })?;
                    }
                    return Ok(None);
                }
                if n > 0 {
                    self.with_mut(s, p, n, |o, off| {
                        for (i, e) in es.iter().enumerate() {
                            o.set_sym(off + i as u64, *e);
                        }
                    })?;
                }
                None
            }
            H::RAssume => {
                let e = self.e(&av[0], w0);
                let z = self.ar.c(0, w0);
                let q = self.ar.eq(e, z);
                let c = self.ar.not1(q);
                self.assume(s, c)?;
                None
            }
            H::RCheck => {
                let e = self.e(&av[0], w0);
                let z = self.ar.c(0, w0);
                let q = self.ar.eq(e, z);
                let c = self.ar.not1(q);
                let c = self.simp(s, c);
                s.checks += 1;
                self.st.checks += 1;
                match self.ar.konst(c) {
                    Some(0) => {
                        let (p, n) = (self.conc(s, &av[1])?, self.conc(s, &av[2])?);
                        let m = self.str_at(s, p, n);
                        return Err(Stop::Viol("check".into(), m));
                    }
                    Some(_) => {}
                    None => {
                        if s.prefix.is_none() {
                            self.st.checks_solver += 1;
                            let neg = self.ar.not1(c);
                            let viol = if self.ar.eval(c, &s.model) == 0 {
                                Some(s.model.clone())
                            } else {
                                match self.feasible(s, neg) {
                                    (Res::Sat, md) => Some(md),
                                    (Res::Unsat, _) => None,
                                    (Res::Unknown, _) => {
                                        if std::env::var("RSYM_DBG").is_ok() {
                                            eprintln!("UNKNOWN {} {}", self.location(s), self.ar.show(c, 12));
                                        }
                                        return Err(Stop::Incon("solver gave no answer on an assertion".into()));
                                    }
                                }
                            };
                            if let Some(md) = viol {
                                let (p, n) = (self.conc(s, &av[1])?, self.conc(s, &av[2])?);
                                let m = self.str_at(s, p, n);
                                s.model = md;
                                return Err(Stop::Viol("check".into(), m));
                            }
                        }
                        self.learn(s, c, true);
                    }
                }
                None
            }
            H::RFail => {
                let (p, n) = (self.conc(s, &av[0])?, self.conc(s, &av[1])?);
                let m = self.str_at(s, p, n);
                return Err(Stop::Viol("check".into(), m));
            }
            H::RObserve => {
                let e = self.e(&av[0], 64);
                let e = self.simp(s, e);
                Rc::make_mut(&mut s.obs).push((64, e));
                None
            }
            H::RObserveBytes => {
                let p = self.conc(s, &av[0])?;
                let n = self.conc(s, &av[1])?;
                let b = self.bytes_at(s, p, n)?;
                let nn = self.ar.c(n as u128, 64);
                let o = Rc::make_mut(&mut s.obs);
                o.push((64, nn));
                for e in b {
                    o.push((8, e));
                }
                None
            }
            H::RCover => {
                let (p, n) = (self.conc(s, &av[0])?, self.conc(s, &av[1])?);
                let m = self.str_at(s, p, n);
                if s.prefix.is_none() {
                    *self.st.covers.entry(m).or_insert(0) += 1;
                }
                None
            }
            H::RConcretize => {
                let v = self.conc(s, &av[0])?;
                Some(Val::C(v as u128))
            }
            H::RTier => Some(Val::C(self.lim.tier as u128)),
            H::RArg => Some(Val::C(self.job_arg as u128)),
            H::REnd => return Err(Stop::Done),
            H::RDepth => Some(Val::C(s.frames.len() as u128)),
            H::RPeak => {
                let p = s.peak;
                s.peak = s.frames.len() as u32;
                Some(Val::C(p as u128))
            }
            H::RSteps => Some(Val::C(s.steps as u128)),
            H::RHeap => Some(Val::C(s.live as u128)),
            H::RHeapLimit => {
                let n = self.conc(s, &av[0])?;
                s.climit = if n == 0 { 0 } else { s.live + n };
                None
            }
            H::Unknown => return Err(Stop::Incon(format!("call of external function {}", self.m.funcs[f as usize].name))),
            H::Intr(i) => self.intrinsic(s, i, rt, args, av)?,
        })
    }

    fn intrinsic(&mut self, s: &mut State, i: I, rt: &Ty, args: &[(Ty, Opnd)], av: Vec<Val>) -> X<Option<Val>> {
        // element-wise on vectors
        if rt.is_agg() && !matches!(rt, Ty::Struct(..)) {
            let et = rt.elem(0);
            let mut out = vec![];
            for k in 0..rt.nelems() {
                let a2: Vec<Val> = av
                    .iter()
                    .map(|v| match v {
                        Val::A(x) => x[k].clone(),
                        v => v.clone(),
                    })
                    .collect();
                let args2: Vec<(Ty, Opnd)> = args.iter().map(|(t, _)| (if let Ty::Vec(..) = t { t.elem(0) } else { t.clone() }, Opnd::None)).collect();
                out.push(self.intrinsic(s, i, &et, &args2, a2)?.unwrap_or(Val::C(0)));
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        let w = args.first().map_or(0, |a| a.0.bits());
        let sel = |me: &mut Self, p: Pred, a: &Val, b: &Val| -> Val {
            let c = me.icmp(p, w, a, b);
            let ce = me.e(&c, 1);
            me.ite(ce, &Ty::Int(w), a, b)
        };
        Ok(match i {
            I::Nop => None,
            I::Zero => Some(Val::C(0)),
            I::Arg0 => Some(av[0].clone()),
            I::Trap => return Err(Stop::Viol("panic".into(), "trap".into())),
            I::Memcpy => {
                let n = self.conc(s, &av[2])?;
                s.steps += n;
                if n > 0 {
                    let d = self.conc(s, &av[0])?;
                    let p = self.conc(s, &av[1])?;
                    self.copy(s, d, p, n)?;
                }
                None
            }
            I::Memset => {
                let n = self.conc(s, &av[2])?;
                s.steps += n;
                if n > 0 {
                    let d = self.conc(s, &av[0])?;
                    let b = av[1].clone();
                    match b {
                        Val::C(c) => self.with_mut(s, d, n, |o, off| {
                            for x in &mut o.data[off as usize..(off + n) as usize] {
                                *x = c as u8;
                            }
                            o.clear_sym(off, n);
                        })?,
                        Val::E(e) => self.with_mut(s, d, n, |o, off| {
                            for k in 0..n {
                                o.set_sym(off + k, e);
                            }
                        })?,
                        _ => return Err(Stop::Incon("memset".into())),
                    }
                }
                None
            }
            I::Umin => Some(sel(self, Pred::Ult, &av[0], &av[1])),
            I::Umax => Some(sel(self, Pred::Ugt, &av[0], &av[1])),
            I::Smin => Some(sel(self, Pred::Slt, &av[0], &av[1])),
            I::Smax => Some(sel(self, Pred::Sgt, &av[0], &av[1])),
            I::Abs => {
                let n = self.bin(Bop::Sub, w, &Val::C(0), &av[0])?;
                let c = self.icmp(Pred::Slt, w, &av[0], &Val::C(0));
                let ce = self.e(&c, 1);
                Some(self.ite(ce, &Ty::Int(w), &n, &av[0]))
            }
            I::Ctpop => {
                if let Val::C(c) = av[0] {
                    return Ok(Some(Val::C(c.count_ones() as u128)));
                }
                let e = self.e(&av[0], w);
                let mut r = self.ar.c(0, w);
                for k in 0..w {
                    let b = self.ar.extract(e, k, 1);
                    let b = self.ar.zext(b, w);
                    r = self.ar.bin(Op::Add, r, b);
                }
                Some(self.v(r))
            }
            I::Ctlz | I::Cttz => {
                if let Val::C(c) = av[0] {
                    let r = if c == 0 {
                        w
                    } else if i == I::Cttz {
                        c.trailing_zeros()
                    } else {
                        c.leading_zeros() - (128 - w)
                    };
                    return Ok(Some(Val::C(r as u128)));
                }
                let e = self.e(&av[0], w);
                let mut r = self.ar.c(w as u128, w);
                for k in 0..w {
                    // the last written wins: iterate from the least significant position considered
                    let bit = if i == I::Cttz { w - 1 - k } else { k };
                    let n = if i == I::Cttz { bit } else { w - 1 - bit };
                    let b = self.ar.extract(e, bit, 1);
                    let kk = self.ar.c(n as u128, w);
                    r = self.ar.ite(b, kk, r);
                }
                Some(self.v(r))
            }
            I::Bswap => {
                let e = self.e(&av[0], w);
                let mut r = self.ar.extract(e, 0, 8);
                for k in 1..w / 8 {
                    let b = self.ar.extract(e, 8 * k, 8);
                    r = self.ar.concat(r, b);
                }
                Some(self.v(r))
            }
            I::Bitrev => {
                let e = self.e(&av[0], w);
                let mut r = self.ar.extract(e, 0, 1);
                for k in 1..w {
                    let b = self.ar.extract(e, k, 1);
                    r = self.ar.concat(r, b);
                }
                Some(self.v(r))
            }
            I::Fshl | I::Fshr => {
                let sh = self.conc(s, &av[2])? as u32 % w;
                if let (Val::C(a), Val::C(b)) = (&av[0], &av[1]) {
                    let m = mask(w);
                    let r = if sh == 0 {
                        if i == I::Fshl {
                            *a
                        } else {
                            *b
                        }
                    } else if i == I::Fshl {
                        (a << sh | b >> (w - sh)) & m
                    } else {
                        (a << (w - sh) | b >> sh) & m
                    };
                    return Ok(Some(Val::C(r)));
                }
                let (a, b) = (self.e(&av[0], w), self.e(&av[1], w));
                let l = if i == I::Fshl { sh } else { (w - sh) % w };
                if sh == 0 {
                    return Ok(Some(if i == I::Fshl { av[0].clone() } else { av[1].clone() }));
                }
                let x = self.ar.extract(a, 0, w - l);
                let y = self.ar.extract(b, w - l, l);
                let r = self.ar.concat(x, y);
                Some(self.v(r))
            }
            I::UaddO | I::UsubO | I::UmulO | I::SaddO | I::SsubO | I::SmulO => {
                let op = match i {
                    I::UaddO | I::SaddO => Bop::Add,
                    I::UsubO | I::SsubO => Bop::Sub,
                    _ => Bop::Mul,
                };
                let r = self.bin(op, w, &av[0], &av[1])?;
                let o = match i {
                    I::UaddO => self.icmp(Pred::Ult, w, &r, &av[0]),
                    I::UsubO => self.icmp(Pred::Ult, w, &av[0], &av[1]),
                    _ => {
                        let ww = w * 2;
                        if ww > 128 {
                            return Err(Stop::Incon("wide overflow".into()));
                        }
                        let k = if i == I::UmulO { Cast::ZExt } else { Cast::SExt };
                        let a = self.cast(k, w, ww, &av[0]);
                        let b = self.cast(k, w, ww, &av[1]);
                        let x = self.bin(op, ww, &a, &b)?;
                        let y = self.cast(k, w, ww, &r);
                        self.icmp(Pred::Ne, ww, &x, &y)
                    }
                };
                Some(Val::A(Rc::new(vec![r, o])))
            }
            I::UaddS | I::UsubS => {
                let op = if i == I::UaddS { Bop::Add } else { Bop::Sub };
                let r = self.bin(op, w, &av[0], &av[1])?;
                let o = if i == I::UaddS { self.icmp(Pred::Ult, w, &r, &av[0]) } else { self.icmp(Pred::Ult, w, &av[0], &av[1]) };
                let oe = self.e(&o, 1);
                let sat = Val::C(if i == I::UaddS { mask(w) } else { 0 });
                Some(self.ite(oe, &Ty::Int(w), &sat, &r))
            }
            I::SaddS | I::SsubS => return Err(Stop::Incon("signed saturating arithmetic".into())),
            I::Ucmp | I::Scmp => {
                let rw = rt.bits();
                let p = if i == I::Ucmp { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w, &av[0], &av[1]);
                let eq = self.icmp(Pred::Eq, w, &av[0], &av[1]);
                let (le, ee) = (self.e(&lt, 1), self.e(&eq, 1));
                let t = self.ite(ee, &Ty::Int(rw), &Val::C(0), &Val::C(1));
                Some(self.ite(le, &Ty::Int(rw), &Val::C(mask(rw)), &t))
            }
            I::LoadRel => {
                let p = self.bin(Bop::Add, 64, &av[0], &av[1])?;
                let off = self.load(s, &p, &Ty::Int(32))?;
                let off = self.cast(Cast::SExt, 32, 64, &off);
                Some(self.bin(Bop::Add, 64, &av[0], &off)?)
            }
            I::VecReduceOr | I::VecReduceAnd | I::VecReduceAdd => {
                let ew = rt.bits();
                let op = match i {
                    I::VecReduceOr => Bop::Or,
                    I::VecReduceAnd => Bop::And,
                    _ => Bop::Add,
                };
                match &av[0] {
                    Val::A(v) => {
                        let mut r = v[0].clone();
                        for x in &v[1..] {
                            r = self.bin(op, ew, &r, x)?;
                        }
                        Some(r)
                    }
                    _ => return Err(Stop::Incon("vector reduce".into())),
                }
            }
        })
    }
}
