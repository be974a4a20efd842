//! The interpreter: executes LLVM IR on concrete and symbolic values, forking at feasible branches.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::shared::*;
use crate::z3::{Answer, Z3};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug)]
pub enum Val {
    /// Concrete, masked to its width (at most 64 bits).
    I(u64),
    /// Concrete, more than 64 bits and not representable in 64.
    W(Rc<u128>),
    S(E),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn from_u128(v: u128) -> Val {
        if v <= u64::MAX as u128 {
            Val::I(v as u64)
        } else {
            Val::W(Rc::new(v))
        }
    }
    pub fn as_u128(&self) -> u128 {
        match self {
            Val::I(v) => *v as u128,
            Val::W(v) => **v,
            _ => panic!("as_u128 of {self:?}"),
        }
    }
    pub fn agg(v: Vec<Val>) -> Val {
        Val::A(Rc::new(v))
    }
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    block: u32,
    ip: u32,
    ret_dst: u32,
    /// invoke: block to continue in
    ret_to: u32,
    regs: Vec<Val>,
    allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct Thread {
    frames: Vec<Rc<Frame>>,
    done: bool,
    /// waits for this thread to end
    joins: Option<usize>,
}

pub struct Group {
    vars: VarSet,
    cs: Vec<E>,
}

#[derive(Clone)]
pub struct State {
    threads: Vec<Thread>,
    cur: usize,
    /// the scheduling decision for the pending operation was taken
    sched_ok: bool,
    sched: Rc<Vec<u8>>,
    pub mem: Mem,
    groups: Vec<Rc<Group>>,
    known: Rc<HashMap<E, u64>>,
    model: Rc<Vec<u64>>,
    /// variables in the order in which the program asked for them
    inputs: Rc<Vec<u32>>,
    /// number of engine-chosen (schedule) variables
    nvars: u32,
    steps: u64,
    depth: u64,
    log: Rc<Vec<u64>>,
}

pub enum Stop {
    Fail(String),
    Err(String),
    Assume,
    Done,
}
type R<T> = Result<T, Stop>;

impl From<MemErr> for Stop {
    fn from(e: MemErr) -> Stop {
        Stop::Fail(format!("memory error: {}", e.0))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    None,
    Nop,
    Zero,
    FirstArg,
    Tls,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    RustAlloc,
    RustAllocZeroed,
    RustDealloc,
    RustRealloc,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Panic,
    Abort,
    Overflow(u8),
    Sat(u8),
    MinMax(u8),
    Abs,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Cmp3(bool),
    IsConstant,
    ObjectSize,
    Reduce(u8),
    PtrMask,
    Movmsk,
    Assume,
    Expect,
    SxVar(u8),
    SxAssume,
    SxFail,
    SxCover,
    SxFork,
    SxLog,
    SxSpawn,
    SxYield,
    SxJoin,
    SxSymbolic,
}

fn builtin(name: &str, defined: bool) -> B {
    if let Some(n) = name.strip_prefix("__sx_") {
        return match n {
            "u8" => B::SxVar(0),
            "u16" => B::SxVar(1),
            "u32" => B::SxVar(2),
            "u64" => B::SxVar(3),
            "assume" => B::SxAssume,
            "fail" => B::SxFail,
            "cover" => B::SxCover,
            "fork" => B::SxFork,
            "log" => B::SxLog,
            "spawn" => B::SxSpawn,
            "yield" => B::SxYield,
            "join" => B::SxJoin,
            "symbolic" => B::SxSymbolic,
            _ => B::None,
        };
    }
    if let Some(n) = name.strip_prefix("llvm.") {
        let s = |p: &str| n.starts_with(p);
        return match () {
            _ if s("memcpy") || s("memmove") => B::Memcpy,
            _ if s("memset") => B::Memset,
            _ if s("lifetime") || s("dbg") || s("experimental.noalias") || s("prefetch") || s("invariant") || s("donothing") || s("var.annotation") || s("x86.sse2.pause") || s("fake.use") => B::Nop,
            _ if s("assume") => B::Nop,
            _ if s("threadlocal.address") => B::Tls,
            _ if s("expect") || s("launder") || s("strip") || s("annotation") || s("ptr.annotation") || s("ssa.copy") => B::FirstArg,
            _ if s("uadd.with") => B::Overflow(0),
            _ if s("sadd.with") => B::Overflow(1),
            _ if s("usub.with") => B::Overflow(2),
            _ if s("ssub.with") => B::Overflow(3),
            _ if s("umul.with") => B::Overflow(4),
            _ if s("smul.with") => B::Overflow(5),
            _ if s("uadd.sat") => B::Sat(0),
            _ if s("sadd.sat") => B::Sat(1),
            _ if s("usub.sat") => B::Sat(2),
            _ if s("ssub.sat") => B::Sat(3),
            _ if s("umin") => B::MinMax(0),
            _ if s("umax") => B::MinMax(1),
            _ if s("smin") => B::MinMax(2),
            _ if s("smax") => B::MinMax(3),
            _ if s("abs") => B::Abs,
            _ if s("ctpop") => B::Ctpop,
            _ if s("ctlz") => B::Ctlz,
            _ if s("cttz") => B::Cttz,
            _ if s("bswap") => B::Bswap,
            _ if s("bitreverse") => B::Bitreverse,
            _ if s("fshl") => B::Fshl,
            _ if s("fshr") => B::Fshr,
            _ if s("ucmp") => B::Cmp3(false),
            _ if s("scmp") => B::Cmp3(true),
            _ if s("is.constant") => B::IsConstant,
            _ if s("objectsize") => B::ObjectSize,
            _ if s("vector.reduce.or") => B::Reduce(0),
            _ if s("vector.reduce.and") => B::Reduce(1),
            _ if s("vector.reduce.add") => B::Reduce(2),
            _ if s("vector.reduce.xor") => B::Reduce(3),
            _ if s("vector.reduce.umax") => B::Reduce(4),
            _ if s("vector.reduce.umin") => B::Reduce(5),
            _ if s("ptrmask") => B::PtrMask,
            _ if s("x86.sse2.pmovmskb") => B::Movmsk,
            _ if s("trap") || s("ubsantrap") || s("debugtrap") => B::Abort,
            _ => B::None,
        };
    }
    match name {
        "memcpy" | "memmove" => return B::Memcpy,
        "memset" => return B::Memset,
        "memcmp" => return B::Memcmp,
        "bcmp" => return B::Bcmp,
        "strlen" => return B::Strlen,
        "malloc" => return B::Malloc,
        "calloc" => return B::Calloc,
        "realloc" => return B::Realloc,
        "free" => return B::Free,
        "posix_memalign" => return B::PosixMemalign,
        "aligned_alloc" | "memalign" => return B::AlignedAlloc,
        "abort" | "_exit" | "exit" => return B::Abort,
        "sched_yield" => return B::SxYield,
        "getenv" => return B::Zero,
        _ => {}
    }
    let has = |s: &str| name.contains(s);
    if has("__rust_no_alloc_shim") || has("__rust_alloc_error_handler_should_panic") {
        return B::Zero;
    }
    if has("__rust_alloc_zeroed") {
        return B::RustAllocZeroed;
    }
    if has("__rust_alloc_error_handler") {
        return B::Panic;
    }
    if has("__rust_alloc") {
        return B::RustAlloc;
    }
    if has("__rust_dealloc") {
        return B::RustDealloc;
    }
    if has("__rust_realloc") {
        return B::RustRealloc;
    }
    if has("4core9panicking")
        || has("core::panicking")
        || has("rust_begin_unwind")
        || has("rust_panic")
        || has("begin_panic")
        || has("panic_fmt")
        || has("handle_alloc_error")
        || has("capacity_overflow")
        || (has("unwrap_failed") && has("core"))
        || (has("expect_failed") && has("core"))
        || (has("5slice5index") && has("_fail"))
        || (has("3str16slice_error_fail"))
        || (has("alloc7raw_vec12handle_error"))
        || (has("panic_already_borrowed") || has("panic_already_mutably_borrowed"))
        || (has("panic_access_error"))
        || (has("copy_from_slice") && has("len_mismatch"))
    {
        return B::Panic;
    }
    if has("3std7process5abort") || has("abort_internal") {
        return B::Abort;
    }
    let _ = defined;
    B::None
}

pub struct Failure {
    pub msg: String,
    pub at: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u8, u64)>,
    pub sched: Vec<u8>,
}

pub struct Opts {
    pub fuel: u64,
    pub rlimit: u32,
    pub known: Vec<String>,
    pub concrete: Option<Vec<u64>>,
    /// With `concrete`: the scheduling decisions to repeat.
    pub sched: Vec<u8>,
    pub stop_on_fail: bool,
    pub dump_every: u64,
    pub dump_dir: String,
    pub max_depth: usize,
}

pub struct Exec {
    pub m: &'static Module,
    pub ar: Arena,
    pub z3: Z3,
    pub sh: &'static Shared,
    pub cov: Rc<Cov>,
    pub opts: Opts,
    pub bi: Vec<B>,
    pub stack: Vec<State>,
    pub fails: Vec<Failure>,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<Vec<(u8, u64)>>,
    cache: HashMap<Box<[E]>, Option<Rc<Vec<(u32, u64)>>>>,
    recent: VecDeque<Rc<Vec<(u32, u64)>>>,
    pub last_log: Vec<u64>,
    nquery: u64,
}

fn width_of_class(c: u32) -> u16 {
    8 << c
}

impl Exec {
    pub fn new(m: &'static Module, sh: &'static Shared, cov: Rc<Cov>, opts: Opts) -> Self {
        let bi = m.funcs.iter().map(|f| builtin(&f.name, f.defined)).collect();
        Exec {
            m,
            ar: Arena::new(),
            z3: Z3::new(opts.rlimit),
            sh,
            cov,
            opts,
            bi,
            stack: vec![],
            fails: vec![],
            errors: BTreeMap::new(),
            samples: vec![],
            cache: HashMap::new(),
            recent: VecDeque::new(),
            last_log: vec![],
            nquery: 0,
        }
    }

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let f = *self.m.fmap.get(entry).ok_or(format!("no function {entry}"))?;
        let fr = self.frame(f, u32::MAX, u32::MAX);
        let st = State {
            threads: vec![Thread { frames: vec![Rc::new(fr)], done: false, joins: None }],
            cur: 0,
            sched_ok: false,
            sched: Default::default(),
            mem: Mem::new(self.m),
            groups: vec![],
            known: Default::default(),
            model: Default::default(),
            inputs: Default::default(),
            nvars: 0,
            steps: 0,
            depth: 0,
            log: Default::default(),
        };
        self.stack.push(st);
        Ok(())
    }

    fn frame(&self, f: u32, ret_dst: u32, ret_to: u32) -> Frame {
        let fu = &self.m.funcs[f as usize];
        Frame { f, block: 0, ip: 0, ret_dst, ret_to, regs: vec![Val::I(0); fu.nregs as usize], allocas: vec![] }
    }

    fn inputs_of(&self, st: &State) -> Vec<(u8, u64)> {
        st.inputs
            .iter()
            .map(|&v| {
                let w = width_of_class(v & 3);
                let x = st.model.get(v as usize).copied().unwrap_or(0);
                ((w / 8) as u8, x & mask(w) as u64)
            })
            .collect()
    }

    fn location(&self, st: &State) -> (String, Vec<String>) {
        let th = &st.threads[st.cur];
        let mut out = vec![];
        for (k, fr) in th.frames.iter().rev().enumerate() {
            let f = &self.m.funcs[fr.f as usize];
            let b = &f.blocks[fr.block as usize];
            let ip = if k == 0 { fr.ip as usize } else { (fr.ip as usize).saturating_sub(1) };
            let dbg = b.ins.get(ip.min(b.ins.len().saturating_sub(1))).map_or(0, |i| i.dbg);
            let chain = self.m.locate(dbg);
            if chain.is_empty() {
                out.push(f.name.clone());
            }
            for (n, file, line) in chain {
                out.push(format!("{n} ({file}:{line})"));
            }
            if out.len() > 40 {
                break;
            }
        }
        let at = out.iter().find(|l| l.contains("(/repo/")).or(out.first()).cloned().unwrap_or_default();
        (at, out)
    }

    /// Explore until no state is left (or stop was requested).
    pub fn run_one(&mut self) {
        let Some(mut st) = self.stack.pop() else { return };
        self.sh.paths.fetch_add(1, Relaxed);
        let s0 = st.steps;
        let end = loop {
            match self.step(&mut st) {
                Ok(()) => {
                    st.steps += 1;
                    if st.steps & 0xfff == 0 {
                        if st.steps > self.opts.fuel {
                            break Stop::Fail("nontermination: step budget of one path exceeded".into());
                        }
                        if self.sh.stop.load(Relaxed) != 0 {
                            return;
                        }
                    }
                }
                Err(e) => break e,
            }
        };
        self.sh.steps.fetch_add(st.steps - s0, Relaxed);
        self.sh.max_inputs.fetch_max(st.inputs.len() as u64, Relaxed);
        self.sh.max_depth.fetch_max(st.depth, Relaxed);
        match end {
            Stop::Done => {
                let n = self.sh.completed.fetch_add(1, Relaxed);
                if n.is_power_of_two() || n == 0 || n % 5003 == 0 {
                    if self.samples.len() < 64 {
                        self.samples.push(self.inputs_of(&st));
                    }
                }
                self.last_log = (*st.log).clone();
            }
            Stop::Assume => {
                self.sh.killed_assume.fetch_add(1, Relaxed);
            }
            Stop::Fail(msg) => {
                let (at, stack) = self.location(&st);
                self.last_log = (*st.log).clone();
                let known = self.opts.known.iter().any(|k| msg.contains(k.as_str()));
                let dup = self.fails.iter().filter(|f| f.msg == msg).count();
                if dup < 3 {
                    self.fails.push(Failure { msg, at, stack, inputs: self.inputs_of(&st), sched: (*st.sched).clone() });
                }
                let n = self.sh.failures.fetch_add(1, Relaxed);
                if self.opts.stop_on_fail && !known && n >= 4 {
                    self.sh.stop.store(1, Relaxed);
                }
                if self.opts.stop_on_fail && !known {
                    // allow the other workers a moment, then stop
                    self.sh.stop.fetch_max(1, Relaxed);
                }
            }
            Stop::Err(e) => {
                let (at, stack) = self.location(&st);
                self.sh.inconclusive.fetch_add(1, Relaxed);
                *self.errors.entry(format!("{e} at {at} [{}]", stack.iter().take(6).cloned().collect::<Vec<_>>().join(" < "))).or_insert(0) += 1;
            }
        }
    }

    // ---------------------------------------------------------------------------------- solving

    fn slice(&mut self, st: &State, e: E) -> Vec<E> {
        let vs = self.ar.vars(e);
        let mut cs = vec![];
        for g in &st.groups {
            if g.vars.intersects(&vs) {
                cs.extend_from_slice(&g.cs);
            }
        }
        cs
    }

    /// Is `e` satisfiable together with the path condition? Returns the changed model values.
    fn query(&mut self, st: &State, e: E) -> R<Option<Rc<Vec<(u32, u64)>>>> {
        match self.ar.is_const(e) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(Rc::new(vec![]))),
            None => {}
        }
        if let Some(&k) = st.known.get(&e) {
            return Ok(if k == 0 { None } else { Some(Rc::new(vec![])) });
        }
        let mut cs = self.slice(st, e);
        cs.push(e);
        cs.sort_unstable();
        cs.dedup();
        let key: Box<[E]> = cs.clone().into_boxed_slice();
        if let Some(r) = self.cache.get(&key) {
            self.sh.cache_hits.fetch_add(1, Relaxed);
            return Ok(r.clone());
        }
        let mut vs = VarSet::default();
        for &c in &cs {
            let v = self.ar.vars(c);
            vs.union(&v);
        }
        let vars: Vec<u32> = vs.iter().collect();
        // models seen before
        let mut hit = None;
        for m in self.recent.iter() {
            let mut mv: Vec<u64> = (*st.model).clone();
            for &(v, x) in m.iter() {
                if mv.len() <= v as usize {
                    mv.resize(v as usize + 1, 0);
                }
                mv[v as usize] = x;
            }
            let memo = &mut HashMap::new();
            if self.ar.eval_memo(e, &mv, memo) == 1 && cs.iter().all(|&c| self.ar.eval_memo(c, &mv, memo) == 1) {
                hit = Some(Rc::new(vars.iter().map(|&v| (v, mv.get(v as usize).copied().unwrap_or(0))).collect::<Vec<_>>()));
                break;
            }
        }
        if let Some(h) = hit {
            self.sh.cache_hits.fetch_add(1, Relaxed);
            self.cache.insert(key, Some(h.clone()));
            return Ok(Some(h));
        }
        let t = std::time::Instant::now();
        let a = self.z3.check(&self.ar, &cs, &vars);
        self.sh.queries.fetch_add(1, Relaxed);
        self.nquery += 1;
        self.sh.solver_ns.fetch_add(t.elapsed().as_nanos() as u64, Relaxed);
        if self.opts.dump_every > 0 && self.nquery % self.opts.dump_every == 0 {
            let ans = match &a {
                Answer::Sat(_) => "sat",
                Answer::Unsat => "unsat",
                Answer::Unknown => "unknown",
            };
            let text = self.z3.smt2(&self.ar, &cs);
            let p = format!("{}/q{}-{}.{}.smt2", self.opts.dump_dir, std::process::id(), self.nquery, ans);
            let _ = std::fs::write(p, format!("(set-logic QF_BV)\n{text}\n(check-sat)\n"));
        }
        let r = match a {
            Answer::Sat(m) => {
                self.sh.sat.fetch_add(1, Relaxed);
                let m = Rc::new(m);
                self.recent.push_front(m.clone());
                self.recent.truncate(8);
                Some(m)
            }
            Answer::Unsat => {
                self.sh.unsat.fetch_add(1, Relaxed);
                None
            }
            Answer::Unknown => return Err(Stop::Err("solver gave no answer within its resource limit".into())),
        };
        if self.cache.len() > 2_000_000 {
            self.cache.clear();
        }
        self.cache.insert(key, r.clone());
        Ok(r)
    }

    fn apply_model(st: &mut State, m: &[(u32, u64)]) {
        if m.is_empty() {
            return;
        }
        let mv = Rc::make_mut(&mut st.model);
        for &(v, x) in m {
            if mv.len() <= v as usize {
                mv.resize(v as usize + 1, 0);
            }
            mv[v as usize] = x;
        }
    }

    fn add(&mut self, st: &mut State, e: E) {
        if self.ar.is_const(e).is_some() {
            return;
        }
        if st.known.get(&e) == Some(&1) {
            return;
        }
        // conjunctions are split
        let n = self.ar.n(e);
        if n.op == Op::And && n.w == 1 {
            self.add(st, n.a);
            self.add(st, n.b);
            Rc::make_mut(&mut st.known).insert(e, 1);
            return;
        }
        let ne = self.ar.not(e);
        let known = Rc::make_mut(&mut st.known);
        known.insert(e, 1);
        known.insert(ne, 0);
        if n.op == Op::Eq {
            if let Some(c) = self.ar.is_const(n.b) {
                Self::learn(&self.ar, known, n.a, c);
            }
        }
        // !(a | b) = !a & !b
        let inner = self.ar.n(ne);
        if inner.op == Op::Or && inner.w == 1 && n.op == Op::Xor {
            let (a, b) = (self.ar.not(inner.a), self.ar.not(inner.b));
            self.add(st, a);
            self.add(st, b);
            return;
        }
        let vs = self.ar.vars(e);
        let mut vars = (*vs).clone();
        let mut cs = vec![];
        let mut rest = Vec::with_capacity(st.groups.len() + 1);
        for g in st.groups.drain(..) {
            if g.vars.intersects(&vs) {
                vars.union(&g.vars);
                cs.extend_from_slice(&g.cs);
            } else {
                rest.push(g);
            }
        }
        cs.push(e);
        rest.push(Rc::new(Group { vars, cs }));
        st.groups = rest;
    }

    /// `e` equals `c`: so do the parts it is made of.
    fn learn(ar: &Arena, known: &mut HashMap<E, u64>, mut e: E, mut c: u128) {
        loop {
            if ar.is_const(e).is_some() {
                return;
            }
            if c <= u64::MAX as u128 {
                known.insert(e, c as u64);
            }
            let n = ar.n(e);
            match n.op {
                Op::ZExt => {
                    c &= mask(ar.w(n.a));
                    e = n.a;
                }
                Op::Concat => {
                    let lw = ar.w(n.b);
                    Self::learn(ar, known, n.a, c >> lw);
                    c &= mask(lw);
                    e = n.b;
                }
                Op::Add => match ar.is_const(n.b) {
                    Some(k) => {
                        c = c.wrapping_sub(k) & mask(n.w);
                        e = n.a;
                    }
                    None => return,
                },
                Op::Xor => match ar.is_const(n.b) {
                    Some(k) => {
                        c ^= k;
                        e = n.a;
                    }
                    None => return,
                },
                _ => return,
            }
        }
    }

    fn eval(&mut self, st: &State, e: E) -> u128 {
        self.ar.eval(e, &st.model)
    }

    /// Decides a symbolic condition; the other feasible side becomes a new state that re-executes the current instruction.
    fn branch(&mut self, st: &mut State, e: E) -> R<bool> {
        if let Some(c) = self.ar.is_const(e) {
            return Ok(c == 1);
        }
        if let Some(&k) = st.known.get(&e) {
            return Ok(k == 1);
        }
        let v = self.eval(st, e) == 1;
        let ne = self.ar.not(e);
        let (mine, other) = if v { (e, ne) } else { (ne, e) };
        match self.query(st, other)? {
            None => {
                // implied
                let k = Rc::make_mut(&mut st.known);
                k.insert(mine, 1);
                k.insert(other, 0);
            }
            Some(m) => {
                let mut s2 = st.clone();
                s2.depth += 1;
                Self::apply_model(&mut s2, &m);
                self.add(&mut s2, other);
                self.stack.push(s2);
                self.sh.forks.fetch_add(1, Relaxed);
                st.depth += 1;
                self.add(st, mine);
            }
        }
        Ok(v)
    }

    fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(c) = self.ar.is_const(e) {
            return Ok(c as u64);
        }
        if let Some(&k) = st.known.get(&e) {
            return Ok(k);
        }
        let w = self.ar.w(e);
        if w > 64 {
            return Err(Stop::Err("concretisation of a wide value".into()));
        }
        let v = self.eval(st, e) as u64;
        let c = self.ar.cst(w, v as u128);
        let eq = self.ar.bin(Op::Eq, e, c);
        self.branch(st, eq)?;
        Rc::make_mut(&mut st.known).insert(e, v);
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::S(e) => self.concretize(st, *e),
            Val::A(_) => Err(Stop::Err("aggregate where a scalar was expected".into())),
        }
    }

    // ---------------------------------------------------------------------------------- values

    fn from_e(&self, e: E) -> Val {
        match self.ar.is_const(e) {
            Some(c) => Val::from_u128(c),
            None => Val::S(e),
        }
    }
    fn to_e(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::I(x) => self.ar.cst(w, *x as u128),
            Val::W(x) => self.ar.cst(w, **x),
            Val::A(_) => panic!("to_e of aggregate"),
        }
    }

    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val {
        let v = match o {
            Opd::Reg(r) => {
                let th = &st.threads[st.cur];
                &th.frames.last().unwrap().regs[*r as usize]
            }
            Opd::C(v) => v,
        };
        match v {
            Val::S(e) => match st.known.get(e) {
                Some(k) => Val::I(*k),
                None => Val::S(*e),
            },
            v => v.clone(),
        }
    }
    fn set(&self, st: &mut State, r: u32, v: Val) {
        if r != u32::MAX {
            let cur = st.cur;
            let fr = Rc::make_mut(st.threads[cur].frames.last_mut().unwrap());
            fr.regs[r as usize] = v;
        }
    }
    fn advance(&self, st: &mut State) {
        let cur = st.cur;
        Rc::make_mut(st.threads[cur].frames.last_mut().unwrap()).ip += 1;
    }

    fn bin_scalar(&mut self, op: BinOp, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = mask(w) as u64;
                let r = match op {
                    BinOp::Add => x.wrapping_add(y) & m,
                    BinOp::Sub => x.wrapping_sub(y) & m,
                    BinOp::Mul => x.wrapping_mul(y) & m,
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => {
                        return Err(Stop::Fail("division by zero".into()));
                    }
                    BinOp::UDiv => x / y,
                    BinOp::URem => x % y,
                    _ => {
                        return self.bin_slow(op, w, a, b);
                    }
                };
                return Ok(Val::I(r));
            }
        }
        self.bin_slow(op, w, a, b)
    }
    fn bin_slow(&mut self, op: BinOp, w: u16, a: &Val, b: &Val) -> R<Val> {
        if w > 128 {
            return Err(Stop::Err(format!("integer of {w} bits")));
        }
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            _ => return self.float_bin(op, w, a, b),
        };
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let r = self.ar.bin(o, x, y);
        Ok(self.from_e(r))
    }
    fn float_bin(&mut self, op: BinOp, w: u16, a: &Val, b: &Val) -> R<Val> {
        let (Val::I(x), Val::I(y)) = (a, b) else {
            return Err(Stop::Err("symbolic floating point".into()));
        };
        let f = |x: f64, y: f64| match op {
            BinOp::FAdd => x + y,
            BinOp::FSub => x - y,
            BinOp::FMul => x * y,
            BinOp::FDiv => x / y,
            _ => x % y,
        };
        if w == 64 {
            Ok(Val::I(f(f64::from_bits(*x), f64::from_bits(*y)).to_bits()))
        } else {
            let g = |x: f32, y: f32| match op {
                BinOp::FAdd => x + y,
                BinOp::FSub => x - y,
                BinOp::FMul => x * y,
                BinOp::FDiv => x / y,
                _ => x % y,
            };
            Ok(Val::I(g(f32::from_bits(*x as u32), f32::from_bits(*y as u32)).to_bits() as u64))
        }
    }

    fn icmp_scalar(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| sext(v as u128, w) as i64;
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                _ if w <= 64 => match p {
                    Pred::Sgt => s(x) > s(y),
                    Pred::Sge => s(x) >= s(y),
                    Pred::Slt => s(x) < s(y),
                    _ => s(x) <= s(y),
                },
                // both are below 2^64 and hence non-negative
                Pred::Sgt => x > y,
                Pred::Sge => x >= y,
                Pred::Slt => x < y,
                Pred::Sle => x <= y,
            };
            return Val::I(r as u64);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let r = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.bin(Op::Eq, x, y);
                self.ar.not(e)
            }
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
        };
        self.from_e(r)
    }

    fn ite(&mut self, c: E, w: u16, a: &Val, b: &Val) -> Val {
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let r = self.ar.ite(c, x, y);
        self.from_e(r)
    }

    /// Elementwise helper: (count, element type) of a vector type.
    fn vec_ty(&self, t: TyId) -> Option<(u32, TyId)> {
        match self.m.ty(t) {
            Ty::Vector(n, e) => Some((*n, *e)),
            _ => None,
        }
    }
    fn elems(v: &Val, n: u32) -> Vec<Val> {
        match v {
            Val::A(x) => (**x).clone(),
            _ => vec![Val::I(0); n as usize],
        }
    }

    fn bits_join(&mut self, parts: &[(Val, u16)]) -> R<Val> {
        let total: u32 = parts.iter().map(|p| p.1 as u32).sum();
        if total > 128 {
            return Err(Stop::Err(format!("value of {total} bits")));
        }
        if parts.iter().all(|p| !matches!(p.0, Val::S(_))) {
            let mut r = 0u128;
            let mut sh = 0;
            for (v, w) in parts {
                r |= v.as_u128() << sh;
                sh += *w as u32;
            }
            return Ok(Val::from_u128(r));
        }
        let mut e: Option<E> = None;
        for (v, w) in parts {
            let x = self.to_e(v, *w);
            e = Some(match e {
                None => x,
                Some(lo) => self.ar.concat(x, lo),
            });
        }
        Ok(self.from_e(e.unwrap()))
    }
    fn bits_part(&mut self, v: &Val, w: u16, lo: u16, n: u16) -> Val {
        match v {
            Val::I(x) => Val::I(if lo >= 64 { 0 } else { (x >> lo) & mask(n.min(64)) as u64 }),
            Val::W(x) => Val::from_u128((**x >> lo) & mask(n)),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                let r = self.ar.extract(*e, lo, n);
                self.from_e(r)
            }
            Val::A(_) => panic!("bits_part of aggregate"),
        }
    }
    fn bitcast(&mut self, v: Val, from: TyId, to: TyId) -> R<Val> {
        match (self.vec_ty(from), self.vec_ty(to)) {
            (None, None) => Ok(v),
            (f, t) => {
                // to a list of bits pieces: element by element
                let (src, sw): (Vec<Val>, u16) = match f {
                    Some((n, e)) => (Self::elems(&v, n), self.m.scalar_width(e)),
                    None => (vec![v], self.m.scalar_width(from)),
                };
                let (n, dw): (usize, u16) = match t {
                    Some((n, e)) => (n as usize, self.m.scalar_width(e)),
                    None => (1, self.m.scalar_width(to)),
                };
                let mut out = Vec::with_capacity(n);
                if dw >= sw {
                    let k = (dw / sw) as usize;
                    for i in 0..n {
                        let parts: Vec<(Val, u16)> = src[i * k..(i + 1) * k].iter().map(|v| (v.clone(), sw)).collect();
                        out.push(self.bits_join(&parts)?);
                    }
                } else {
                    let k = sw / dw;
                    for s in &src {
                        for j in 0..k {
                            let p = self.bits_part(s, sw, j * dw, dw);
                            out.push(p);
                        }
                    }
                }
                if t.is_some() {
                    Ok(Val::agg(out))
                } else {
                    Ok(out.pop().unwrap())
                }
            }
        }
    }

    // ---------------------------------------------------------------------------------- memory

    fn load_at(&mut self, st: &State, ty: TyId, addr: u64) -> R<Val> {
        match self.m.ty(ty) {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => {
                let w = self.m.scalar_width(ty);
                let n = (w as u64).div_ceil(8);
                let (o, off) = st.mem.get(self.m, addr, n)?;
                let n = n as usize;
                if !o.has_sym(off, n) {
                    if n <= 8 {
                        let mut b = [0u8; 8];
                        let have = o.data.len().saturating_sub(off).min(n);
                        if have > 0 {
                            b[..have].copy_from_slice(&o.data[off..off + have]);
                        }
                        let x = u64::from_le_bytes(b);
                        return Ok(Val::I(if w < 64 { x & ((1 << w) - 1) } else { x }));
                    }
                    if n <= 16 {
                        let mut b = [0u8; 16];
                        let have = o.data.len().saturating_sub(off).min(n);
                        if have > 0 {
                            b[..have].copy_from_slice(&o.data[off..off + have]);
                        }
                        return Ok(Val::from_u128(u128::from_le_bytes(b) & mask(w)));
                    }
                    return Err(Stop::Err(format!("load of {w} bits")));
                }
                if n > 16 {
                    return Err(Stop::Err(format!("load of {w} bits")));
                }
                let bytes: Vec<(u8, u32)> = (0..n).map(|i| o.byte(off + i)).collect();
                let mut e: Option<E> = None;
                for (c, s) in bytes {
                    let x = if s != 0 { s - 1 } else { self.ar.cst(8, c as u128) };
                    e = Some(match e {
                        None => x,
                        Some(lo) => self.ar.concat(x, lo),
                    });
                }
                let mut e = e.unwrap();
                if (w as usize) < n * 8 {
                    e = self.ar.extract(e, 0, w);
                }
                Ok(self.from_e(e))
            }
            Ty::Struct(fs, _) => {
                let l = self.m.lay(ty).offs.clone();
                let fs = fs.clone();
                let mut out = Vec::with_capacity(fs.len());
                for (f, o) in fs.iter().zip(l) {
                    out.push(self.load_at(st, *f, addr + o)?);
                }
                Ok(Val::agg(out))
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => {
                let cnt = match self.m.ty(ty) {
                    Ty::Array(n, _) => *n,
                    Ty::Vector(n, _) => *n as u64,
                    _ => 0,
                };
                if let (Ty::Vector(..), Ty::Int(w)) = (self.m.ty(ty), self.m.ty(*e)) {
                    if w % 8 != 0 {
                        // packed bits
                        let total = cnt as u16 * w;
                        let n = (total as usize).div_ceil(8);
                        let mut parts = vec![];
                        let (o, off) = st.mem.get(self.m, addr, n as u64)?;
                        for i in 0..n {
                            let (c, s) = o.byte(off + i);
                            parts.push((if s != 0 { Val::S(s - 1) } else { Val::I(c as u64) }, 8));
                        }
                        let w = *w;
                        let v = self.bits_join(&parts)?;
                        let mut out = vec![];
                        for i in 0..cnt as u16 {
                            out.push(self.bits_part(&v, n as u16 * 8, i * w, w));
                        }
                        return Ok(Val::agg(out));
                    }
                }
                let sz = self.m.lay(*e).size;
                let mut out = Vec::with_capacity(cnt as usize);
                for i in 0..cnt {
                    out.push(self.load_at(st, *e, addr + i * sz)?);
                }
                Ok(Val::agg(out))
            }
            t => Err(Stop::Err(format!("load of type {t:?}"))),
        }
    }

    fn store_at(&mut self, st: &mut State, ty: TyId, addr: u64, v: &Val) -> R<()> {
        match self.m.ty(ty) {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => {
                let w = self.m.scalar_width(ty);
                let n = (w as usize).div_ceil(8);
                match v {
                    Val::I(x) if n <= 8 => {
                        let (o, off) = st.mem.get_mut(self.m, addr, n as u64)?;
                        o.ensure(off + n);
                        o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                        if let Some(s) = &mut o.sym {
                            s[off..off + n].fill(0);
                        }
                    }
                    Val::I(_) | Val::W(_) => {
                        let b = v.as_u128().to_le_bytes();
                        if n > 16 {
                            return Err(Stop::Err(format!("store of {w} bits")));
                        }
                        let (o, off) = st.mem.get_mut(self.m, addr, n as u64)?;
                        for (i, c) in b[..n].iter().enumerate() {
                            o.set(off + i, *c);
                        }
                    }
                    Val::S(e) => {
                        let mut e = *e;
                        if (w as usize) < n * 8 {
                            e = self.ar.zext(e, (n * 8) as u16);
                        }
                        let parts: Vec<E> = (0..n).map(|i| self.ar.extract(e, i as u16 * 8, 8)).collect();
                        let consts: Vec<Option<u128>> = parts.iter().map(|p| self.ar.is_const(*p)).collect();
                        let (o, off) = st.mem.get_mut(self.m, addr, n as u64)?;
                        for i in 0..n {
                            match consts[i] {
                                Some(c) => o.set(off + i, c as u8),
                                None => o.set_sym(off + i, parts[i]),
                            }
                        }
                    }
                    Val::A(_) => return Err(Stop::Err("store of an aggregate as a scalar".into())),
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                let l = self.m.lay(ty).offs.clone();
                let fs = fs.clone();
                let vs = Self::elems(v, fs.len() as u32);
                for ((f, o), v) in fs.iter().zip(l).zip(vs.iter()) {
                    self.store_at(st, *f, addr + o, v)?;
                }
                Ok(())
            }
            Ty::Array(..) | Ty::Vector(..) => {
                let (cnt, e, vector) = match self.m.ty(ty) {
                    Ty::Array(n, e) => (*n as u32, *e, false),
                    Ty::Vector(n, e) => (*n, *e, true),
                    _ => unreachable!(),
                };
                let vs = Self::elems(v, cnt);
                if vector {
                    if let Ty::Int(w) = self.m.ty(e) {
                        if w % 8 != 0 {
                            let parts: Vec<(Val, u16)> = vs.iter().map(|v| (v.clone(), *w)).collect();
                            let total = cnt as u16 * *w;
                            let mut j = self.bits_join(&parts)?;
                            let n = total.div_ceil(8);
                            if total % 8 != 0 {
                                if let Val::S(x) = j {
                                    let r = self.ar.zext(x, n * 8);
                                    j = self.from_e(r);
                                }
                            }
                            for i in 0..n {
                                let b = self.bits_part(&j, n * 8, i * 8, 8);
                                let (o, off) = st.mem.get_mut(self.m, addr + i as u64, 1)?;
                                match b {
                                    Val::I(x) => o.set(off, x as u8),
                                    Val::S(x) => o.set_sym(off, x),
                                    _ => {}
                                }
                            }
                            return Ok(());
                        }
                    }
                }
                let sz = self.m.lay(e).size;
                for (i, v) in vs.iter().enumerate() {
                    self.store_at(st, e, addr + i as u64 * sz, v)?;
                }
                Ok(())
            }
            t => Err(Stop::Err(format!("store of type {t:?}"))),
        }
    }

    fn tz(&self, e: E) -> u32 {
        let n = self.ar.n(e);
        match n.op {
            Op::Const => {
                let c = self.ar.consts[n.a as usize];
                if c == 0 {
                    n.w as u32
                } else {
                    c.trailing_zeros()
                }
            }
            Op::Shl => match self.ar.is_const(n.b) {
                Some(k) => (k as u32 + self.tz(n.a)).min(n.w as u32),
                None => self.tz(n.a),
            },
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w as u32),
            Op::Add | Op::Or | Op::Sub => self.tz(n.a).min(self.tz(n.b)),
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            Op::ZExt | Op::SExt => self.tz(n.a),
            Op::Concat => {
                let l = self.tz(n.b);
                if l == self.ar.w(n.b) as u32 {
                    l + self.tz(n.a)
                } else {
                    l
                }
            }
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }

    /// Load through a symbolic pointer: an if-then-else over the possible offsets of one constant object.
    fn load_sym(&mut self, st: &mut State, ty: TyId, e: E) -> R<Option<Val>> {
        let w = match self.m.ty(ty) {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => return Ok(None),
        };
        let n = (w as u64).div_ceil(8);
        let here = self.eval(st, e) as u64;
        let idx = here >> OBJ_SHIFT;
        if idx < GLOBAL_BASE {
            return Ok(None);
        }
        let base = idx << OBJ_SHIFT;
        let Some(size) = st.mem.size_of(self.m, base) else { return Ok(None) };
        if size < n || size > 1024 {
            return Ok(None);
        }
        let (lo, hi) = self.ar.rng(e);
        let mut lo = lo as u64;
        let mut hi = hi as u64;
        lo = lo.max(base);
        hi = hi.min(base + size - n);
        let al = 1u64 << self.tz(e).min(12);
        let lo = lo.div_ceil(al) * al;
        if lo > hi || (hi - lo) / al > 512 {
            return Ok(None);
        }
        // in bounds?
        let (cl, ch) = (self.ar.cst(64, lo as u128), self.ar.cst(64, hi as u128));
        let ge = self.ar.bin(Op::Ule, cl, e);
        let le = self.ar.bin(Op::Ule, e, ch);
        let inb = self.ar.bin(Op::And, ge, le);
        if !self.branch(st, inb)? {
            // this model is out of bounds: concretise and let the access fail (or hit another object)
            return Ok(None);
        }
        let mut groups: Vec<(Val, Vec<u64>)> = vec![];
        let mut a = lo;
        while a <= hi {
            let v = self.load_at(st, ty, a)?;
            let same = groups.iter_mut().find(|g| match (&g.0, &v) {
                (Val::I(x), Val::I(y)) => x == y,
                (Val::S(x), Val::S(y)) => x == y,
                _ => false,
            });
            match same {
                Some(g) => g.1.push(a),
                None => groups.push((v, vec![a])),
            }
            a += al;
        }
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        let mut it = groups.into_iter();
        let mut r = it.next().unwrap().0;
        for (v, addrs) in it {
            let mut c: Option<E> = None;
            for a in addrs {
                let k = self.ar.cst(64, a as u128);
                let q = self.ar.bin(Op::Eq, e, k);
                c = Some(match c {
                    None => q,
                    Some(p) => self.ar.bin(Op::Or, p, q),
                });
            }
            r = self.ite(c.unwrap(), w, &v, &r);
        }
        Ok(Some(r))
    }

    fn read_bytes(&self, st: &State, addr: u64, n: u64) -> Option<Vec<u8>> {
        let (o, off) = st.mem.get(self.m, addr, n).ok()?;
        let mut out = vec![];
        for i in 0..n as usize {
            let (c, s) = o.byte(off + i);
            if s != 0 {
                // show the model's value
                let v = self.ar.eval(s - 1, &st.model) as u8;
                out.push(v);
            } else {
                out.push(c);
            }
        }
        Some(out)
    }

    // ---------------------------------------------------------------------------------- control

    fn goto(&mut self, st: &mut State, target: u32) -> R<()> {
        let cur = st.cur;
        let m = self.m;
        let fr = st.threads[cur].frames.last().unwrap();
        let from = fr.block;
        let b = &m.funcs[fr.f as usize].blocks[target as usize];
        self.cov.hit(b.cov);
        let vals: Vec<(u32, Val)> = if b.phis.is_empty() {
            vec![]
        } else {
            let mut v = Vec::with_capacity(b.phis.len());
            for (dst, _, inc) in &b.phis {
                let o = &inc.iter().find(|x| x.0 == from).expect("phi").1;
                v.push((*dst, self.get(st, o)));
            }
            v
        };
        let fr = Rc::make_mut(st.threads[cur].frames.last_mut().unwrap());
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.block = target;
        fr.ip = 0;
        Ok(())
    }

    fn schedule_point(&mut self, st: &mut State) -> R<()> {
        if st.sched_ok || st.threads.len() == 1 {
            return Ok(());
        }
        let runnable: Vec<usize> = (0..st.threads.len()).filter(|i| Self::runnable(st, *i)).collect();
        if runnable.len() <= 1 {
            return Ok(());
        }
        if self.opts.concrete.is_some() {
            let t = match self.opts.sched.get(st.sched.len()) {
                Some(&t) if runnable.contains(&(t as usize)) => t as usize,
                Some(_) => return Err(Stop::Fail("schedule cannot be repeated".into())),
                None => runnable[0],
            };
            st.cur = t;
            st.sched_ok = true;
            Rc::make_mut(&mut st.sched).push(t as u8);
            return Ok(());
        }
        // a fresh variable stands for the scheduler's choice
        let id = st.nvars * 4;
        st.nvars += 1;
        let v = self.ar.var(id, 8);
        let mut chosen = None;
        for (k, &t) in runnable.iter().enumerate() {
            if k + 1 == runnable.len() {
                chosen = Some(t);
                break;
            }
            let c = self.ar.cst(8, t as u128);
            let eq = self.ar.bin(Op::Eq, v, c);
            let ne = self.ar.not(eq);
            // sibling: another thread; this state: thread t
            let Some(m) = self.query(st, eq)? else { continue };
            let mut s2 = st.clone();
            Self::apply_model(&mut s2, &m);
            self.add(&mut s2, eq);
            s2.cur = t;
            s2.sched_ok = true;
            Rc::make_mut(&mut s2.sched).push(t as u8);
            self.sh.forks.fetch_add(1, Relaxed);
            self.stack.push(s2);
            let Some(m) = self.query(st, ne)? else { return Err(Stop::Assume) };
            Self::apply_model(st, &m);
            self.add(st, ne);
        }
        let t = chosen.unwrap();
        st.cur = t;
        st.sched_ok = true;
        Rc::make_mut(&mut st.sched).push(t as u8);
        Ok(())
    }

    fn runnable(st: &State, i: usize) -> bool {
        !st.threads[i].done && st.threads[i].joins.map_or(true, |t| st.threads[t].done)
    }

    fn thread_end(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        st.threads[cur].done = true;
        if cur == 0 {
            return Err(Stop::Done);
        }
        if let Some(t) = (0..st.threads.len()).find(|i| Self::runnable(st, *i)) {
            st.cur = t;
            st.sched_ok = false;
            Ok(())
        } else {
            Err(Stop::Done)
        }
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let cur = st.cur;
        let fr = st.threads[cur].frames.pop().unwrap();
        for a in fr.allocas.iter().rev() {
            st.mem.free(*a, 1)?;
        }
        if st.threads[cur].frames.is_empty() {
            return self.thread_end(st);
        }
        if let Some(v) = v {
            self.set(st, fr.ret_dst, v);
        }
        if fr.ret_to != u32::MAX {
            self.goto(st, fr.ret_to)?;
        }
        Ok(())
    }

    fn call(&mut self, st: &mut State, dst: u32, ret: TyId, f: &Callee, args: &[(TyId, Opd)], to: u32) -> R<()> {
        let fi = match f {
            Callee::Fn(i) => *i,
            Callee::Ptr(o) => {
                let v = self.get(st, o);
                let a = self.conc(st, &v)?;
                if a >> OBJ_SHIFT != FUNC_OBJ || (a & 15) != 0 {
                    return Err(Stop::Fail(format!("memory error: call through an invalid function pointer {a:#x}")));
                }
                let i = (a & ((1 << OBJ_SHIFT) - 1)) / 16;
                if i as usize >= self.m.funcs.len() {
                    return Err(Stop::Fail("memory error: call through an invalid function pointer".into()));
                }
                i as u32
            }
            Callee::Asm(t) => {
                if t.trim().is_empty() {
                    // optimisation barrier; returns its argument if it has one
                    let v = match args.first() {
                        Some((_, o)) if *self.m.ty(ret) != Ty::Void => Some(self.get(st, o)),
                        _ => None,
                    };
                    self.after_call(st, to)?;
                    if let Some(v) = v {
                        self.set(st, dst, v);
                    }
                    return Ok(());
                }
                return Err(Stop::Err(format!("inline assembly {t:?}")));
            }
        };
        let b = self.bi[fi as usize];
        if b != B::None {
            let vals: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
            let tys: Vec<TyId> = args.iter().map(|(t, _)| *t).collect();
            let r = self.run_builtin(st, b, ret, &tys, &vals, fi)?;
            // run_builtin may have switched threads only after finishing this call
            if let Some(v) = r {
                self.set(st, dst, v);
            }
            return self.after_call(st, to);
        }
        let fu = &self.m.funcs[fi as usize];
        if !fu.defined {
            return Err(Stop::Err(format!("call of the external function {}", fu.name)));
        }
        let mut fr = self.frame(fi, dst, to);
        for (i, (_, o)) in args.iter().enumerate() {
            if i < fu.params.len() {
                fr.regs[i] = self.get(st, o);
            }
        }
        self.cov.hit(fu.blocks[0].cov);
        self.advance(st);
        let cur = st.cur;
        let th = &mut st.threads[cur];
        th.frames.push(Rc::new(fr));
        if th.frames.len() > self.opts.max_depth {
            return Err(Stop::Fail("stack overflow: recursion deeper than the limit".into()));
        }
        Ok(())
    }
    fn after_call(&mut self, st: &mut State, to: u32) -> R<()> {
        if to != u32::MAX {
            self.goto(st, to)
        } else {
            self.advance(st);
            Ok(())
        }
    }

    fn panic_message(&self, st: &State, name: &str, vals: &[Val]) -> String {
        let mut text = String::new();
        let mut loc = String::new();
        for (i, v) in vals.iter().enumerate() {
            let Val::I(a) = v else { continue };
            if *a >> OBJ_SHIFT < GLOBAL_BASE {
                continue;
            }
            // message as (ptr, len)
            if i + 1 < vals.len() && text.is_empty() {
                if let Val::I(n) = vals[i + 1] {
                    if n > 0 && n < 200 {
                        if let Some(b) = self.read_bytes(st, *a, n) {
                            if let Ok(s) = String::from_utf8(b) {
                                if s.chars().all(|c| !c.is_control()) {
                                    text = s;
                                }
                            }
                        }
                    }
                }
            }
            // &Location { file: &str, line, col }
            if let Some(b) = self.read_bytes(st, *a, 24) {
                let p = u64::from_le_bytes(b[0..8].try_into().unwrap());
                let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
                let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                if n > 3 && n < 300 && p >> OBJ_SHIFT >= GLOBAL_BASE {
                    if let Some(f) = self.read_bytes(st, p, n) {
                        if let Ok(s) = String::from_utf8(f) {
                            if s.ends_with(".rs") {
                                loc = format!("{s}:{line}");
                            }
                        }
                    }
                }
            }
        }
        let short = ["unwrap_failed", "expect_failed", "panic_bounds_check", "panic_fmt", "slice", "panic_const", "panic", "alloc"]
            .iter()
            .find(|k| name.contains(**k))
            .copied()
            .unwrap_or("panic");
        format!("panic: {short} {text} at {loc}").replace("  ", " ")
    }

    fn run_builtin(&mut self, st: &mut State, b: B, ret: TyId, tys: &[TyId], a: &[Val], fi: u32) -> R<Option<Val>> {
        let m = self.m;
        Ok(match b {
            B::None => unreachable!(),
            B::Nop | B::Assume => None,
            B::Zero => Some(Val::I(0)),
            B::Tls => {
                let g = self.conc(st, &a[0])?;
                // The first thread uses the object itself.
                if st.cur == 0 {
                    return Ok(Some(Val::I(g)));
                }
                let k = (st.cur as u32, (g >> OBJ_SHIFT) as u32);
                let at = match st.mem.tls.get(&k) {
                    Some(at) => *at,
                    None => {
                        let o = m.global_obj((g >> OBJ_SHIFT) as u32 - GLOBAL_BASE as u32).clone();
                        let at = st.mem.alloc(o.size, 3);
                        st.mem.init(at, o);
                        st.mem.tls.insert(k, at);
                        at
                    }
                };
                Some(Val::I(at))
            }
            B::FirstArg | B::Expect => Some(a[0].clone()),
            B::Memcpy => {
                let n = self.conc(st, &a[2])?;
                if n > 0 {
                    let d = self.conc(st, &a[0])?;
                    let s = self.conc(st, &a[1])?;
                    st.mem.copy(m, d, s, n)?;
                }
                Some(a[0].clone())
            }
            B::Memset => {
                let n = self.conc(st, &a[2])?;
                if n > 0 {
                    let d = self.conc(st, &a[0])?;
                    match &a[1] {
                        Val::I(c) => {
                            let c = *c as u8;
                            let (o, off) = st.mem.get_mut(m, d, n)?;
                            let n = n as usize;
                            if c == 0 {
                                // unwritten tail stays lazily zero
                                let end = (off + n).min(o.data.len());
                                if off < end {
                                    o.data[off..end].fill(0);
                                    if let Some(s) = &mut o.sym {
                                        s[off..end].fill(0);
                                    }
                                }
                            } else {
                                o.ensure(off + n);
                                o.data[off..off + n].fill(c);
                                if let Some(s) = &mut o.sym {
                                    s[off..off + n].fill(0);
                                }
                            }
                        }
                        Val::S(e) => {
                            let e8 = if self.ar.w(*e) > 8 { self.ar.extract(*e, 0, 8) } else { *e };
                            let (o, off) = st.mem.get_mut(m, d, n)?;
                            for i in 0..n as usize {
                                o.set_sym(off + i, e8);
                            }
                        }
                        _ => return Err(Stop::Err("memset value".into())),
                    }
                }
                Some(a[0].clone())
            }
            B::Memcmp | B::Bcmp => {
                let n = self.conc(st, &a[2])?;
                if n == 0 {
                    return Ok(Some(Val::I(0)));
                }
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let (o1, f1) = st.mem.get(m, p, n)?;
                let (o2, f2) = st.mem.get(m, q, n)?;
                let n = n as usize;
                let xs: Vec<(u8, u32)> = (0..n).map(|i| o1.byte(f1 + i)).collect();
                let ys: Vec<(u8, u32)> = (0..n).map(|i| o2.byte(f2 + i)).collect();
                let w = m.scalar_width(ret);
                let mut r = self.ar.cst(w, 0);
                let zero = r;
                let one = self.ar.cst(w, 1);
                let minus = self.ar.cst(w, mask(w));
                if b == B::Bcmp {
                    let mut all = self.ar.cst(1, 1);
                    for i in 0..n {
                        let (x, y) = (self.byte_e(xs[i]), self.byte_e(ys[i]));
                        let q = self.ar.bin(Op::Eq, x, y);
                        all = self.ar.bin(Op::And, all, q);
                        if self.ar.is_const(all) == Some(0) {
                            break;
                        }
                    }
                    r = self.ar.ite(all, zero, one);
                } else {
                    // up to the first certain difference
                    let mut end = n;
                    for i in 0..n {
                        if xs[i].1 == 0 && ys[i].1 == 0 && xs[i].0 != ys[i].0 {
                            end = i + 1;
                            break;
                        }
                    }
                    for i in (0..end).rev() {
                        let (x, y) = (self.byte_e(xs[i]), self.byte_e(ys[i]));
                        let q = self.ar.bin(Op::Eq, x, y);
                        let l = self.ar.bin(Op::Ult, x, y);
                        let d = self.ar.ite(l, minus, one);
                        r = self.ar.ite(q, r, d);
                    }
                }
                Some(self.from_e(r))
            }
            B::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0u64;
                loop {
                    let (o, off) = st.mem.get(m, p + n, 1)?;
                    let (c, s) = o.byte(off);
                    if s != 0 {
                        return Err(Stop::Err("strlen of symbolic bytes".into()));
                    }
                    if c == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::I(n))
            }
            B::RustAlloc | B::RustAllocZeroed | B::Malloc => {
                let n = self.conc(st, &a[0])?;
                Some(Val::I(self.alloc(st, n)?))
            }
            B::Calloc => {
                let x = self.conc(st, &a[0])?;
                let y = self.conc(st, &a[1])?;
                Some(Val::I(self.alloc(st, x.saturating_mul(y))?))
            }
            B::AlignedAlloc => {
                let n = self.conc(st, &a[1])?;
                Some(Val::I(self.alloc(st, n)?))
            }
            B::PosixMemalign => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                let x = self.alloc(st, n)?;
                let t = self.ptr_ty();
                self.store_at(st, t, p, &Val::I(x))?;
                Some(Val::I(0))
            }
            B::RustDealloc | B::Free => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    st.mem.free(p, 2)?;
                }
                None
            }
            B::RustRealloc | B::Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, if b == B::Realloc { &a[1] } else { &a[3] })?;
                let x = self.alloc(st, n)?;
                if p != 0 {
                    let old = st.mem.size_of(m, p).ok_or_else(|| Stop::Fail("memory error: realloc of a freed pointer".into()))?;
                    st.mem.copy(m, x, p, old.min(n))?;
                    st.mem.free(p, 2)?;
                }
                Some(Val::I(x))
            }
            B::Panic => {
                let name = m.funcs[fi as usize].name.clone();
                return Err(Stop::Fail(self.panic_message(st, &name, a)));
            }
            B::Abort => return Err(Stop::Fail("abort".into())),
            B::Overflow(k) => {
                let w = m.scalar_width(tys[0]);
                if m_is_vec(m, tys[0]) {
                    return Err(Stop::Err("vector overflow intrinsic".into()));
                }
                let signed = k % 2 == 1;
                if w <= 64 {
                    if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                        let (r, o) = if signed {
                            let (x, y) = (sext(*x as u128, w), sext(*y as u128, w));
                            let r = match k {
                                1 => x + y,
                                3 => x - y,
                                _ => x * y,
                            };
                            let t = r as u128 & mask(w);
                            (t, sext(t, w) != r)
                        } else {
                            let (x, y) = (*x as u128, *y as u128);
                            match k {
                                0 => ((x + y) & mask(w), x + y > mask(w)),
                                2 => (x.wrapping_sub(y) & mask(w), x < y),
                                _ => ((x * y) & mask(w), x * y > mask(w)),
                            }
                        };
                        return Ok(Some(Val::agg(vec![Val::I(r as u64), Val::I(o as u64)])));
                    }
                }
                if w > 64 {
                    // only concrete
                    if !matches!(a[0], Val::S(_)) && !matches!(a[1], Val::S(_)) && w == 128 && !signed {
                        let (x, y) = (a[0].as_u128(), a[1].as_u128());
                        let (r, o) = match k {
                            0 => x.overflowing_add(y),
                            2 => x.overflowing_sub(y),
                            _ => x.overflowing_mul(y),
                        };
                        return Ok(Some(Val::agg(vec![Val::from_u128(r), Val::I(o as u64)])));
                    }
                    return Err(Stop::Err("wide overflow intrinsic".into()));
                }
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let (r, o) = match k {
                    0 => {
                        let r = self.ar.bin(Op::Add, x, y);
                        (r, self.ar.bin(Op::Ult, r, x))
                    }
                    2 => (self.ar.bin(Op::Sub, x, y), self.ar.bin(Op::Ult, x, y)),
                    _ => {
                        let w2 = if k == 4 || k == 5 { w * 2 } else { w + 1 };
                        let (x2, y2) = if signed {
                            (self.ar.sext(x, w2), self.ar.sext(y, w2))
                        } else {
                            (self.ar.zext(x, w2), self.ar.zext(y, w2))
                        };
                        let op = match k {
                            1 => Op::Add,
                            3 => Op::Sub,
                            _ => Op::Mul,
                        };
                        let r2 = self.ar.bin(op, x2, y2);
                        let r = self.ar.extract(r2, 0, w);
                        let back = if signed { self.ar.sext(r, w2) } else { self.ar.zext(r, w2) };
                        let same = self.ar.bin(Op::Eq, back, r2);
                        (r, self.ar.not(same))
                    }
                };
                Some(Val::agg(vec![self.from_e(r), self.from_e(o)]))
            }
            B::Sat(k) => {
                if let Some((n, et)) = self.vec_ty(tys[0]) {
                    let (x, y) = (Self::elems(&a[0], n), Self::elems(&a[1], n));
                    let mut out = vec![];
                    for i in 0..n as usize {
                        out.push(self.run_builtin(st, b, et, &[et, et], &[x[i].clone(), y[i].clone()], fi)?.unwrap());
                    }
                    return Ok(Some(Val::agg(out)));
                }
                let w = m.scalar_width(tys[0]);
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let r = match k {
                    0 => {
                        let r = self.ar.bin(Op::Add, x, y);
                        let o = self.ar.bin(Op::Ult, r, x);
                        let top = self.ar.cst(w, mask(w));
                        self.ar.ite(o, top, r)
                    }
                    2 => {
                        let r = self.ar.bin(Op::Sub, x, y);
                        let o = self.ar.bin(Op::Ult, x, y);
                        let z = self.ar.cst(w, 0);
                        self.ar.ite(o, z, r)
                    }
                    _ => {
                        let w2 = w + 1;
                        let (x2, y2) = (self.ar.sext(x, w2), self.ar.sext(y, w2));
                        let r2 = self.ar.bin(if k == 1 { Op::Add } else { Op::Sub }, x2, y2);
                        let r = self.ar.extract(r2, 0, w);
                        let back = self.ar.sext(r, w2);
                        let same = self.ar.bin(Op::Eq, back, r2);
                        let z2 = self.ar.cst(w2, 0);
                        let neg = self.ar.bin(Op::Slt, r2, z2);
                        let lo = self.ar.cst(w, 1u128 << (w - 1));
                        let hi = self.ar.cst(w, (1u128 << (w - 1)) - 1);
                        let s = self.ar.ite(neg, lo, hi);
                        self.ar.ite(same, r, s)
                    }
                };
                Some(self.from_e(r))
            }
            B::MinMax(k) => {
                if let Some((n, et)) = self.vec_ty(tys[0]) {
                    let (x, y) = (Self::elems(&a[0], n), Self::elems(&a[1], n));
                    let mut out = vec![];
                    for i in 0..n as usize {
                        out.push(self.run_builtin(st, b, et, &[et, et], &[x[i].clone(), y[i].clone()], fi)?.unwrap());
                    }
                    return Ok(Some(Val::agg(out)));
                }
                let w = m.scalar_width(tys[0]);
                let p = [Pred::Ult, Pred::Ugt, Pred::Slt, Pred::Sgt][k as usize];
                let c = self.icmp_scalar(p, w, &a[0], &a[1]);
                Some(match c {
                    Val::I(1) => a[0].clone(),
                    Val::I(_) => a[1].clone(),
                    Val::S(e) => self.ite(e, w, &a[0], &a[1]),
                    _ => unreachable!(),
                })
            }
            B::Abs => {
                let w = m.scalar_width(tys[0]);
                let neg = self.icmp_scalar(Pred::Slt, w, &a[0], &Val::I(0));
                let z = self.bin_scalar(BinOp::Sub, w, &Val::I(0), &a[0])?;
                Some(match neg {
                    Val::I(1) => z,
                    Val::I(_) => a[0].clone(),
                    Val::S(e) => self.ite(e, w, &z, &a[0]),
                    _ => unreachable!(),
                })
            }
            B::Ctpop | B::Ctlz | B::Cttz | B::Bswap | B::Bitreverse => {
                if let Some((n, et)) = self.vec_ty(tys[0]) {
                    let x = Self::elems(&a[0], n);
                    let mut out = vec![];
                    for v in x {
                        let mut aa = a.to_vec();
                        aa[0] = v;
                        out.push(self.run_builtin(st, b, et, &[et], &aa, fi)?.unwrap());
                    }
                    return Ok(Some(Val::agg(out)));
                }
                let w = m.scalar_width(tys[0]);
                match &a[0] {
                    Val::S(e) => {
                        let e = *e;
                        let r = match b {
                            B::Ctpop => {
                                let mut r = self.ar.cst(w, 0);
                                for i in 0..w {
                                    let bit = self.ar.extract(e, i, 1);
                                    let z = self.ar.zext(bit, w);
                                    r = self.ar.bin(Op::Add, r, z);
                                }
                                r
                            }
                            B::Ctlz => {
                                let mut r = self.ar.cst(w, w as u128);
                                for i in 0..w {
                                    let bit = self.ar.extract(e, i, 1);
                                    let k = self.ar.cst(w, (w - 1 - i) as u128);
                                    r = self.ar.ite(bit, k, r);
                                }
                                r
                            }
                            B::Cttz => {
                                let mut r = self.ar.cst(w, w as u128);
                                for i in (0..w).rev() {
                                    let bit = self.ar.extract(e, i, 1);
                                    let k = self.ar.cst(w, i as u128);
                                    r = self.ar.ite(bit, k, r);
                                }
                                r
                            }
                            B::Bswap => {
                                let n = w / 8;
                                let mut r: Option<E> = None;
                                for i in 0..n {
                                    let x = self.ar.extract(e, i * 8, 8);
                                    r = Some(match r {
                                        None => x,
                                        Some(h) => self.ar.concat(h, x),
                                    });
                                }
                                r.unwrap()
                            }
                            _ => {
                                let mut r: Option<E> = None;
                                for i in 0..w {
                                    let x = self.ar.extract(e, i, 1);
                                    r = Some(match r {
                                        None => x,
                                        Some(h) => self.ar.concat(h, x),
                                    });
                                }
                                r.unwrap()
                            }
                        };
                        Some(self.from_e(r))
                    }
                    v => {
                        let x = v.as_u128();
                        let r = match b {
                            B::Ctpop => x.count_ones() as u128,
                            B::Ctlz => (x.leading_zeros() - (128 - w as u32)) as u128,
                            B::Cttz => (x.trailing_zeros().min(w as u32)) as u128,
                            B::Bswap => x.swap_bytes() >> (128 - w),
                            _ => x.reverse_bits() >> (128 - w),
                        };
                        Some(Val::from_u128(r))
                    }
                }
            }
            B::Fshl | B::Fshr => {
                if m_is_vec(m, tys[0]) {
                    return Err(Stop::Err("vector funnel shift".into()));
                }
                let w = m.scalar_width(tys[0]);
                let s = self.conc(st, &a[2])? % w as u64;
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let r = if s == 0 {
                    if b == B::Fshl {
                        x
                    } else {
                        y
                    }
                } else {
                    let (l, r) = if b == B::Fshl { (s, w as u64 - s) } else { (w as u64 - s, s) };
                    let (cl, cr) = (self.ar.cst(w, l as u128), self.ar.cst(w, r as u128));
                    let p = self.ar.bin(Op::Shl, x, cl);
                    let q = self.ar.bin(Op::LShr, y, cr);
                    self.ar.bin(Op::Or, p, q)
                };
                Some(self.from_e(r))
            }
            B::Cmp3(signed) => {
                let w = m.scalar_width(tys[0]);
                let rw = m.scalar_width(ret);
                let lt = self.icmp_scalar(if signed { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1]);
                let gt = self.icmp_scalar(if signed { Pred::Sgt } else { Pred::Ugt }, w, &a[0], &a[1]);
                let (l, g) = (self.to_e(&lt, 1), self.to_e(&gt, 1));
                let (z, o, mm) = (self.ar.cst(rw, 0), self.ar.cst(rw, 1), self.ar.cst(rw, mask(rw)));
                let t = self.ar.ite(g, o, z);
                let r = self.ar.ite(l, mm, t);
                Some(self.from_e(r))
            }
            B::IsConstant => Some(Val::I(0)),
            B::ObjectSize => Some(Val::I(u64::MAX)),
            B::PtrMask => Some(self.bin_scalar(BinOp::And, 64, &a[0], &a[1])?),
            B::Reduce(k) => {
                let (n, et) = self.vec_ty(tys[0]).unwrap();
                let w = m.scalar_width(et);
                let x = Self::elems(&a[0], n);
                let mut r = x[0].clone();
                for v in &x[1..] {
                    r = match k {
                        0 => self.bin_scalar(BinOp::Or, w, &r, v)?,
                        1 => self.bin_scalar(BinOp::And, w, &r, v)?,
                        2 => self.bin_scalar(BinOp::Add, w, &r, v)?,
                        3 => self.bin_scalar(BinOp::Xor, w, &r, v)?,
                        _ => self.run_builtin(st, B::MinMax(if k == 4 { 1 } else { 0 }), et, &[et, et], &[r, v.clone()], fi)?.unwrap(),
                    };
                }
                Some(r)
            }
            B::Movmsk => {
                let (n, _) = self.vec_ty(tys[0]).unwrap();
                let x = Self::elems(&a[0], n);
                let mut parts = vec![];
                for v in &x {
                    parts.push((self.bits_part(v, 8, 7, 1), 1u16));
                }
                let j = self.bits_join(&parts)?;
                Some(match j {
                    Val::S(e) => {
                        let r = self.ar.zext(e, 32);
                        self.from_e(r)
                    }
                    v => v,
                })
            }
            B::SxVar(c) => {
                if let Some(cv) = &self.opts.concrete {
                    let k = st.inputs.len();
                    let v = cv.get(k).copied().unwrap_or(0);
                    Rc::make_mut(&mut st.inputs).push(c as u32);
                    let w = width_of_class(c as u32);
                    return Ok(Some(Val::I(v & mask(w) as u64)));
                }
                let id = st.nvars * 4 + c as u32;
                st.nvars += 1;
                Rc::make_mut(&mut st.inputs).push(id);
                let e = self.ar.var(id, width_of_class(c as u32));
                Some(Val::S(e))
            }
            B::SxAssume => {
                match &a[0] {
                    Val::I(x) => {
                        if x & 1 == 0 {
                            return Err(Stop::Assume);
                        }
                    }
                    Val::S(e) => {
                        let w = self.ar.w(*e);
                        let e = if w == 1 {
                            *e
                        } else {
                            let z = self.ar.cst(w, 0);
                            let q = self.ar.bin(Op::Eq, *e, z);
                            self.ar.not(q)
                        };
                        if self.eval(st, e) != 1 {
                            match self.query(st, e)? {
                                None => return Err(Stop::Assume),
                                Some(mo) => Self::apply_model(st, &mo),
                            }
                        }
                        self.add(st, e);
                    }
                    _ => {}
                }
                None
            }
            B::SxFail => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let s = self.read_bytes(st, p, n).unwrap_or_default();
                return Err(Stop::Fail(String::from_utf8_lossy(&s).into_owned()));
            }
            B::SxCover => {
                let k = self.conc(st, &a[0])?;
                if k < 256 {
                    self.sh.covers[k as usize].fetch_add(1, Relaxed);
                }
                None
            }
            B::SxFork => {
                let v = self.conc(st, &a[0])?;
                Some(Val::I(v))
            }
            B::SxLog => {
                let v = match &a[0] {
                    Val::S(e) => self.eval(st, *e) as u64,
                    v => v.as_u128() as u64,
                };
                Rc::make_mut(&mut st.log).push(v);
                None
            }
            B::SxSymbolic => Some(Val::I(matches!(a[0], Val::S(_)) as u64)),
            B::SxSpawn => {
                let f = self.conc(st, &a[0])?;
                if f >> OBJ_SHIFT != FUNC_OBJ {
                    return Err(Stop::Err("spawn of no function".into()));
                }
                let fi = ((f & ((1 << OBJ_SHIFT) - 1)) / 16) as u32;
                let mut fr = self.frame(fi, u32::MAX, u32::MAX);
                if !fr.regs.is_empty() && !m.funcs[fi as usize].params.is_empty() {
                    fr.regs[0] = a[1].clone();
                }
                self.cov.hit(m.funcs[fi as usize].blocks[0].cov);
                st.threads.push(Thread { frames: vec![Rc::new(fr)], done: false, joins: None });
                Some(Val::I(st.threads.len() as u64 - 1))
            }
            B::SxYield | B::SxJoin => {
                // handled in `step`
                None
            }
        })
    }

    fn byte_e(&mut self, b: (u8, u32)) -> E {
        if b.1 != 0 {
            b.1 - 1
        } else {
            self.ar.cst(8, b.0 as u128)
        }
    }
    fn ptr_ty(&self) -> TyId {
        self.m.types.iter().position(|t| *t == Ty::Ptr).unwrap() as TyId
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n >= 1 << 36 {
            return Err(Stop::Fail("allocation of an absurd size".into()));
        }
        Ok(st.mem.alloc(n, 2))
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let m = self.m;
        let (fi, bi, ip) = {
            let fr = st.threads[st.cur].frames.last().unwrap();
            (fr.f, fr.block, fr.ip)
        };
        let inst = &m.funcs[fi as usize].blocks[bi as usize].ins[ip as usize];
        let dst = inst.dst;
        match &inst.k {
            Ins::Bin { op, ty, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = match m.ty(*ty) {
                    Ty::Vector(n, et) => {
                        let w = m.scalar_width(*et);
                        let (x, y) = (Self::elems(&x, *n), Self::elems(&y, *n));
                        let mut out = Vec::with_capacity(*n as usize);
                        for i in 0..*n as usize {
                            out.push(self.bin_scalar(*op, w, &x[i], &y[i])?);
                        }
                        Val::agg(out)
                    }
                    Ty::Int(w) => {
                        if let (BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem, Val::S(e)) = (op, &y) {
                            let z = self.ar.cst(*w, 0);
                            let q = self.ar.bin(Op::Eq, *e, z);
                            if self.branch(st, q)? {
                                return Err(Stop::Fail("division by zero".into()));
                            }
                        }
                        self.bin_scalar(*op, *w, &x, &y)?
                    }
                    _ => {
                        let w = m.scalar_width(*ty);
                        self.bin_scalar(*op, w, &x, &y)?
                    }
                };
                self.set(st, dst, r);
                self.advance(st);
            }
            Ins::Icmp { p, ty, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = match m.ty(*ty) {
                    Ty::Vector(n, et) => {
                        let w = m.scalar_width(*et);
                        let (x, y) = (Self::elems(&x, *n), Self::elems(&y, *n));
                        let out = (0..*n as usize).map(|i| self.icmp_scalar(*p, w, &x[i], &y[i])).collect();
                        Val::agg(out)
                    }
                    _ => {
                        let w = m.scalar_width(*ty);
                        self.icmp_scalar(*p, w, &x, &y)
                    }
                };
                self.set(st, dst, r);
                self.advance(st);
            }
            Ins::Fcmp { p, ty, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (Val::I(x), Val::I(y)) = (&x, &y) else {
                    return Err(Stop::Err("symbolic floating point".into()));
                };
                let (x, y) = if m.scalar_width(*ty) == 64 {
                    (f64::from_bits(*x), f64::from_bits(*y))
                } else {
                    (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64)
                };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "ueq" => un || x == y,
                    "une" => x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ord" => !un,
                    "uno" => un,
                    "true" => true,
                    _ => false,
                };
                self.set(st, dst, Val::I(r as u64));
                self.advance(st);
            }
            Ins::Cast { op, from, to, a } => {
                let x = self.get(st, a);
                let r = self.cast(*op, *from, *to, x)?;
                self.set(st, dst, r);
                self.advance(st);
            }
            Ins::Select { cty, ty, c, a, b } => {
                let cv = self.get(st, c);
                if let Some((n, et)) = self.vec_ty(*cty) {
                    let cs = Self::elems(&cv, n);
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let (x, y) = (Self::elems(&x, n), Self::elems(&y, n));
                    let et = self.vec_ty(*ty).map_or(et, |t| t.1);
                    let w = m.scalar_width(et);
                    let mut out = vec![];
                    for i in 0..n as usize {
                        out.push(match &cs[i] {
                            Val::I(1) => x[i].clone(),
                            Val::I(_) => y[i].clone(),
                            Val::S(e) => self.ite(*e, w, &x[i], &y[i]),
                            _ => unreachable!(),
                        });
                    }
                    self.set(st, dst, Val::agg(out));
                    self.advance(st);
                    return Ok(());
                }
                let r = match &cv {
                    Val::I(1) => self.get(st, a),
                    Val::I(_) => self.get(st, b),
                    Val::S(e) => {
                        let (x, y) = (self.get(st, a), self.get(st, b));
                        match m.ty(*ty) {
                            Ty::Int(w) => self.ite(*e, *w, &x, &y),
                            Ty::Ptr => {
                                if let (Val::I(p), Val::I(q)) = (&x, &y) {
                                    if p == q {
                                        Val::I(*p)
                                    } else if self.branch(st, *e)? {
                                        x
                                    } else {
                                        y
                                    }
                                } else {
                                    self.ite(*e, 64, &x, &y)
                                }
                            }
                            _ => {
                                if self.branch(st, *e)? {
                                    x
                                } else {
                                    y
                                }
                            }
                        }
                    }
                    _ => return Err(Stop::Err("select condition".into())),
                };
                self.set(st, dst, r);
                self.advance(st);
            }
            Ins::Load { ty, p, atomic } => {
                if *atomic {
                    self.schedule_point(st)?;
                    if (st.threads.len() > 1) && self.moved(st, fi, bi, ip) {
                        return Ok(());
                    }
                }
                let pv = self.get(st, p);
                let r = match pv {
                    Val::I(a) => self.load_at(st, *ty, a)?,
                    Val::S(e) => match self.load_sym(st, *ty, e)? {
                        Some(v) => v,
                        None => {
                            let a = self.concretize(st, e)?;
                            self.load_at(st, *ty, a)?
                        }
                    },
                    _ => return Err(Stop::Err("load address".into())),
                };
                self.set(st, dst, r);
                self.advance(st);
                st.sched_ok = false;
            }
            Ins::Store { ty, v, p, atomic } => {
                if *atomic {
                    self.schedule_point(st)?;
                    if (st.threads.len() > 1) && self.moved(st, fi, bi, ip) {
                        return Ok(());
                    }
                }
                let pv = self.get(st, p);
                let a = self.conc(st, &pv)?;
                let x = self.get(st, v);
                self.store_at(st, *ty, a, &x)?;
                self.advance(st);
                st.sched_ok = false;
            }
            Ins::Gep { base, off, idx } => {
                let bv = self.get(st, base);
                let mut r = self.bin_scalar(BinOp::Add, 64, &bv, &Val::I(*off as u64))?;
                for (o, w, sz) in idx {
                    let v = self.get(st, o);
                    let v = match v {
                        Val::I(x) => Val::I(sext(x as u128, *w) as i64 as u64),
                        Val::S(e) if *w < 64 => {
                            let s = self.ar.sext(e, 64);
                            self.from_e(s)
                        }
                        v => v,
                    };
                    let d = self.bin_scalar(BinOp::Mul, 64, &v, &Val::I(*sz as u64))?;
                    r = self.bin_scalar(BinOp::Add, 64, &r, &d)?;
                }
                self.set(st, dst, r);
                self.advance(st);
            }
            Ins::Alloca { size, n, nw } => {
                let nv = self.get(st, n);
                let n = self.conc(st, &nv)?;
                let _ = nw;
                let a = st.mem.alloc(size * n, 1);
                let cur = st.cur;
                let fr = Rc::make_mut(st.threads[cur].frames.last_mut().unwrap());
                fr.allocas.push(a);
                fr.regs[dst as usize] = Val::I(a);
                fr.ip += 1;
            }
            Ins::Call { ret, f, args } | Ins::Invoke { ret, f, args, .. } => {
                let to = match &inst.k {
                    Ins::Invoke { to, .. } => *to,
                    _ => u32::MAX,
                };
                if let Callee::Fn(i) = f {
                    match self.bi[*i as usize] {
                        B::SxYield => {
                            self.schedule_point(st)?;
                            if st.threads.len() > 1 && self.moved(st, fi, bi, ip) {
                                return Ok(());
                            }
                            if *m.ty(*ret) != Ty::Void {
                                self.set(st, dst, Val::I(0));
                            }
                            st.sched_ok = false;
                            return self.after_call(st, to);
                        }
                        B::SxJoin => {
                            let v = self.get(st, &args[0].1);
                            let t = self.conc(st, &v)? as usize;
                            if t >= st.threads.len() || st.threads[t].done {
                                return self.after_call(st, to);
                            }
                            // run another thread (each runnable one)
                            let cur = st.cur;
                            st.threads[cur].joins = Some(t);
                            let others: Vec<usize> = (0..st.threads.len()).filter(|i| Self::runnable(st, *i)).collect();
                            if others.is_empty() {
                                return Err(Stop::Fail("deadlock: every thread waits for another".into()));
                            }
                            let mut others = others;
                            if self.opts.concrete.is_some() {
                                let o = self.opts.sched.get(st.sched.len()).map_or(others[0], |o| *o as usize);
                                if !others.contains(&o) {
                                    return Err(Stop::Fail("schedule cannot be repeated".into()));
                                }
                                others = vec![o];
                            }
                            for &o in &others[1..] {
                                let mut s2 = st.clone();
                                s2.cur = o;
                                s2.sched_ok = true;
                                Rc::make_mut(&mut s2.sched).push(o as u8);
                                self.sh.forks.fetch_add(1, Relaxed);
                                self.stack.push(s2);
                            }
                            st.cur = others[0];
                            st.sched_ok = true;
                            Rc::make_mut(&mut st.sched).push(others[0] as u8);
                            return Ok(());
                        }
                        _ => {}
                    }
                }
                return self.call(st, dst, *ret, f, args, to);
            }
            Ins::ExtractValue { a, path } => {
                let mut v = self.get(st, a);
                for p in path {
                    v = match v {
                        Val::A(x) => x[*p as usize].clone(),
                        _ => Val::I(0),
                    };
                }
                self.set(st, dst, v);
                self.advance(st);
            }
            Ins::InsertValue { ty, a, v, path } => {
                let x = self.get(st, a);
                let nv = self.get(st, v);
                let r = self.insert(*ty, x, nv, path);
                self.set(st, dst, r);
                self.advance(st);
            }
            Ins::ExtractElement { ty, a, i } => {
                let x = self.get(st, a);
                let iv = self.get(st, i);
                let k = self.conc(st, &iv)?;
                let (n, _) = self.vec_ty(*ty).unwrap();
                let v = Self::elems(&x, n).get(k as usize).cloned().unwrap_or(Val::I(0));
                self.set(st, dst, v);
                self.advance(st);
            }
            Ins::InsertElement { ty, a, v, i } => {
                let x = self.get(st, a);
                let nv = self.get(st, v);
                let iv = self.get(st, i);
                let k = self.conc(st, &iv)?;
                let (n, _) = self.vec_ty(*ty).unwrap();
                let mut e = Self::elems(&x, n);
                if (k as usize) < e.len() {
                    e[k as usize] = nv;
                }
                self.set(st, dst, Val::agg(e));
                self.advance(st);
            }
            Ins::Shuffle { ty, a, b, mask } => {
                let (n, _) = self.vec_ty(*ty).unwrap();
                let x = self.get(st, a);
                let y = self.get(st, b);
                let mut all = Self::elems(&x, n);
                all.extend(Self::elems(&y, n));
                let out = mask.iter().map(|&k| if k < 0 { Val::I(0) } else { all[k as usize].clone() }).collect();
                self.set(st, dst, Val::agg(out));
                self.advance(st);
            }
            Ins::Freeze { a } => {
                let v = self.get(st, a);
                self.set(st, dst, v);
                self.advance(st);
            }
            Ins::FNeg { ty, a } => {
                let v = self.get(st, a);
                let Val::I(x) = v else { return Err(Stop::Err("symbolic floating point".into())) };
                let w = m.scalar_width(*ty);
                self.set(st, dst, Val::I(x ^ (1 << (w - 1))));
                self.advance(st);
            }
            Ins::Fence => self.advance(st),
            Ins::AtomicRmw { op, ty, p, v } => {
                self.schedule_point(st)?;
                if st.threads.len() > 1 && self.moved(st, fi, bi, ip) {
                    return Ok(());
                }
                let pv = self.get(st, p);
                let a = self.conc(st, &pv)?;
                let w = m.scalar_width(*ty);
                let old = self.load_at(st, *ty, a)?;
                let x = self.get(st, v);
                let minmax = |p: Pred, s: &mut Self| -> Val {
                    match s.icmp_scalar(p, w, &old, &x) {
                        Val::I(1) => old.clone(),
                        Val::I(_) => x.clone(),
                        Val::S(e) => s.ite(e, w, &old, &x),
                        _ => unreachable!(),
                    }
                };
                let n = match op.as_str() {
                    "xchg" => x.clone(),
                    "add" => self.bin_scalar(BinOp::Add, w, &old, &x)?,
                    "sub" => self.bin_scalar(BinOp::Sub, w, &old, &x)?,
                    "and" => self.bin_scalar(BinOp::And, w, &old, &x)?,
                    "or" => self.bin_scalar(BinOp::Or, w, &old, &x)?,
                    "xor" => self.bin_scalar(BinOp::Xor, w, &old, &x)?,
                    "nand" => {
                        let t = self.bin_scalar(BinOp::And, w, &old, &x)?;
                        self.bin_scalar(BinOp::Xor, w, &t, &Val::from_u128(mask(w)))?
                    }
                    "max" => minmax(Pred::Sgt, self),
                    "min" => minmax(Pred::Slt, self),
                    "umax" => minmax(Pred::Ugt, self),
                    "umin" => minmax(Pred::Ult, self),
                    o => return Err(Stop::Err(format!("atomicrmw {o}"))),
                };
                self.store_at(st, *ty, a, &n)?;
                self.set(st, dst, old);
                self.advance(st);
                st.sched_ok = false;
            }
            Ins::CmpXchg { ty, p, c, n } => {
                self.schedule_point(st)?;
                if st.threads.len() > 1 && self.moved(st, fi, bi, ip) {
                    return Ok(());
                }
                let pv = self.get(st, p);
                let a = self.conc(st, &pv)?;
                let w = m.scalar_width(*ty);
                let old = self.load_at(st, *ty, a)?;
                let cv = self.get(st, c);
                let eq = match self.icmp_scalar(Pred::Eq, w, &old, &cv) {
                    Val::I(x) => x == 1,
                    Val::S(e) => self.branch(st, e)?,
                    _ => unreachable!(),
                };
                if eq {
                    let nv = self.get(st, n);
                    self.store_at(st, *ty, a, &nv)?;
                }
                self.set(st, dst, Val::agg(vec![old, Val::I(eq as u64)]));
                self.advance(st);
                st.sched_ok = false;
            }
            Ins::Br(t) => return self.goto(st, *t),
            Ins::CondBr(c, t, f) => {
                let v = self.get(st, c);
                let b = match v {
                    Val::I(x) => x & 1 == 1,
                    Val::S(e) => {
                        if t == f {
                            true
                        } else {
                            self.branch(st, e)?
                        }
                    }
                    _ => return Err(Stop::Err("branch condition".into())),
                };
                return self.goto(st, if b { *t } else { *f });
            }
            Ins::Switch { ty, v, default, cases } => {
                let x = self.get(st, v);
                let t = match x {
                    Val::I(x) => cases.iter().find(|c| c.0 == x as u128).map_or(*default, |c| c.1),
                    Val::W(x) => cases.iter().find(|c| c.0 == *x).map_or(*default, |c| c.1),
                    Val::S(e) => {
                        let w = m.scalar_width(*ty);
                        let here = self.eval(st, e);
                        let target = cases.iter().find(|c| c.0 == here).map_or(*default, |c| c.1);
                        // condition: the switch goes to `target`
                        let mut c = self.ar.cst(1, 0);
                        if target == *default {
                            for (k, t) in cases {
                                if *t != target {
                                    let kc = self.ar.cst(w, *k);
                                    let q = self.ar.bin(Op::Eq, e, kc);
                                    c = self.ar.bin(Op::Or, c, q);
                                }
                            }
                            c = self.ar.not(c);
                        } else {
                            for (k, t) in cases {
                                if *t == target {
                                    let kc = self.ar.cst(w, *k);
                                    let q = self.ar.bin(Op::Eq, e, kc);
                                    c = self.ar.bin(Op::Or, c, q);
                                }
                            }
                        }
                        self.branch(st, c)?;
                        target
                    }
                    _ => return Err(Stop::Err("switch operand".into())),
                };
                return self.goto(st, t);
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(st, o));
                return self.ret(st, v);
            }
            Ins::Unreachable => return Err(Stop::Fail("unreachable code reached".into())),
            Ins::Unsupported(s) => return Err(Stop::Err(format!("instruction {s}"))),
        }
        Ok(())
    }

    /// Did the scheduler switch away from the instruction being executed?
    fn moved(&self, st: &State, f: u32, b: u32, ip: u32) -> bool {
        let fr = st.threads[st.cur].frames.last().unwrap();
        // Another thread may be at the very same place: executing it is then right as well, because
        // every operand is read from the current frame.
        !(fr.f == f && fr.block == b && fr.ip == ip)
    }

    fn insert(&mut self, ty: TyId, a: Val, v: Val, path: &[u32]) -> Val {
        if path.is_empty() {
            return v;
        }
        let (n, et) = match self.m.ty(ty) {
            Ty::Struct(f, _) => (f.len(), f[path[0] as usize]),
            Ty::Array(n, e) => (*n as usize, *e),
            _ => return v,
        };
        let mut e = match a {
            Val::A(x) => (*x).clone(),
            _ => vec![Val::I(0); n],
        };
        let k = path[0] as usize;
        let old = e[k].clone();
        e[k] = self.insert(et, old, v, &path[1..]);
        Val::agg(e)
    }

    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, x: Val) -> R<Val> {
        if op == CastOp::Bit {
            return self.bitcast(x, from, to);
        }
        if let Some((n, fe)) = self.vec_ty(from) {
            let (_, te) = self.vec_ty(to).unwrap();
            let mut out = vec![];
            for v in Self::elems(&x, n) {
                out.push(self.cast(op, fe, te, v)?);
            }
            return Ok(Val::agg(out));
        }
        let (fw, tw) = (self.m.scalar_width(from), self.m.scalar_width(to));
        Ok(match op {
            CastOp::Trunc => match x {
                Val::I(v) => Val::I(if tw < 64 { v & ((1 << tw) - 1) } else { v }),
                v => self.bits_part(&v, fw, 0, tw),
            },
            CastOp::ZExt => match x {
                Val::S(e) => {
                    let r = self.ar.zext(e, tw);
                    self.from_e(r)
                }
                v => v,
            },
            CastOp::SExt => match x {
                Val::S(e) => {
                    let r = self.ar.sext(e, tw);
                    self.from_e(r)
                }
                v => Val::from_u128(sext(v.as_u128(), fw) as u128 & mask(tw)),
            },
            CastOp::Bit => x,
            _ => {
                let Val::I(v) = x else { return Err(Stop::Err("symbolic floating point".into())) };
                let tf = |f: f64| -> u64 {
                    if tw == 32 {
                        (f as f32).to_bits() as u64
                    } else {
                        f.to_bits()
                    }
                };
                let ff = || -> f64 {
                    if fw == 32 {
                        f32::from_bits(v as u32) as f64
                    } else {
                        f64::from_bits(v)
                    }
                };
                match op {
                    CastOp::UiToFp => Val::I(tf(v as f64)),
                    CastOp::SiToFp => Val::I(tf(sext(v as u128, fw) as f64)),
                    CastOp::FpToUi => Val::I(ff() as u64 & mask(tw) as u64),
                    CastOp::FpToSi => Val::I(ff() as i64 as u64 & mask(tw) as u64),
                    CastOp::FpExt => Val::I(ff().to_bits()),
                    _ => Val::I((ff() as f32).to_bits() as u64),
                }
            }
        })
    }
}

fn m_is_vec(m: &Module, t: TyId) -> bool {
    matches!(m.ty(t), Ty::Vector(..))
}
