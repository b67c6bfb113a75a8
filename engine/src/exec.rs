//! The symbolic interpreter: states, memory, instructions, models of libc and of the harness interface.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct V {
    pub c: u128,
    pub e: E,
}
#[inline]
fn cv(c: u128) -> V {
    V { c, e: 0 }
}

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Option<Vec<E>>,
}

#[derive(Clone, Copy)]
struct Frame {
    f: u32,
    pc: u32,
    base: u32,
    obj: u32,
    ret: u32, // absolute register index in caller
    nret: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dec {
    /// instruction count at the decision and its number within the instruction
    at: u64,
    site: u32,
    eq: bool,
    v: u64,
}

pub struct State {
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    frames: Vec<Frame>,
    regs: Vec<V>,
    dom: Vec<Mask>,
    model: Vec<u64>,
    nvars: usize,
    vids: Vec<u16>,
    multi: Vec<E>,
    multi_vars: u128,
    dec: Vec<Dec>,
    rpos: usize,
    rlen: usize, // replay until dec[rlen]
    ipick: Vec<u64>,
    ipos: usize,
    steps: u64,
    covers: u64,
    asserts: u32,
    sym_asserts: u32,
    emits: Option<Rc<Vec<Emit>>>,
    tsd: Vec<u64>,
    rng: u64,
    mass: f64, // fraction of the declared input space, while only unary constraints occurred
    exact: bool,
}

struct Emit {
    prev: Option<Rc<Vec<Emit>>>,
    bytes: Vec<(u8, E)>,
}

impl Clone for State {
    fn clone(&self) -> State {
        State {
            mem: self.mem.clone(),
            free: self.free.clone(),
            frames: self.frames.clone(),
            regs: self.regs.clone(),
            dom: self.dom.clone(),
            model: self.model.clone(),
            nvars: self.nvars,
            vids: self.vids.clone(),
            multi: self.multi.clone(),
            multi_vars: self.multi_vars,
            dec: self.dec.clone(),
            rpos: self.rpos,
            rlen: self.rlen,
            ipick: self.ipick.clone(),
            ipos: 0,
            steps: self.steps,
            covers: self.covers,
            asserts: self.asserts,
            sym_asserts: self.sym_asserts,
            emits: self.emits.clone(),
            tsd: self.tsd.clone(),
            rng: self.rng,
            mass: self.mass,
            exact: self.exact,
        }
    }
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Assumed,           // path killed by an assumption
    Violation(String), // panic, abort, failed assertion, memory error
    Hang,
    Error(String), // engine cannot continue: inconclusive
    Aborted,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub kind: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
}

#[derive(Clone)]
pub struct Sample {
    pub inputs: Vec<u64>,
    pub digest: u64,
    pub covers: u64,
    pub asserts: u32,
}

pub struct WorkItem {
    dec: Vec<Dec>,
    model: Vec<u64>,
}

pub struct Job {
    pub name: String,
    pub harness: String,
    pub params: Vec<u64>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub assumed: u64,
    pub steps: u64,
    pub replay_steps: u64,
    pub forks: u64,
    pub decisions: u64,
    pub fast_decisions: u64,
    pub audited: u64,
    pub audit_bad: u64,
    pub asserts: u64,
    pub sym_asserts: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub solver_secs: f64,
    pub solver_max: f64,
    pub covers: u64,
    pub mass: f64,
    pub inexact_paths: u64,
    pub max_steps: u64,
    pub max_vars: u64,
    pub max_depth: u64,
    pub restarts: u64,
}

pub struct Shared {
    pub queue: Mutex<Vec<WorkItem>>,
    pub cond: Condvar,
    pub idle: AtomicU64,
    pub qlen: AtomicU64,
    pub stop: AtomicBool,
    pub nworkers: u64,
    pub findings: Mutex<Vec<Finding>>,
    pub errors: Mutex<Vec<String>>,
    pub hangs: Mutex<Vec<Finding>>,
    pub samples: Mutex<Vec<Sample>>,
    pub stats: Mutex<Stats>,
    pub fexec: Mutex<Vec<u64>>,
    pub deadline: Instant,
    pub cut: AtomicBool,
    pub max_findings: usize,
    pub max_steps: u64,
    pub nsamples: usize,
    pub fork_sites: Mutex<HashMap<(u32, u32), u64>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook {
    None,
    Bcmp,
    Memcmp,
    Strlen,
    Memchr,
    Memrchr,
    MemchrAligned,
    MemrchrAligned,
    HashOne,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Errno,
    Syscall,
    Getrandom,
    ClockGettime,
    RetZero,
    RetMinus1,
    TsdGet,
    TsdSet,
    TsdCreate,
    Write,
    Abort,
    Panic,
    SxByte,
    SxWide,
    SxAssume,
    SxAssert,
    SxCover,
    SxParam,
    SxEmit,
    SxFail,
    Unsupported,
}

pub struct Env {
    pub prog: Program,
    pub hooks: Vec<Hook>,
    pub init_mem: Vec<Option<Obj>>,
    pub errno_id: u32,
    pub audit: u64,
    pub seed: u64,
}

unsafe impl Send for Env {}
unsafe impl Sync for Env {}

pub fn prepare(prog: Program) -> Env {
    let mut hooks = vec![Hook::None; prog.funcs.len()];
    for (i, f) in prog.funcs.iter().enumerate() {
        let n = f.name.as_str();
        let h = match n {
            "bcmp" => Hook::Bcmp,
            "memcmp" => Hook::Memcmp,
            "strlen" => Hook::Strlen,
            "memchr" => Hook::Memchr,
            "memrchr" => Hook::Memrchr,
            "malloc" => Hook::Malloc,
            "calloc" => Hook::Calloc,
            "realloc" => Hook::Realloc,
            "free" => Hook::Free,
            "posix_memalign" => Hook::PosixMemalign,
            "__errno_location" => Hook::Errno,
            "syscall" => Hook::Syscall,
            "clock_gettime" => Hook::ClockGettime,
            "getenv" => Hook::RetZero,
            "getrandom" => Hook::Getrandom,
            "pthread_key_create" => Hook::TsdCreate,
            "pthread_key_delete" => Hook::RetZero,
            "pthread_getspecific" => Hook::TsdGet,
            "pthread_setspecific" => Hook::TsdSet,
            "write" | "writev" if !f.defined => Hook::Write,
            "abort" | "exit" | "_exit" => Hook::Abort,
            "sx_byte_in" => Hook::SxByte,
            "sx_wide" => Hook::SxWide,
            "sx_assume" => Hook::SxAssume,
            "sx_assert" => Hook::SxAssert,
            "sx_cover" => Hook::SxCover,
            "sx_param" => Hook::SxParam,
            "sx_emit" => Hook::SxEmit,
            "sx_fail" => Hook::SxFail,
            _ => {
                if n.ends_with("rust_begin_unwind") {
                    Hook::Panic
                } else if n.ends_with("core5slice6memchr14memchr_aligned") {
                    Hook::MemchrAligned
                } else if n.ends_with("core5slice6memchr7memrchr") {
                    Hook::MemrchrAligned
                } else if n.contains("_6memchr6memchr6memchr") && n.starts_with("_RNvNtCs") {
                    Hook::MemchrAligned
                } else if n.contains("11RandomState") && n.contains("11BuildHasher8hash_one") {
                    Hook::HashOne
                } else if !f.defined {
                    Hook::Unsupported
                } else {
                    Hook::None
                }
            }
        };
        hooks[i] = h;
    }
    let mut init_mem: Vec<Option<Obj>> = vec![None];
    for gi in prog.mutable_idx.iter().skip(1) {
        init_mem.push(Some(Obj { data: prog.globals[*gi].data.clone(), sym: None }));
    }
    let errno_id = init_mem.len() as u32;
    init_mem.push(Some(Obj { data: vec![0; 8], sym: None }));
    Env { prog, hooks, init_mem, errno_id, audit: u64::MAX, seed: 0 }
}

pub struct Worker<'a> {
    env: &'a Env,
    job: &'a Job,
    sh: &'a Shared,
    pub pool: Pool,
    z3: Z3,
    pub st: Stats,
    stack: Vec<State>,
    fexec: Vec<u64>,
    audit_n: u64,
    tmp: Vec<V>,
    timeout_ms: u32,
    sample_ctr: u64,
    fork_sites: HashMap<(u32, u32), u64>,
}

type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

const FULL: Mask = [u64::MAX; 4];

impl<'a> Worker<'a> {
    pub fn new(env: &'a Env, job: &'a Job, sh: &'a Shared, timeout_ms: u32) -> Self {
        Worker {
            env,
            job,
            sh,
            pool: Pool::new(),
            z3: Z3::new(timeout_ms),
            st: Stats::default(),
            stack: vec![],
            fexec: vec![0; env.prog.funcs.len()],
            audit_n: 0,
            tmp: vec![],
            timeout_ms,
            sample_ctr: 0,
            fork_sites: HashMap::new(),
        }
    }

    fn initial(&self, item: WorkItem) -> R<State> {
        let fid = match self.env.prog.fmap.get(&self.job.harness) {
            Some(f) => *f,
            None => return err(format!("no harness {}", self.job.harness)),
        };
        let f = &self.env.prog.funcs[fid as usize];
        let mut s = State {
            mem: self.env.init_mem.iter().map(|o| o.as_ref().map(|o| Rc::new(o.clone()))).collect(),
            free: vec![],
            frames: vec![],
            regs: vec![],
            dom: vec![],
            model: item.model,
            nvars: 0,
            vids: vec![],
            multi: vec![],
            multi_vars: 0,
            rpos: 0,
            rlen: item.dec.len(),
            dec: item.dec,
            ipick: vec![],
            ipos: 0,
            steps: 0,
            covers: 0,
            asserts: 0,
            sym_asserts: 0,
            emits: None,
            tsd: vec![0],
            rng: 0x9E37_79B9_7F4A_7C15,
            mass: 1.0,
            exact: true,
        };
        s.regs.resize(f.nregs as usize, cv(0));
        let obj = if f.frame > 0 { self.alloc(&mut s, f.frame) } else { 0 };
        s.frames.push(Frame { f: fid, pc: 0, base: 0, obj, ret: 0, nret: 0 });
        Ok(s)
    }

    fn alloc(&self, s: &mut State, n: u64) -> u32 {
        let o = Rc::new(Obj { data: vec![0; n as usize], sym: None });
        if let Some(i) = s.free.pop() {
            s.mem[i as usize] = Some(o);
            i
        } else {
            s.mem.push(Some(o));
            (s.mem.len() - 1) as u32
        }
    }

    // ------------------------------------------------------------ worker loop
    pub fn run(&mut self) {
        loop {
            if self.sh.stop.load(Ordering::Relaxed) {
                break;
            }
            if Instant::now() > self.sh.deadline {
                self.cut_short();
                break;
            }
            if self.pool.mem_est() > 600 << 20 {
                self.restart();
            }
            let st = match self.stack.pop() {
                Some(s) => s,
                None => match self.take() {
                    Some(item) => match self.initial(item) {
                        Ok(s) => s,
                        Err(e) => {
                            self.error(format!("{:?}", e));
                            break;
                        }
                    },
                    None => break,
                },
            };
            self.donate();
            self.run_path(st);
        }
        self.sh.stop_if_done();
        self.flush();
    }

    fn restart(&mut self) {
        // convert the pending states to prefixes and drop the expression pool
        let items: Vec<WorkItem> = self.stack.drain(..).map(|s| WorkItem { dec: s.dec, model: s.model }).collect();
        {
            let mut q = self.sh.queue.lock().unwrap();
            q.extend(items);
            self.sh.qlen.store(q.len() as u64, Ordering::Relaxed);
        }
        self.sh.cond.notify_all();
        self.flush_solver();
        self.pool = Pool::new();
        self.z3 = Z3::new(self.timeout_ms);
        self.st.restarts += 1;
    }

    fn flush_solver(&mut self) {
        self.st.queries += self.z3.queries;
        self.st.sat += self.z3.sat;
        self.st.unsat += self.z3.unsat;
        self.st.unknown += self.z3.unknown;
        self.st.cache_hits += self.z3.cache_hits;
        self.st.solver_secs += self.z3.secs;
        self.st.solver_max = self.st.solver_max.max(self.z3.max_secs);
    }

    fn flush(&mut self) {
        self.flush_solver();
        let s = &self.st;
        let mut g = self.sh.stats.lock().unwrap();
        g.paths += s.paths;
        g.done += s.done;
        g.assumed += s.assumed;
        g.steps += s.steps;
        g.replay_steps += s.replay_steps;
        g.forks += s.forks;
        g.decisions += s.decisions;
        g.fast_decisions += s.fast_decisions;
        g.audited += s.audited;
        g.audit_bad += s.audit_bad;
        g.asserts += s.asserts;
        g.sym_asserts += s.sym_asserts;
        g.queries += s.queries;
        g.sat += s.sat;
        g.unsat += s.unsat;
        g.unknown += s.unknown;
        g.cache_hits += s.cache_hits;
        g.solver_secs += s.solver_secs;
        g.solver_max = g.solver_max.max(s.solver_max);
        g.covers |= s.covers;
        g.mass += s.mass;
        g.inexact_paths += s.inexact_paths;
        g.max_steps = g.max_steps.max(s.max_steps);
        g.max_vars = g.max_vars.max(s.max_vars);
        g.max_depth = g.max_depth.max(s.max_depth);
        g.restarts += s.restarts;
        drop(g);
        let mut fe = self.sh.fexec.lock().unwrap();
        for (i, n) in self.fexec.iter().enumerate() {
            fe[i] += n;
        }
        drop(fe);
        let mut fs = self.sh.fork_sites.lock().unwrap();
        for (k, n) in &self.fork_sites {
            *fs.entry(*k).or_insert(0) += n;
        }
    }

    fn take(&mut self) -> Option<WorkItem> {
        let mut q = self.sh.queue.lock().unwrap();
        self.sh.idle.fetch_add(1, Ordering::SeqCst);
        loop {
            if self.sh.stop.load(Ordering::Relaxed) {
                self.sh.cond.notify_all();
                return None;
            }
            if let Some(i) = q.pop() {
                self.sh.qlen.store(q.len() as u64, Ordering::Relaxed);
                self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                return Some(i);
            }
            if self.sh.idle.load(Ordering::SeqCst) == self.sh.nworkers {
                self.sh.stop.store(true, Ordering::SeqCst);
                self.sh.cond.notify_all();
                return None;
            }
            let (g, _) = self.sh.cond.wait_timeout(q, Duration::from_millis(50)).unwrap();
            q = g;
        }
    }

    fn donate(&mut self) {
        if self.stack.is_empty() || self.sh.idle.load(Ordering::Relaxed) == 0 {
            return;
        }
        if self.sh.qlen.load(Ordering::Relaxed) >= self.sh.nworkers {
            return;
        }
        let n = (self.stack.len() / 2).clamp(1, 4);
        let items: Vec<WorkItem> = self.stack.drain(..n).map(|s| WorkItem { dec: s.dec, model: s.model }).collect();
        let mut q = self.sh.queue.lock().unwrap();
        q.extend(items);
        self.sh.qlen.store(q.len() as u64, Ordering::Relaxed);
        drop(q);
        self.sh.cond.notify_all();
    }

    fn cut_short(&mut self) {
        self.sh.cut.store(true, Ordering::SeqCst);
        self.sh.stop.store(true, Ordering::SeqCst);
        self.sh.cond.notify_all();
    }

    fn error(&mut self, e: String) {
        let mut g = self.sh.errors.lock().unwrap();
        if g.len() < 20 {
            g.push(e);
        }
        self.sh.stop.store(true, Ordering::SeqCst);
        self.sh.cond.notify_all();
    }

    fn backtrace(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().take(40).map(|f| self.env.prog.funcs[f.f as usize].name.clone()).collect()
    }

    fn run_path(&mut self, mut s: State) {
        let steps0 = s.steps;
        let r = self.exec(&mut s);
        self.st.steps += s.steps - steps0;
        self.st.max_steps = self.st.max_steps.max(s.steps);
        self.st.max_vars = self.st.max_vars.max(s.nvars as u64);
        self.st.paths += 1;
        if s.exact {
            self.st.mass += s.mass;
        } else {
            self.st.inexact_paths += 1;
        }
        let r = r.err().unwrap();
        match r {
            Stop::Done => {
                self.st.done += 1;
                self.st.asserts += s.asserts as u64;
                self.st.sym_asserts += s.sym_asserts as u64;
                self.st.covers |= s.covers;
                self.sample_ctr += 1;
                if self.sample_ctr.is_power_of_two() || (self.sample_ctr + self.env.seed) % 97 == 0 {
                    self.sample(&s);
                }
            }
            Stop::Assumed => self.st.assumed += 1,
            Stop::Violation(k) => {
                let f = Finding { kind: k, inputs: s.model[..s.nvars].to_vec(), stack: self.backtrace(&s) };
                let mut g = self.sh.findings.lock().unwrap();
                g.push(f);
                if g.len() >= self.sh.max_findings {
                    self.sh.stop.store(true, Ordering::SeqCst);
                    self.sh.cond.notify_all();
                }
            }
            Stop::Hang => {
                let f = Finding { kind: "hang".into(), inputs: s.model[..s.nvars].to_vec(), stack: self.backtrace(&s) };
                let mut g = self.sh.hangs.lock().unwrap();
                g.push(f);
                if g.len() >= 3 {
                    self.sh.stop.store(true, Ordering::SeqCst);
                    self.sh.cond.notify_all();
                }
            }
            Stop::Error(e) => {
                let bt = self.backtrace(&s);
                let m = s.model[..s.nvars].to_vec();
                self.error(format!("{} inputs={:?} at {}", e, m, bt.iter().take(8).cloned().collect::<Vec<_>>().join(" <- ")));
            }
            Stop::Aborted => {
                self.stack.clear();
            }
        }
    }

    fn sample(&mut self, s: &State) {
        {
            let g = self.sh.samples.lock().unwrap();
            if g.len() >= self.sh.nsamples {
                return;
            }
        }
        let mut chain = vec![];
        let mut cur = s.emits.clone();
        while let Some(c) = cur {
            cur = c[0].prev.clone();
            chain.push(c);
        }
        let mut h = 0xcbf29ce484222325u64;
        for c in chain.iter().rev() {
            for (b, e) in &c[0].bytes {
                let v = if *e == 0 { *b } else { self.pool.eval(*e, &s.model) as u8 };
                h = (h ^ v as u64).wrapping_mul(0x100000001b3);
            }
            h = (h ^ 0x1ff).wrapping_mul(0x100000001b3);
        }
        let smp = Sample { inputs: s.model[..s.nvars].to_vec(), digest: h, covers: s.covers, asserts: s.asserts };
        self.sh.samples.lock().unwrap().push(smp);
    }

    // ------------------------------------------------------------ decisions
    fn site(&self, s: &State) -> u32 {
        let f = s.frames.last().unwrap();
        f.f.wrapping_mul(0x9E3779B1).wrapping_add(f.pc.wrapping_mul(31))
    }

    /// exact answer for simple shapes; Err(()) when z3 is needed
    fn fast(&self, s: &State, e: E, neg: bool, m: &mut Vec<(u16, Mask)>) -> Result<bool, ()> {
        match self.pool.k[e as usize] {
            K::Const(c) => Ok((c == 1) != neg),
            K::Ut { var, t } => {
                if s.multi_vars >> pos(var) & 1 == 1 {
                    return Err(());
                }
                let tm = &self.pool.tables[t as usize].mask;
                let cur = m.iter().find(|x| x.0 == var).map(|x| x.1).unwrap_or(s.dom[pos(var)]);
                let n = if neg { mask_andn(&cur, tm) } else { mask_and(&cur, tm) };
                if !mask_any(&n) {
                    return Ok(false);
                }
                if let Some(x) = m.iter_mut().find(|x| x.0 == var) {
                    x.1 = n
                } else {
                    m.push((var, n))
                }
                Ok(true)
            }
            K::Bin(BinOp::Xor, a, b) if b == self.pool.t_true => self.fast(s, a, !neg, m),
            K::Bin(op @ (BinOp::And | BinOp::Or), a, b) if self.pool.width(a) == 1 => {
                if (op == BinOp::And) == neg {
                    return Err(()); // a disjunction below a conjunction
                }
                if !self.fast(s, a, neg, m)? {
                    return Ok(false);
                }
                self.fast(s, b, neg, m)
            }
            _ => Err(()),
        }
    }

    /// disjunctions at the top, conjunctions of literals below
    fn fast_top(&self, s: &State, e: E, neg: bool, m: &mut Vec<(u16, Mask)>) -> Result<bool, ()> {
        match self.pool.k[e as usize] {
            K::Bin(BinOp::Xor, a, b) if b == self.pool.t_true => self.fast_top(s, a, !neg, m),
            K::Bin(op @ (BinOp::And | BinOp::Or), a, b) if self.pool.width(a) == 1 && (op == BinOp::And) == neg => {
                let l = self.fast_top(s, a, neg, m);
                if l == Ok(true) {
                    return l;
                }
                m.clear();
                let r = self.fast_top(s, b, neg, m);
                if r == Ok(true) {
                    return r;
                }
                l?;
                r
            }
            _ => self.fast(s, e, neg, m),
        }
    }

    /// is `PC and e` (or `PC and not e`) satisfiable? returns a model
    fn feasible(&mut self, s: &State, e: E, neg: bool) -> R<Option<Vec<u64>>> {
        self.st.decisions += 1;
        if let Some(c) = self.pool.as_const(e) {
            return Ok(if (c == 1) != neg { Some(s.model.clone()) } else { None });
        }
        let v = self.pool.eval(e, &s.model) == 1;
        if v != neg {
            self.st.fast_decisions += 1;
            return Ok(Some(s.model.clone()));
        }
        let mut fuel = 2000;
        let mut ans: Option<Option<Vec<u64>>> = None;
        if let Some(b) = self.pool.tri(e, &s.dom, &mut fuel) {
            if b == neg {
                ans = Some(None);
            }
        }
        let ne = self.pool.not(e);
        let lit = if neg { ne } else { e };
        if ans.is_none() && !s.multi.is_empty() {
            let opp = if neg { e } else { ne };
            if s.multi.contains(&opp) {
                ans = Some(None);
            }
        }
        if ans.is_none() {
            let mut m = vec![];
            if let Ok(b) = self.fast_top(s, e, neg, &mut m) {
                if b {
                    let mut md = s.model.clone();
                    for (v, k) in m {
                        let cur = md[pos(v)];
                        if !mask_has(&k, cur) {
                            md[pos(v)] = mask_first(&k);
                        }
                    }
                    if self.pool.eval(lit, &md) == 1 {
                        ans = Some(Some(md));
                    }
                } else {
                    ans = Some(None);
                }
            }
        }
        if let Some(a) = ans {
            self.st.fast_decisions += 1;
            self.audit_n += 1;
            if self.audit_n <= self.env.audit || self.audit_n % 64 == 0 {
                self.st.audited += 1;
                let (r, _) = self.z3_check(s, lit, true)?;
                if (r == Res::Sat) != a.is_some() || r == Res::Unknown {
                    self.st.audit_bad += 1;
                    return err(format!("audit: fast decision disagrees with z3 ({:?})", r));
                }
            }
            return Ok(a);
        }
        let (r, md) = self.z3_check(s, lit, false)?;
        match r {
            Res::Sat => {
                let mut m = s.model.clone();
                for (v, x) in md {
                    m[pos(v)] = x;
                }
                if self.pool.eval(lit, &m) != 1 {
                    return err("z3 model does not satisfy the query (encoding mismatch)");
                }
                for i in 0..s.multi.len() {
                    if self.pool.eval(s.multi[i], &m) != 1 {
                        return err("z3 model does not satisfy the path condition (encoding mismatch)");
                    }
                }
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => err("solver gave no answer within its limit"),
        }
    }

    fn z3_check(&mut self, s: &State, lit: E, _audit: bool) -> R<(Res, Vec<(u16, u64)>)> {
        let mut vs = self.pool.vars[lit as usize];
        let mut cons = vec![lit];
        let mut used = vec![false; s.multi.len()];
        loop {
            let mut ch = false;
            for i in 0..s.multi.len() {
                if !used[i] && self.pool.vars[s.multi[i] as usize] & vs != 0 {
                    used[i] = true;
                    vs |= self.pool.vars[s.multi[i] as usize];
                    cons.push(s.multi[i]);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let vars: Vec<u16> = (0..s.nvars).filter(|v| vs >> v & 1 == 1).map(|v| s.vids[v]).collect();
        Ok(self.z3.check(&self.pool, &cons, &vars, &s.dom))
    }

    fn add(&mut self, s: &mut State, e: E) {
        match self.pool.k[e as usize] {
            K::Const(_) => {}
            K::Ut { var, t } => {
                let d = s.dom[pos(var)];
                let n = mask_and(&d, &self.pool.tables[t as usize].mask);
                if n != d {
                    s.mass *= mask_count(&n) as f64 / mask_count(&d) as f64;
                    s.dom[pos(var)] = n;
                    if s.multi_vars >> pos(var) & 1 == 1 {
                        s.exact = false;
                        let mut mv = 0u128;
                        let pool = &self.pool;
                        let dom = &s.dom;
                        s.multi.retain(|m| {
                            if pool.vars[*m as usize] >> pos(var) & 1 == 0 {
                                mv |= pool.vars[*m as usize];
                                return true;
                            }
                            let mut fuel = 500;
                            if pool.tri(*m, dom, &mut fuel) == Some(true) {
                                false
                            } else {
                                mv |= pool.vars[*m as usize];
                                true
                            }
                        });
                        s.multi_vars = mv;
                    }
                }
            }
            K::Bin(BinOp::And, a, b) if self.pool.width(a) == 1 => {
                self.add(s, a);
                self.add(s, b);
            }
            K::Bin(BinOp::Xor, x, t) if t == self.pool.t_true => {
                if let K::Bin(BinOp::Or, a, b) = self.pool.k[x as usize] {
                    let a = self.pool.not(a);
                    let b = self.pool.not(b);
                    self.add(s, a);
                    self.add(s, b);
                } else {
                    self.add_multi(s, e);
                }
            }
            _ => self.add_multi(s, e),
        }
    }
    fn add_multi(&mut self, s: &mut State, e: E) {
        let mut fuel = 500;
        if self.pool.tri(e, &s.dom, &mut fuel) == Some(true) {
            return;
        }
        if !s.multi.contains(&e) {
            s.multi.push(e);
            s.multi_vars |= self.pool.vars[e as usize];
            s.exact = false;
        }
    }

    /// Choose an outcome k of a symbolic decision; `val` gives the outcome under a model, `cond` its condition.
    fn pick(&mut self, s: &mut State, val: &mut dyn FnMut(&mut Self, &[u64]) -> u64, cond: &mut dyn FnMut(&mut Self, u64) -> E) -> R<u64> {
        if s.ipos < s.ipick.len() {
            s.ipos += 1;
            return Ok(s.ipick[s.ipos - 1]);
        }
        let site = self.site(s);
        let at = s.steps << 6 | (s.ipick.len() as u64).min(63);
        loop {
            if s.rpos < s.rlen {
                // replay of a recorded prefix. What folds to a constant depends on the expression pool, so a
                // decision recorded elsewhere may be none here (skip it: its outcome is implied) and a decision
                // here may have been none there (take the model's value: it is the only one).
                let d = s.dec[s.rpos];
                if d.at < at {
                    s.rpos += 1;
                    continue;
                }
                if d.at > at {
                    let k = val(self, &s.model);
                    let c = cond(self, k);
                    self.add(s, c);
                    s.dec.insert(s.rpos, Dec { at, site, eq: true, v: k });
                    s.rpos += 1;
                    s.rlen += 1;
                    s.ipick.push(k);
                    s.ipos += 1;
                    return Ok(k);
                }
                if d.site != site {
                    return err("replay diverged");
                }
                s.rpos += 1;
                let c = cond(self, d.v);
                if d.eq {
                    self.add(s, c);
                    s.ipick.push(d.v);
                    s.ipos += 1;
                    return Ok(d.v);
                }
                let n = self.pool.not(c);
                self.add(s, n);
                continue;
            }
            let k = val(self, &s.model);
            let c = cond(self, k);
            if let Some(m) = self.feasible(s, c, true)? {
                let mut o = s.clone();
                o.model = m;
                let n = self.pool.not(c);
                self.add(&mut o, n);
                o.dec.push(Dec { at, site, eq: false, v: k });
                o.steps -= 1;
                o.rpos = o.dec.len();
                o.rlen = o.rpos;
                self.st.forks += 1;
                let f = s.frames.last().unwrap();
                *self.fork_sites.entry((f.f, f.pc)).or_insert(0) += 1;
                self.stack.push(o);
                self.st.max_depth = self.st.max_depth.max(self.stack.len() as u64);
                self.add(s, c);
            }
            s.dec.push(Dec { at, site, eq: true, v: k });
            s.rpos = s.dec.len();
            s.rlen = s.rpos;
            s.ipick.push(k);
            s.ipos += 1;
            return Ok(k);
        }
    }

    fn branch(&mut self, s: &mut State, e: E) -> R<bool> {
        if let Some(c) = self.pool.as_const(e) {
            return Ok(c == 1);
        }
        let r = self.pick(s, &mut |w, m| w.pool.eval(e, m) as u64, &mut |w, k| if k == 1 { e } else { w.pool.not(e) })?;
        Ok(r == 1)
    }

    fn concretize(&mut self, s: &mut State, v: V, w: u32) -> R<u128> {
        if v.e == 0 {
            return Ok(v.c);
        }
        if let Some(c) = self.pool.as_const(v.e) {
            return Ok(c);
        }
        if w > 64 {
            return err("concretize wide");
        }
        let e = v.e;
        let r = self.pick(s, &mut |w, m| w.pool.eval(e, m) as u64, &mut |p, k| {
            let c = p.pool.cst(w, k as u128);
            p.pool.bin(BinOp::Eq, w, e, c)
        })?;
        Ok(r as u128)
    }

    // ------------------------------------------------------------ memory
    #[inline]
    fn obj<'b>(&'b self, s: &'b State, id: u64) -> Option<&'b [u8]> {
        if id >= GCONST_BASE {
            if id < FUNC_BASE {
                let gi = *self.env.prog.consts_idx.get((id - GCONST_BASE) as usize)?;
                return Some(&self.env.prog.globals[gi].data);
            }
            return None;
        }
        s.mem.get(id as usize)?.as_ref().map(|o| &o.data[..])
    }
    #[inline]
    fn objsym<'b>(&self, s: &'b State, id: u64) -> Option<&'b [E]> {
        if id >= GCONST_BASE {
            return None;
        }
        s.mem[id as usize].as_ref().and_then(|o| o.sym.as_deref())
    }
    fn memerr<T>(&self, what: &str, addr: u64, n: u64) -> R<T> {
        Err(Stop::Violation(format!("memory error: {} of {} bytes at object {:#x} offset {}", what, n, addr >> 32, addr & 0xffff_ffff)))
    }

    fn load(&mut self, s: &mut State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        let d = match self.obj(s, id) {
            Some(d) => d,
            None => return self.memerr("load", addr, n as u64),
        };
        if off + n > d.len() {
            return self.memerr("load", addr, n as u64);
        }
        let mut c: u128 = 0;
        if n <= 8 {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&d[off..off + n]);
            c = u64::from_le_bytes(b) as u128;
        } else {
            for i in (0..n).rev() {
                c = c << 8 | d[off + i] as u128;
            }
        }
        let sy = match self.objsym(s, id) {
            Some(x) => x,
            None => return Ok(cv(c & mask(w))),
        };
        if sy[off..off + n].iter().all(|x| *x == 0) {
            return Ok(cv(c & mask(w)));
        }
        let es: Vec<E> = sy[off..off + n].to_vec();
        let mut acc: E = 0;
        for i in 0..n {
            let b = if es[i] == 0 {
                self.pool.cst(8, c >> (8 * i) & 0xff)
            } else {
                self.resolve(s, es[i])
            };
            acc = if i == 0 { b } else { self.pool.concat(b, acc) };
        }
        if (n * 8) as u32 > w {
            acc = self.pool.extract(acc, 0, w);
        }
        Ok(self.ev(acc))
    }

    /// replace by a constant when the input it depends on has a single value left
    fn resolve(&mut self, s: &State, e: E) -> E {
        if let K::Ut { var, t } = self.pool.k[e as usize] {
            let d = &s.dom[pos(var)];
            if mask_count(d) == 1 {
                let v = self.pool.tables[t as usize].v[mask_first(d) as usize];
                let w = self.pool.width(e);
                return self.pool.cst(w, v as u128);
            }
        }
        e
    }

    fn ev(&self, e: E) -> V {
        match self.pool.k[e as usize] {
            K::Const(c) => cv(c),
            _ => V { c: 0, e },
        }
    }
    fn ex(&mut self, v: V, w: u32) -> E {
        if v.e != 0 {
            v.e
        } else {
            self.pool.cst(w, v.c)
        }
    }

    fn store(&mut self, s: &mut State, addr: u64, v: V, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        let ok = id < GCONST_BASE && matches!(s.mem.get(id as usize), Some(Some(o)) if off + n <= o.data.len());
        if !ok {
            return self.memerr("store", addr, n as u64);
        }
        if v.e == 0 {
            let o = Rc::make_mut(s.mem[id as usize].as_mut().unwrap());
            let b = v.c.to_le_bytes();
            o.data[off..off + n].copy_from_slice(&b[..n]);
            if let Some(sy) = &mut o.sym {
                for x in &mut sy[off..off + n] {
                    *x = 0
                }
            }
        } else {
            let mut e = v.e;
            if (n * 8) as u32 > w {
                e = self.pool.zext(e, n as u32 * 8);
            }
            let mut parts = [(0u8, 0u32); 16];
            for i in 0..n {
                let b = self.pool.extract(e, i as u32 * 8, 8);
                parts[i] = match self.pool.as_const(b) {
                    Some(c) => (c as u8, 0),
                    None => (0, b),
                };
            }
            let o = Rc::make_mut(s.mem[id as usize].as_mut().unwrap());
            if o.sym.is_none() {
                o.sym = Some(vec![0; o.data.len()]);
            }
            let sy = o.sym.as_mut().unwrap();
            for i in 0..n {
                o.data[off + i] = parts[i].0;
                sy[off + i] = parts[i].1;
            }
        }
        Ok(())
    }

    fn memcpy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let (sid, soff) = (src >> 32, (src & 0xffff_ffff) as usize);
        let (did, doff) = (dst >> 32, (dst & 0xffff_ffff) as usize);
        let sd = match self.obj(s, sid) {
            Some(d) if soff + n <= d.len() => d,
            _ => return self.memerr("memcpy source", src, n as u64),
        };
        let ok = did < GCONST_BASE && matches!(s.mem.get(did as usize), Some(Some(o)) if doff + n <= o.data.len());
        if !ok {
            return self.memerr("memcpy destination", dst, n as u64);
        }
        let data: Vec<u8> = sd[soff..soff + n].to_vec();
        let sym: Option<Vec<E>> = match self.objsym(s, sid) {
            Some(x) if x[soff..soff + n].iter().any(|e| *e != 0) => Some(x[soff..soff + n].to_vec()),
            _ => None,
        };
        let o = Rc::make_mut(s.mem[did as usize].as_mut().unwrap());
        o.data[doff..doff + n].copy_from_slice(&data);
        match sym {
            Some(sv) => {
                if o.sym.is_none() {
                    o.sym = Some(vec![0; o.data.len()]);
                }
                o.sym.as_mut().unwrap()[doff..doff + n].copy_from_slice(&sv);
            }
            None => {
                if let Some(sy) = &mut o.sym {
                    for x in &mut sy[doff..doff + n] {
                        *x = 0
                    }
                }
            }
        }
        Ok(())
    }

    fn bytes(&mut self, s: &State, addr: u64, n: u64, what: &str) -> R<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let n = n as usize;
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        let d = match self.obj(s, id) {
            Some(d) if off + n <= d.len() => d,
            _ => return self.memerr(what, addr, n as u64),
        };
        let sy = self.objsym(s, id);
        let v: Vec<(u8, E)> = (0..n).map(|i| (d[off + i], sy.map(|x| x[off + i]).unwrap_or(0))).collect();
        Ok(v)
    }
    fn bex(&mut self, s: &State, b: (u8, E)) -> E {
        if b.1 != 0 {
            self.resolve(s, b.1)
        } else {
            self.pool.cst(8, b.0 as u128)
        }
    }

    /// load through a symbolic address
    fn load_sym(&mut self, s: &mut State, p: E, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        if s.ipos >= s.ipick.len() {
            // not resuming in the middle of a concretization
            if let K::Ut { var, t } = self.pool.k[p as usize] {
                let dom = s.dom[pos(var)];
                let mut id = None;
                let mut ok = w <= 64;
                let tb: Vec<u64> = self.pool.tables[t as usize].v.to_vec();
                for i in 0..256 {
                    if ok && mask_has(&dom, i) {
                        let a = tb[i as usize];
                        if *id.get_or_insert(a >> 32) != a >> 32 {
                            ok = false;
                        }
                    }
                }
                if ok {
                    let id = id.unwrap();
                    if let Some(d) = self.obj(s, id) {
                        let len = d.len() as u64;
                        let in_b = (0..256u64).all(|i| !mask_has(&dom, i) || (tb[i as usize] & 0xffff_ffff) + n <= len);
                        let conc = match self.objsym(s, id) {
                            None => true,
                            Some(sy) => (0..256u64).all(|i| {
                                !mask_has(&dom, i) || {
                                    let o = (tb[i as usize] & 0xffff_ffff) as usize;
                                    sy[o..o + n as usize].iter().all(|e| *e == 0)
                                }
                            }),
                        };
                        if in_b && conc {
                            let mut vals = [0u64; 256];
                            for i in 0..256u64 {
                                if mask_has(&dom, i) {
                                    let o = (tb[i as usize] & 0xffff_ffff) as usize;
                                    let mut x = 0u64;
                                    for k in (0..n as usize).rev() {
                                        x = x << 8 | d[o + k] as u64;
                                    }
                                    vals[i as usize] = x;
                                }
                            }
                            let e = self.pool.ut_from(var, w, |i| vals[i as usize]);
                            return Ok(self.ev(e));
                        }
                    }
                }
            } else if w <= 64 {
                let a = self.pool.eval(p, &s.model) as u64;
                let (id, _) = (a >> 32, a & 0xffff_ffff);
                let info = self.obj(s, id).map(|d| d.len() as u64);
                if let Some(len) = info {
                    let conc = self.objsym(s, id).map(|x| x.iter().all(|e| *e == 0)).unwrap_or(true);
                    if len <= 4096 && conc && len >= n {
                        let base = self.pool.cst(64, (id << 32) as u128);
                        let off = self.pool.bin(BinOp::Sub, 64, p, base);
                        let lim = self.pool.cst(64, (len - n + 1) as u128);
                        let inb = self.pool.bin(BinOp::Ult, 64, off, lim);
                        // must hold for every value; otherwise fall back to forking over addresses
                        let bad = if s.rpos < s.rlen {
                            // replay: the original made the same choice; recompute it exactly
                            self.feasible_replay(s, inb)?
                        } else {
                            self.feasible(s, inb, true)?.is_some()
                        };
                        if !bad {
                            let d = self.obj(s, id).unwrap();
                            let mut vals = vec![0u64; (len - n + 1) as usize];
                            for (o, v) in vals.iter_mut().enumerate() {
                                let mut x = 0u64;
                                for k in (0..n as usize).rev() {
                                    x = x << 8 | d[o + k] as u64;
                                }
                                *v = x & mask(w) as u64;
                            }
                            let e = self.pool.lookup(w, vals, off);
                            return Ok(self.ev(e));
                        }
                    }
                }
            }
        }
        let a = self.concretize(s, V { c: 0, e: p }, 64)? as u64;
        self.load(s, a, w)
    }
    fn feasible_replay(&mut self, s: &State, inb: E) -> R<bool> {
        let ne = self.pool.not(inb);
        let mut fuel = 2000;
        if self.pool.tri(inb, &s.dom, &mut fuel) == Some(true) {
            return Ok(false);
        }
        let (r, _) = self.z3_check(s, ne, false)?;
        match r {
            Res::Sat => Ok(true),
            Res::Unsat => Ok(false),
            _ => err("solver unknown"),
        }
    }

    // ------------------------------------------------------------ interpreter
    fn exec(&mut self, s: &mut State) -> R<()> {
        let env = self.env;
        let max_steps = self.sh.max_steps;
        let mut budget_check = 0u32;
        'call: loop {
            let fr = *s.frames.last().unwrap();
            let f = &env.prog.funcs[fr.f as usize];
            let base = fr.base as usize;
            let code = &f.code[..];
            let mut pc = fr.pc as usize;
            macro_rules! get {
                ($o:expr) => {{
                    let o = $o;
                    if o & CONST == 0 {
                        s.regs[base + o as usize]
                    } else {
                        cv(f.consts[(o & !CONST) as usize])
                    }
                }};
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    s.regs[base + $d as usize] = v;
                }};
            }
            macro_rules! sync {
                () => {
                    s.frames.last_mut().unwrap().pc = pc as u32
                };
            }
            macro_rules! edge {
                ($e:expr) => {{
                    let e: &Edge = $e;
                    let mv = &e.moves;
                    if mv.len() == 1 {
                        let v = get!(mv[0].1);
                        set!(mv[0].0, v);
                    } else if mv.len() > 1 {
                        self.tmp.clear();
                        for (_, o) in mv.iter() {
                            let v = get!(*o);
                            self.tmp.push(v);
                        }
                        for (i, (d, _)) in mv.iter().enumerate() {
                            s.regs[base + *d as usize] = self.tmp[i];
                        }
                    }
                    pc = e.pc as usize;
                }};
            }
            loop {
                s.steps += 1;
                budget_check += 1;
                if budget_check & 0xffff == 0 {
                    if self.sh.stop.load(Ordering::Relaxed) {
                        return Err(Stop::Aborted);
                    }
                    if Instant::now() > self.sh.deadline {
                        sync!();
                        self.cut_short();
                        return Err(Stop::Aborted);
                    }
                    if s.steps > max_steps {
                        sync!();
                        return Err(Stop::Hang);
                    }
                }
                if !s.ipick.is_empty() && s.ipos > 0 {
                    s.ipick.clear();
                    s.ipos = 0;
                }
                match &code[pc] {
                    Inst::Bin { op, w, d, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        if x.e == 0 && y.e == 0 {
                            let r = fold(*op, *w, x.c, y.c);
                            set!(*d, cv(r));
                        } else {
                            let ea = self.ex(x, *w);
                            let eb = self.ex(y, *w);
                            let e = self.pool.bin(*op, *w, ea, eb);
                            let v = self.ev(e);
                            set!(*d, v);
                        }
                        pc += 1;
                    }
                    Inst::Load { d, p, w } => {
                        let a = get!(*p);
                        let v = if a.e == 0 {
                            sync!();
                            self.load(s, a.c as u64, *w)?
                        } else {
                            sync!();
                            self.load_sym(s, a.e, *w)?
                        };
                        set!(*d, v);
                        pc += 1;
                    }
                    Inst::Store { p, v, w } => {
                        let a = get!(*p);
                        sync!();
                        let a = self.concretize(s, a, 64)?;
                        let x = get!(*v);
                        self.store(s, a as u64, x, *w)?;
                        pc += 1;
                    }
                    Inst::Gep { d, base: b, off, terms } => {
                        let b = get!(*b);
                        if b.e == 0 {
                            let mut acc = (b.c as u64).wrapping_add(*off);
                            let mut symb = false;
                            for (o, w, sc) in terms.iter() {
                                let v = get!(*o);
                                if v.e != 0 {
                                    symb = true;
                                    break;
                                }
                                acc = acc.wrapping_add((sext128(v.c, *w) as i64 as u64).wrapping_mul(*sc));
                            }
                            if !symb {
                                set!(*d, cv(acc as u128));
                                pc += 1;
                                continue;
                            }
                        }
                        let mut acc = self.ex(b, 64);
                        let oc = self.pool.cst(64, *off as u128);
                        acc = self.pool.bin(BinOp::Add, 64, acc, oc);
                        for (o, w, sc) in terms.iter() {
                            let v = get!(*o);
                            let mut e = self.ex(v, *w);
                            if *w < 64 {
                                e = self.pool.sext(e, 64);
                            } else if *w > 64 {
                                e = self.pool.extract(e, 0, 64);
                            }
                            let k = self.pool.cst(64, *sc as u128);
                            let m = self.pool.bin(BinOp::Mul, 64, e, k);
                            acc = self.pool.bin(BinOp::Add, 64, acc, m);
                        }
                        let v = self.ev(acc);
                        set!(*d, v);
                        pc += 1;
                    }
                    Inst::CondBr { c, t, f: fe } => {
                        let v = get!(*c);
                        let b = if v.e == 0 {
                            v.c & 1 == 1
                        } else {
                            sync!();
                            self.branch(s, v.e)?
                        };
                        if b {
                            edge!(t)
                        } else {
                            edge!(fe)
                        }
                    }
                    Inst::Br(e) => {
                        edge!(e)
                    }
                    Inst::Cast { k, wf, wt, d, a } => {
                        let x = get!(*a);
                        if x.e == 0 {
                            let r = match k {
                                Cast::Trunc => x.c & mask(*wt),
                                Cast::Zext => x.c,
                                Cast::Sext => sext128(x.c, *wf) as u128 & mask(*wt),
                            };
                            set!(*d, cv(r));
                        } else {
                            let e = match k {
                                Cast::Trunc => self.pool.extract(x.e, 0, *wt),
                                Cast::Zext => self.pool.zext(x.e, *wt),
                                Cast::Sext => self.pool.sext(x.e, *wt),
                            };
                            let v = self.ev(e);
                            set!(*d, v);
                        }
                        pc += 1;
                    }
                    Inst::Move { d, a } => {
                        let v = get!(*a);
                        set!(*d, v);
                        pc += 1;
                    }
                    Inst::Moves(m) => {
                        for (d, a) in m.iter() {
                            let v = get!(*a);
                            set!(*d, v);
                        }
                        pc += 1;
                    }
                    Inst::Select { c, items } => {
                        let c = get!(*c);
                        if c.e == 0 {
                            for (d, a, b, _) in items.iter() {
                                let v = if c.c & 1 == 1 { get!(*a) } else { get!(*b) };
                                set!(*d, v);
                            }
                        } else {
                            for (d, a, b, w) in items.iter() {
                                let x = get!(*a);
                                let y = get!(*b);
                                let x = self.ex(x, *w);
                                let y = self.ex(y, *w);
                                let e = self.pool.ite(c.e, x, y);
                                let v = self.ev(e);
                                set!(*d, v);
                            }
                        }
                        pc += 1;
                    }
                    Inst::Alloca { d, off } => {
                        set!(*d, cv((((fr.obj as u64) << 32) | off) as u128));
                        pc += 1;
                    }
                    Inst::Call { f: callee, args, d, n } => {
                        let h = env.hooks[*callee as usize];
                        if h != Hook::None {
                            let av: Vec<V> = args.iter().map(|o| get!(*o)).collect();
                            sync!();
                            let r = self.hook(s, h, *callee, &av)?;
                            for i in 0..*n as usize {
                                set!(*d + i as u32, r.get(i).copied().unwrap_or(cv(0)));
                            }
                            pc += 1;
                        } else {
                            pc += 1;
                            sync!();
                            self.enter(s, *callee, args, base, f, *d, *n)?;
                            continue 'call;
                        }
                    }
                    Inst::CallInd { p, args, d, n } => {
                        let a = get!(*p);
                        sync!();
                        let a = self.concretize(s, a, 64)? as u64;
                        let id = a >> 32;
                        if id < FUNC_BASE || a & 0xffff_ffff != 0 || id - FUNC_BASE >= env.prog.funcs.len() as u64 {
                            return self.memerr("indirect call", a, 0);
                        }
                        let callee = (id - FUNC_BASE) as u32;
                        let h = env.hooks[callee as usize];
                        if h != Hook::None {
                            let av: Vec<V> = args.iter().map(|o| get!(*o)).collect();
                            let r = self.hook(s, h, callee, &av)?;
                            for i in 0..*n as usize {
                                set!(*d + i as u32, r.get(i).copied().unwrap_or(cv(0)));
                            }
                            pc += 1;
                        } else {
                            pc += 1;
                            sync!();
                            self.enter(s, callee, args, base, f, *d, *n)?;
                            continue 'call;
                        }
                    }
                    Inst::Ret(vals) => {
                        self.tmp.clear();
                        for o in vals.iter() {
                            let v = get!(*o);
                            self.tmp.push(v);
                        }
                        if fr.obj != 0 {
                            s.mem[fr.obj as usize] = None;
                            s.free.push(fr.obj);
                        }
                        s.frames.pop();
                        if s.frames.is_empty() {
                            return Err(Stop::Done);
                        }
                        s.regs.truncate(base);
                        for i in 0..fr.nret as usize {
                            s.regs[fr.ret as usize + i] = self.tmp[i];
                        }
                        continue 'call;
                    }
                    Inst::Switch { v, w, cases, edges } => {
                        let x = get!(*v);
                        let k = if x.e == 0 {
                            match cases.binary_search_by(|c| c.0.cmp(&x.c)) {
                                Ok(i) => cases[i].1,
                                Err(_) => 0,
                            }
                        } else {
                            sync!();
                            let e = x.e;
                            let w = *w;
                            self.pick(
                                s,
                                &mut |wk, m| {
                                    let c = wk.pool.eval(e, m);
                                    match cases.binary_search_by(|x| x.0.cmp(&c)) {
                                        Ok(i) => cases[i].1 as u64,
                                        Err(_) => 0,
                                    }
                                },
                                &mut |wk, k| {
                                    if let K::Ut { .. } = wk.pool.k[e as usize] {
                                        return wk
                                            .pool
                                            .ut_map(e, 1, |c| {
                                                let g = match cases.binary_search_by(|x| x.0.cmp(&(c as u128))) {
                                                    Ok(i) => cases[i].1 as u64,
                                                    Err(_) => 0,
                                                };
                                                (g == k) as u64
                                            })
                                            .unwrap();
                                    }
                                    let mut acc = wk.pool.t_false;
                                    for (c, g) in cases.iter() {
                                        if (k == 0 && *g != 0) || (k != 0 && *g as u64 == k) {
                                            let kc = wk.pool.cst(w, *c);
                                            let q = wk.pool.bin(BinOp::Eq, w, e, kc);
                                            acc = wk.pool.or(acc, q);
                                        }
                                    }
                                    if k == 0 {
                                        wk.pool.not(acc)
                                    } else {
                                        acc
                                    }
                                },
                            )? as u32
                        };
                        edge!(&edges[k as usize])
                    }
                    Inst::LoadAgg { p, items } => {
                        let a = get!(*p);
                        sync!();
                        let a = self.concretize(s, a, 64)? as u64;
                        for (d, o, w) in items.iter() {
                            let v = self.load(s, a + o, *w)?;
                            set!(*d, v);
                        }
                        pc += 1;
                    }
                    Inst::StoreAgg { p, items } => {
                        let a = get!(*p);
                        sync!();
                        let a = self.concretize(s, a, 64)? as u64;
                        for (v, o, w) in items.iter() {
                            let v = get!(*v);
                            self.store(s, a + o, v, *w)?;
                        }
                        pc += 1;
                    }
                    Inst::Intr { k, w, d, args } => {
                        let av: Vec<V> = args.iter().map(|o| get!(*o)).collect();
                        sync!();
                        let (r, n) = self.intrinsic(s, *k, *w, &av)?;
                        for i in 0..n {
                            set!(*d + i as u32, r[i]);
                        }
                        pc += 1;
                    }
                    Inst::AtomicRmw { op, w, d, p, v } => {
                        let a = get!(*p);
                        sync!();
                        let a = self.concretize(s, a, 64)? as u64;
                        let old = self.load(s, a, *w)?;
                        let x = get!(*v);
                        let bop = match op.as_str() {
                            "add" => Some(BinOp::Add),
                            "sub" => Some(BinOp::Sub),
                            "and" => Some(BinOp::And),
                            "or" => Some(BinOp::Or),
                            "xor" => Some(BinOp::Xor),
                            "xchg" => None,
                            _ => return err(format!("atomicrmw {}", op)),
                        };
                        let new = match bop {
                            None => x,
                            Some(o) => {
                                let ea = self.ex(old, *w);
                                let eb = self.ex(x, *w);
                                let e = self.pool.bin(o, *w, ea, eb);
                                self.ev(e)
                            }
                        };
                        self.store(s, a, new, *w)?;
                        set!(*d, old);
                        pc += 1;
                    }
                    Inst::CmpXchg { w, d, p, e, n } => {
                        let a = get!(*p);
                        sync!();
                        let a = self.concretize(s, a, 64)? as u64;
                        let old = self.load(s, a, *w)?;
                        let (x, y) = (get!(*e), get!(*n));
                        let ea = self.ex(old, *w);
                        let eb = self.ex(x, *w);
                        let q = self.pool.bin(BinOp::Eq, *w, ea, eb);
                        let b = self.branch(s, q)?;
                        if b {
                            self.store(s, a, y, *w)?;
                        }
                        set!(*d, old);
                        set!(*d + 1, cv(b as u128));
                        pc += 1;
                    }
                    Inst::Unreachable => {
                        sync!();
                        return Err(Stop::Violation("reached unreachable code".into()));
                    }
                    Inst::Nop => pc += 1,
                }
            }
        }
    }

    fn enter(&mut self, s: &mut State, callee: u32, args: &[Opnd], base: usize, f: &Func, d: u32, n: u32) -> R<()> {
        let env = self.env;
        let g = &env.prog.funcs[callee as usize];
        self.fexec[callee as usize] += 1;
        if s.frames.len() > 30000 {
            return Err(Stop::Violation("call depth above 30000 (unbounded recursion)".into()));
        }
        let nb = s.regs.len();
        debug_assert_eq!(args.len() as u32, g.nparams);
        if args.len() as u32 != g.nparams {
            return err(format!("argument count mismatch calling {}", g.name));
        }
        s.regs.reserve(g.nregs as usize);
        for o in args {
            let v = if o & CONST == 0 { s.regs[base + *o as usize] } else { cv(f.consts[(o & !CONST) as usize]) };
            s.regs.push(v);
        }
        s.regs.resize(nb + g.nregs as usize, cv(0));
        let obj = if g.frame > 0 { self.alloc(s, g.frame) } else { 0 };
        s.frames.push(Frame { f: callee, pc: 0, base: nb as u32, obj, ret: (base + d as usize) as u32, nret: n });
        Ok(())
    }

    fn intrinsic(&mut self, s: &mut State, k: Intr, w: u32, a: &[V]) -> R<([V; 2], usize)> {
        use Intr::*;
        let m = mask(w);
        let conc = a.iter().all(|v| v.e == 0);
        let one = |v: V| Ok(([v, cv(0)], 1));
        match k {
            Copy => return one(a[0]),
            IsConstant => return one(cv(0)),
            Trap => return Err(Stop::Violation("trap".into())),
            Memcpy => {
                let n = self.concretize(s, a[2], 64)? as u64;
                if n == 0 {
                    return Ok(([cv(0), cv(0)], 0));
                }
                let d = self.concretize(s, a[0], 64)? as u64;
                let src = self.concretize(s, a[1], 64)? as u64;
                self.memcpy(s, d, src, n)?;
                return Ok(([cv(0), cv(0)], 0));
            }
            Memset => {
                let n = self.concretize(s, a[2], 64)? as u64;
                if n == 0 {
                    return Ok(([cv(0), cv(0)], 0));
                }
                let d = self.concretize(s, a[0], 64)? as u64;
                let (id, off) = (d >> 32, (d & 0xffff_ffff) as usize);
                let ok = id < GCONST_BASE && matches!(s.mem.get(id as usize), Some(Some(o)) if off + n as usize <= o.data.len());
                if !ok {
                    return self.memerr("memset", d, n);
                }
                if a[1].e == 0 {
                    let o = Rc::make_mut(s.mem[id as usize].as_mut().unwrap());
                    for x in &mut o.data[off..off + n as usize] {
                        *x = a[1].c as u8
                    }
                    if let Some(sy) = &mut o.sym {
                        for x in &mut sy[off..off + n as usize] {
                            *x = 0
                        }
                    }
                } else {
                    for i in 0..n {
                        self.store(s, d + i, a[1], 8)?;
                    }
                }
                return Ok(([cv(0), cv(0)], 0));
            }
            _ => {}
        }
        if conc {
            let x = a[0].c;
            let y = a.get(1).map(|v| v.c).unwrap_or(0);
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            let smax = (m >> 1) as i128;
            let smin = -smax - 1;
            let two = |r: u128, o: bool| Ok(([cv(r & m), cv(o as u128)], 2));
            if w > 64 && matches!(k, UmulO | SaddO | SsubO | SmulO | SaddSat | SsubSat) {
                return err("wide checked arithmetic");
            }
            return match k {
                UaddO => {
                    let (r, o) = x.overflowing_add(y);
                    two(r, o || r > m)
                }
                UsubO => two(x.wrapping_sub(y), x < y),
                UmulO => {
                    let r = x * y;
                    two(r, r > m)
                }
                SaddO => {
                    let r = sx + sy;
                    two(r as u128, r > smax || r < smin)
                }
                SsubO => {
                    let r = sx - sy;
                    two(r as u128, r > smax || r < smin)
                }
                SmulO => {
                    let r = sx * sy;
                    two(r as u128, r > smax || r < smin)
                }
                UaddSat => {
                    let (r, o) = x.overflowing_add(y);
                    one(cv(if o || r > m { m } else { r }))
                }
                UsubSat => one(cv(x.saturating_sub(y))),
                SaddSat => one(cv((sx + sy).clamp(smin, smax) as u128 & m)),
                SsubSat => one(cv((sx - sy).clamp(smin, smax) as u128 & m)),
                Umax => one(cv(x.max(y))),
                Umin => one(cv(x.min(y))),
                Smax => one(cv(sx.max(sy) as u128 & m)),
                Smin => one(cv(sx.min(sy) as u128 & m)),
                Ctlz | Cttz | Ctpop | Bitrev => one(cv(bits(k, w, x))),
                Bswap => {
                    let n = w / 8;
                    let mut r = 0;
                    for i in 0..n {
                        r = r << 8 | (x >> (8 * i) & 0xff);
                    }
                    one(cv(r))
                }
                Abs => one(cv(sx.wrapping_abs() as u128 & m)),
                Fshl | Fshr => {
                    let sh = (a[2].c % w as u128) as u32;
                    let r = if sh == 0 {
                        if k == Fshl {
                            x
                        } else {
                            y
                        }
                    } else if k == Fshl {
                        (x << sh | y >> (w - sh)) & m
                    } else {
                        (x << (w - sh) | y >> sh) & m
                    };
                    one(cv(r))
                }
                // result width is 8 for ucmp/scmp
                Ucmp => one(cv(match x.cmp(&y) {
                    std::cmp::Ordering::Less => 0xff,
                    std::cmp::Ordering::Equal => 0,
                    _ => 1,
                })),
                Scmp => one(cv(match sx.cmp(&sy) {
                    std::cmp::Ordering::Less => 0xff,
                    std::cmp::Ordering::Equal => 0,
                    _ => 1,
                })),
                _ => err("intrinsic"),
            };
        }
        let x = self.ex(a[0], w);
        let p = &mut self.pool;
        match k {
            Ctlz | Cttz | Ctpop | Bitrev => {
                if let Some(e) = p.ut_map(x, w, |v| bits(k, w, v as u128) as u64) {
                    let v = self.ev(e);
                    return one(v);
                }
                if k == Ctpop || k == Bitrev {
                    let c = self.concretize(s, a[0], w)?;
                    return one(cv(bits(k, w, c)));
                }
                // ite chain over the position of the first set bit
                let mut acc = p.cst(w, w as u128);
                for i in 0..w {
                    let bit = if k == Ctlz { i } else { w - 1 - i };
                    let b = p.extract(x, bit, 1);
                    let c = p.cst(w, if k == Ctlz { (w - 1 - bit) as u128 } else { bit as u128 });
                    acc = p.ite(b, c, acc);
                }
                let v = self.ev(acc);
                return one(v);
            }
            Bswap => {
                let n = w / 8;
                let mut acc = p.extract(x, 0, 8);
                for i in 1..n {
                    let b = p.extract(x, 8 * i, 8);
                    acc = p.concat(acc, b);
                }
                let v = self.ev(acc);
                return one(v);
            }
            Abs => {
                let z = p.cst(w, 0);
                let n = p.bin(BinOp::Sub, w, z, x);
                let c = p.bin(BinOp::Slt, w, x, z);
                let e = p.ite(c, n, x);
                let v = self.ev(e);
                return one(v);
            }
            Fshl | Fshr => {
                let sh = self.concretize(s, a[2], w)? as u32 % w;
                let y = self.ex(a[1], w);
                let p = &mut self.pool;
                let e = if sh == 0 {
                    if k == Fshl {
                        x
                    } else {
                        y
                    }
                } else {
                    let l = if k == Fshl { sh } else { w - sh };
                    let h = p.extract(x, 0, w - l);
                    let lo = p.extract(y, w - l, l);
                    p.concat(h, lo)
                };
                let v = self.ev(e);
                return one(v);
            }
            _ => {}
        }
        let y = self.ex(a[1], w);
        let p = &mut self.pool;
        match k {
            UaddO | UaddSat => {
                let r = p.bin(BinOp::Add, w, x, y);
                let o = p.bin(BinOp::Ult, w, r, x);
                if k == UaddO {
                    let (r, o) = (self.ev(r), self.ev(o));
                    return Ok(([r, o], 2));
                }
                let mx = p.cst(w, m);
                let e = p.ite(o, mx, r);
                let v = self.ev(e);
                one(v)
            }
            UsubO | UsubSat => {
                let r = p.bin(BinOp::Sub, w, x, y);
                let o = p.bin(BinOp::Ult, w, x, y);
                if k == UsubO {
                    let (r, o) = (self.ev(r), self.ev(o));
                    return Ok(([r, o], 2));
                }
                let z = p.cst(w, 0);
                let e = p.ite(o, z, r);
                let v = self.ev(e);
                one(v)
            }
            UmulO => {
                let r = p.bin(BinOp::Mul, w, x, y);
                let cst = p.as_const(x).map(|c| (c, y)).or(p.as_const(y).map(|c| (c, x)));
                let o = if let Some((c, z)) = cst {
                    if c == 0 {
                        p.t_false
                    } else {
                        let l = p.cst(w, m / c);
                        p.bin(BinOp::Ult, w, l, z)
                    }
                } else {
                    if w > 64 {
                        return err("umul wide");
                    }
                    let xx = p.zext(x, 2 * w);
                    let yy = p.zext(y, 2 * w);
                    let q = p.bin(BinOp::Mul, 2 * w, xx, yy);
                    let h = p.extract(q, w, w);
                    let z = p.cst(w, 0);
                    p.bin(BinOp::Ne, w, h, z)
                };
                let (r, o) = (self.ev(r), self.ev(o));
                Ok(([r, o], 2))
            }
            SaddO | SsubO => {
                let op = if k == SaddO { BinOp::Add } else { BinOp::Sub };
                let r = p.bin(op, w, x, y);
                // exact via one extra bit (kept simple for unary arguments)
                let o = {
                    let z = p.cst(w, 0);
                    let sx = p.bin(BinOp::Slt, w, x, z);
                    let sy = p.bin(BinOp::Slt, w, y, z);
                    let sr = p.bin(BinOp::Slt, w, r, z);
                    let same = {
                        let q = p.bin(BinOp::Xor, 1, sx, sy);
                        if k == SaddO {
                            p.not(q)
                        } else {
                            q
                        }
                    };
                    let flip = p.bin(BinOp::Xor, 1, sx, sr);
                    p.and(same, flip)
                };
                let (r, o) = (self.ev(r), self.ev(o));
                Ok(([r, o], 2))
            }
            SmulO => {
                let r = p.bin(BinOp::Mul, w, x, y);
                let cst = p.as_const(x).map(|c| (c, y)).or(p.as_const(y).map(|c| (c, x)));
                let smax = (m >> 1) as i128;
                let smin = -smax - 1;
                let o = match cst {
                    Some((c, z)) if sext128(c, w) > 0 => {
                        let c = sext128(c, w);
                        let hi = p.cst(w, (smax / c) as u128);
                        let lo = p.cst(w, (smin / c) as u128 & m);
                        let q1 = p.bin(BinOp::Slt, w, hi, z);
                        let q2 = p.bin(BinOp::Slt, w, z, lo);
                        p.or(q1, q2)
                    }
                    Some((0, _)) => p.t_false,
                    _ => {
                        if w > 64 {
                            return err("smul wide");
                        }
                        let xx = p.sext(x, 2 * w);
                        let yy = p.sext(y, 2 * w);
                        let q = p.bin(BinOp::Mul, 2 * w, xx, yy);
                        let rr = p.sext(r, 2 * w);
                        p.bin(BinOp::Ne, 2 * w, q, rr)
                    }
                };
                let (r, o) = (self.ev(r), self.ev(o));
                Ok(([r, o], 2))
            }
            SaddSat | SsubSat => err("signed saturating arithmetic on symbolic values"),
            Umax | Umin | Smax | Smin => {
                let c = match k {
                    Umax => p.bin(BinOp::Ult, w, y, x),
                    Umin => p.bin(BinOp::Ult, w, x, y),
                    Smax => p.bin(BinOp::Slt, w, y, x),
                    _ => p.bin(BinOp::Slt, w, x, y),
                };
                let e = p.ite(c, x, y);
                let v = self.ev(e);
                one(v)
            }
            Ucmp | Scmp => {
                let lt = p.bin(if k == Ucmp { BinOp::Ult } else { BinOp::Slt }, w, x, y);
                let eq = p.bin(BinOp::Eq, w, x, y);
                let (c1, c0, cm) = (p.cst(8, 1), p.cst(8, 0), p.cst(8, 0xff));
                let r = p.ite(eq, c0, c1);
                let r = p.ite(lt, cm, r);
                let v = self.ev(r);
                one(v)
            }
            _ => err(format!("intrinsic {:?} on symbolic values", k)),
        }
    }

    fn hook(&mut self, s: &mut State, h: Hook, callee: u32, a: &[V]) -> R<Vec<V>> {
        self.fexec[callee as usize] += 1;
        match h {
            Hook::Bcmp | Hook::Memcmp => {
                let n = self.concretize(s, a[2], 64)? as u64;
                let p = self.concretize(s, a[0], 64)? as u64;
                let q = self.concretize(s, a[1], 64)? as u64;
                let x = self.bytes(s, p, n, "compare")?;
                let y = self.bytes(s, q, n, "compare")?;
                if x.iter().chain(y.iter()).all(|b| b.1 == 0) {
                    let r = x.iter().map(|b| b.0).cmp(y.iter().map(|b| b.0));
                    let c: u128 = match r {
                        std::cmp::Ordering::Less => 0xffff_ffff,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return Ok(vec![cv(c)]);
                }
                if h == Hook::Bcmp {
                    let mut eq = self.pool.t_true;
                    for i in 0..n as usize {
                        let l = self.bex(s, x[i]);
                        let r = self.bex(s, y[i]);
                        let q = self.pool.bin(BinOp::Eq, 8, l, r);
                        eq = self.pool.and(eq, q);
                        if eq == self.pool.t_false {
                            break;
                        }
                    }
                    let ne = self.pool.not(eq);
                    let e = self.pool.zext(ne, 32);
                    return Ok(vec![self.ev(e)]);
                }
                let mut acc = self.pool.cst(32, 0);
                for i in (0..n as usize).rev() {
                    let l = self.bex(s, x[i]);
                    let r = self.bex(s, y[i]);
                    let q = self.pool.bin(BinOp::Eq, 8, l, r);
                    let lt = self.pool.bin(BinOp::Ult, 8, l, r);
                    let (c1, cm) = (self.pool.cst(32, 1), self.pool.cst(32, 0xffff_ffff));
                    let d = self.pool.ite(lt, cm, c1);
                    acc = self.pool.ite(q, acc, d);
                }
                Ok(vec![self.ev(acc)])
            }
            Hook::Strlen => {
                let p = self.concretize(s, a[0], 64)? as u64;
                let mut n = 0;
                loop {
                    let v = self.load(s, p + n, 8)?;
                    if v.e != 0 {
                        return err("strlen of symbolic bytes");
                    }
                    if v.c == 0 {
                        return Ok(vec![cv(n as u128)]);
                    }
                    n += 1;
                }
            }
            Hook::MemchrAligned | Hook::MemrchrAligned => {
                // (x: u8, text: &[u8]) -> Option<usize>; the SWAR loop is replaced by its bytewise specification
                let n = self.concretize(s, a[2], 64)? as u64;
                let p = self.concretize(s, a[1], 64)? as u64;
                let b = self.bytes(s, p, n, "memchr")?;
                let x = self.ex(a[0], 8);
                for k in 0..n as usize {
                    let i = if h == Hook::MemchrAligned { k } else { n as usize - 1 - k };
                    let l = self.bex(s, b[i]);
                    let q = self.pool.bin(BinOp::Eq, 8, l, x);
                    if self.branch(s, q)? {
                        return Ok(vec![cv(1), cv(i as u128)]);
                    }
                }
                Ok(vec![cv(0), cv(0)])
            }
            Hook::Memchr | Hook::Memrchr => {
                let n = self.concretize(s, a[2], 64)? as u64;
                let p = self.concretize(s, a[0], 64)? as u64;
                let b = self.bytes(s, p, n, "memchr")?;
                let x = self.ex(a[1], 32);
                let x = self.pool.extract(x, 0, 8);
                for k in 0..n as usize {
                    let i = if h == Hook::Memchr { k } else { n as usize - 1 - k };
                    let l = self.bex(s, b[i]);
                    let q = self.pool.bin(BinOp::Eq, 8, l, x);
                    if self.branch(s, q)? {
                        return Ok(vec![cv((p + i as u64) as u128)]);
                    }
                }
                Ok(vec![cv(0)])
            }
            Hook::HashOne => Ok(vec![cv(0x5bd1_e995_1234_5678)]),
            Hook::Malloc | Hook::Calloc => {
                let mut n = self.concretize(s, a[0], 64)? as u64;
                if h == Hook::Calloc {
                    n = n.wrapping_mul(self.concretize(s, a[1], 64)? as u64);
                }
                if n > 1 << 26 {
                    return err(format!("allocation of {} bytes", n));
                }
                let id = self.alloc(s, n);
                Ok(vec![cv((id as u128) << 32)])
            }
            Hook::PosixMemalign => {
                let n = self.concretize(s, a[2], 64)? as u64;
                let id = self.alloc(s, n);
                let p = self.concretize(s, a[0], 64)? as u64;
                self.store(s, p, cv((id as u128) << 32), 64)?;
                Ok(vec![cv(0)])
            }
            Hook::Realloc => {
                let p = self.concretize(s, a[0], 64)? as u64;
                let n = self.concretize(s, a[1], 64)? as u64;
                if n > 1 << 26 {
                    return err(format!("allocation of {} bytes", n));
                }
                let id = self.alloc(s, n);
                if p != 0 {
                    let old = match s.mem.get((p >> 32) as usize) {
                        Some(Some(o)) => o.data.len() as u64,
                        _ => return self.memerr("realloc", p, n),
                    };
                    self.memcpy(s, (id as u64) << 32, p, old.min(n))?;
                    s.mem[(p >> 32) as usize] = None;
                    s.free.push((p >> 32) as u32);
                }
                Ok(vec![cv((id as u128) << 32)])
            }
            Hook::Free => {
                let p = self.concretize(s, a[0], 64)? as u64;
                if p != 0 {
                    let i = (p >> 32) as usize;
                    if p & 0xffff_ffff != 0 || !matches!(s.mem.get(i), Some(Some(_))) {
                        return self.memerr("free", p, 0);
                    }
                    s.mem[i] = None;
                    s.free.push(i as u32);
                }
                Ok(vec![])
            }
            Hook::Errno => Ok(vec![cv((self.env.errno_id as u128) << 32)]),
            Hook::Syscall => {
                let nr = self.concretize(s, a[0], 64)?;
                if nr == 278 {
                    return self.getrandom(s, a[1], a[2]);
                }
                if nr == 178 {
                    return Ok(vec![cv(1)]); // gettid
                }
                err(format!("system call {}", nr))
            }
            Hook::Getrandom => self.getrandom(s, a[0], a[1]),
            Hook::ClockGettime => {
                let p = self.concretize(s, a[1], 64)? as u64;
                self.store(s, p, cv(1_700_000_000), 64)?;
                self.store(s, p + 8, cv(123_456_789), 64)?;
                Ok(vec![cv(0)])
            }
            Hook::RetZero => Ok(vec![cv(0)]),
            Hook::RetMinus1 => Ok(vec![cv(0xffff_ffff)]),
            Hook::TsdCreate => {
                s.tsd.push(0);
                let k = s.tsd.len() as u128 - 1;
                let p = self.concretize(s, a[0], 64)? as u64;
                self.store(s, p, cv(k), 32)?;
                Ok(vec![cv(0)])
            }
            Hook::TsdGet => {
                let k = self.concretize(s, a[0], 32)? as usize;
                Ok(vec![cv(s.tsd.get(k).copied().unwrap_or(0) as u128)])
            }
            Hook::TsdSet => {
                let k = self.concretize(s, a[0], 32)? as usize;
                let v = self.concretize(s, a[1], 64)? as u64;
                if k < s.tsd.len() {
                    s.tsd[k] = v;
                }
                Ok(vec![cv(0)])
            }
            Hook::Write => Ok(vec![a[2]]),
            Hook::Abort => Err(Stop::Violation("abort".into())),
            Hook::Panic => {
                let msg = self.panic_message(s, a).unwrap_or_default();
                Err(Stop::Violation(format!("panic {}", msg)))
            }
            Hook::SxByte => {
                let p = self.concretize(s, a[0], 64)? as u64;
                let mut m = [0u64; 4];
                for i in 0..4 {
                    m[i] = self.load(s, p + 8 * i as u64, 64)?.c as u64;
                }
                let v = s.nvars;
                if v >= 128 {
                    return err("more than 128 symbolic inputs");
                }
                if !mask_any(&m) {
                    return Err(Stop::Assumed);
                }
                let e = self.pool.declare(v, 8, m);
                self.new_var(s, v, e, m, mask_first(&m));
                Ok(vec![self.ev(e)])
            }
            Hook::SxWide => {
                let w = self.concretize(s, a[0], 32)? as u32;
                let v = s.nvars;
                if v >= 128 {
                    return err("more than 128 symbolic inputs");
                }
                let e = self.pool.declare(v, w, FULL);
                self.new_var(s, v, e, FULL, 0);
                s.exact = false;
                let e = self.pool.zext(e, 64);
                Ok(vec![self.ev(e)])
            }
            Hook::SxAssume => {
                let v = a[0];
                if v.e == 0 {
                    return if v.c & 1 == 1 { Ok(vec![]) } else { Err(Stop::Assumed) };
                }
                let e = self.bool_of(v);
                if s.rpos < s.rlen {
                    // replay: feasibility was established before
                    self.add(s, e);
                    return Ok(vec![]);
                }
                match self.feasible(s, e, false)? {
                    Some(m) => {
                        s.model = m;
                        let m0 = s.mass;
                        self.add(s, e);
                        if s.exact {
                            self.st.mass += m0 - s.mass;
                        }
                        Ok(vec![])
                    }
                    None => Err(Stop::Assumed),
                }
            }
            Hook::SxAssert => {
                let id = self.concretize(s, a[1], 32)?;
                let v = a[0];
                s.asserts += 1;
                if v.e == 0 {
                    if v.c & 1 == 1 {
                        return Ok(vec![]);
                    }
                    return Err(Stop::Violation(format!("assertion {} failed", id)));
                }
                let e = self.bool_of(v);
                if s.rpos < s.rlen {
                    return Ok(vec![]);
                }
                s.sym_asserts += 1;
                if let Some(m) = self.feasible(s, e, true)? {
                    s.model = m;
                    return Err(Stop::Violation(format!("assertion {} failed", id)));
                }
                Ok(vec![])
            }
            Hook::SxFail => {
                let id = self.concretize(s, a[0], 32)?;
                Err(Stop::Violation(format!("assertion {} failed", id)))
            }
            Hook::SxCover => {
                let id = self.concretize(s, a[0], 32)?;
                s.covers |= 1u64 << (id & 63);
                Ok(vec![])
            }
            Hook::SxParam => {
                let i = self.concretize(s, a[0], 32)? as usize;
                Ok(vec![cv(self.job.params.get(i).copied().unwrap_or(0) as u128)])
            }
            Hook::SxEmit => {
                let p = self.concretize(s, a[0], 64)? as u64;
                let n = self.concretize(s, a[1], 64)? as u64;
                let b = self.bytes(s, p, n, "emit")?;
                s.emits = Some(Rc::new(vec![Emit { prev: s.emits.take(), bytes: b }]));
                Ok(vec![])
            }
            Hook::Unsupported => err(format!("call to unmodelled function {}", self.env.prog.funcs[callee as usize].name)),
            Hook::None => unreachable!(),
        }
    }

    /// fixed pseudo-random bytes (stub)
    fn getrandom(&mut self, s: &mut State, p: V, n: V) -> R<Vec<V>> {
        let p = self.concretize(s, p, 64)? as u64;
        let n = self.concretize(s, n, 64)? as u64;
        for i in 0..n {
            s.rng ^= s.rng << 13;
            s.rng ^= s.rng >> 7;
            s.rng ^= s.rng << 17;
            let b = (s.rng >> 24) as u8;
            self.store(s, p + i, cv(b as u128), 8)?;
        }
        Ok(vec![cv(n as u128)])
    }

    fn bool_of(&mut self, v: V) -> E {
        if self.pool.width(v.e) == 1 {
            v.e
        } else {
            self.pool.extract(v.e, 0, 1)
        }
    }

    fn new_var(&mut self, s: &mut State, v: usize, e: E, m: Mask, dflt: u64) {
        s.nvars += 1;
        s.dom.push(m);
        // the variant identifier; a domain of one value makes the input a constant
        s.vids.push(match self.pool.k[e as usize] {
            K::Ut { var, .. } | K::Var(var) => var,
            _ => v as u16,
        });
        if s.model.len() <= v {
            s.model.push(dflt);
        }
    }

    fn panic_message(&mut self, s: &mut State, a: &[V]) -> Option<String> {
        // PanicInfo { message, location: &Location { file: (ptr,len), line, col } ... }: find the Location pointer
        let p = a.first()?.c as u64;
        for k in 0..3u64 {
            let l = self.load(s, p + 8 * k, 64).ok()?;
            if l.e != 0 || l.c as u64 >> 32 < GCONST_BASE {
                continue;
            }
            let q = l.c as u64;
            let d = self.obj(s, q >> 32)?;
            let off = (q & 0xffff_ffff) as usize;
            if d.len() < off + 24 {
                continue;
            }
            let rd = |o: usize| u64::from_le_bytes(d[off + o..off + o + 8].try_into().unwrap());
            let (fp, fl, lc) = (rd(0), rd(8), rd(16));
            if let Some(fd) = self.obj(s, fp >> 32) {
                let o = (fp & 0xffff_ffff) as usize;
                if fl < 300 && o + fl as usize <= fd.len() && lc & 0xffff_ffff < 1_000_000 {
                    if let Ok(t) = std::str::from_utf8(&fd[o..o + fl as usize]) {
                        if t.ends_with(".rs") {
                            return Some(format!("{}:{}", t, lc & 0xffff_ffff));
                        }
                    }
                }
            }
        }
        None
    }
}

fn bits(k: Intr, w: u32, x: u128) -> u128 {
    match k {
        Intr::Ctlz => (x.leading_zeros() - (128 - w)) as u128,
        Intr::Cttz => {
            if x == 0 {
                w as u128
            } else {
                x.trailing_zeros() as u128
            }
        }
        Intr::Ctpop => x.count_ones() as u128,
        _ => x.reverse_bits() >> (128 - w),
    }
}

impl Shared {
    fn stop_if_done(&self) {}
}

pub fn run_job(env: &Env, job: &Job, nthreads: usize, secs: f64, timeout_ms: u32, max_findings: usize, max_steps: u64, nsamples: usize) -> (Arc<Shared>, f64) {
    let sh = Arc::new(Shared {
        queue: Mutex::new(vec![WorkItem { dec: vec![], model: vec![] }]),
        cond: Condvar::new(),
        idle: AtomicU64::new(0),
        qlen: AtomicU64::new(1),
        stop: AtomicBool::new(false),
        nworkers: nthreads as u64,
        findings: Mutex::new(vec![]),
        errors: Mutex::new(vec![]),
        hangs: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        stats: Mutex::new(Stats::default()),
        fexec: Mutex::new(vec![0; env.prog.funcs.len()]),
        deadline: Instant::now() + Duration::from_secs_f64(secs),
        cut: AtomicBool::new(false),
        max_findings,
        max_steps,
        nsamples,
        fork_sites: Mutex::new(HashMap::new()),
    });
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..nthreads {
            let sh = &sh;
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let mut w = Worker::new(env, job, sh, timeout_ms);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.run()));
                    if let Err(p) = r {
                        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        sh.errors.lock().unwrap().push(format!("engine panic: {}", m));
                        sh.stop.store(true, Ordering::SeqCst);
                        sh.cond.notify_all();
                    }
                })
                .unwrap();
        }
    });
    (sh.clone(), t0.elapsed().as_secs_f64())
}
