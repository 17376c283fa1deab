//! Path-forking symbolic execution of LLVM IR.
macro_rules! timed {
    ($n:expr, $self:ident, $e:expr) => {{
        let t = std::time::Instant::now();
        let r = $e;
        if $self.cfg.verbose && t.elapsed().as_millis() > 500 {
            eprintln!("{} line {} took {:.1}s", $n, line!(), t.elapsed().as_secs_f64());
        }
        r
    }};
}
use crate::ir::*;
use crate::mem::*;
use crate::smt::{Res, Solver};
use crate::term::*;
use rustc_hash::{FxHashMap, FxHashSet};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Vec<(u64, u64, Option<Rc<Obj>>)>,
    pub heap_next: u64,
    pub stack_next: u64,
    pub glob: FxHashMap<u64, Rc<Obj>>,
    pub pc: Vec<T>,
    pub known: FxHashMap<T, bool>,
    pub iv: FxHashMap<T, (u128, u128)>,
    pub model: Option<Rc<Vec<u128>>>,
    /// the last model known for a prefix of this path
    pub hint: Option<Rc<Vec<u128>>>,
    pub names: FxHashMap<String, u32>,
    pub inputs: Vec<(String, T)>,
    pub observes: Vec<(String, V)>,
    pub nopanic: Option<String>,
    pub covers: Vec<String>,
    pub steps: u64,
    pub hashes: Vec<(Vec<MB>, Vec<T>)>,
}

pub enum End {
    Done,
    Panic,
    Infeasible,
    Killed(String),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub model: Vec<(String, u128)>,
    pub how: String,
}

pub struct AssertStat {
    pub checked: u64,
    pub trivially: u64,
    pub by_solver: u64,
    pub undecided: u64,
}

pub struct CoverHit {
    pub label: String,
    pub model: Option<Vec<(String, u128)>>,
    pub observes: Vec<(String, u128)>,
}

pub struct Cfg {
    pub entry: String,
    pub prop: String,
    pub params: FxHashMap<String, u64>,
    pub feas_ms: u64,
    pub decide_s: u64,
    pub max_paths: u64,
    pub verbose: bool,
    pub stop_first: bool,
    pub deadline: std::time::Instant,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ic {
    None,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Panic,
    FormatInner,
    FmtWrite,
    Nothing,
    RandomKeys,
    FindPda,
    TryFindPda,
    CreatePda,
    Hashv,
    Hash,
    Sym,
    Intrin,
    DropCheck,
}

pub struct Engine {
    pub m: Module,
    pub s: Store,
    pub sol: Solver,
    pub cfg: Cfg,
    ic: Vec<Option<Ic>>,
    pub funcs_run: FxHashSet<u32>,
    pub work: Vec<State>,
    pub paths: u64,
    pub paths_panic: u64,
    pub paths_done: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: BTreeMap<String, AssertStat>,
    pub violations: Vec<Violation>,
    pub undecided: Vec<String>,
    pub errors: BTreeSet<String>,
    pub covers: BTreeMap<String, CoverHit>,
    pub cover_seen: BTreeMap<String, u64>,
    pub nopanic_stat: BTreeMap<String, AssertStat>,
    pub engines: BTreeMap<String, u64>,
    pub fork_sites: FxHashMap<String, u64>,
    pda_cache: FxHashMap<Vec<u8>, Option<([u8; 32], u8)>>,
    /// depth of speculative execution (two-sided branches merged at their join)
    spec: u32,
    /// join block per (function, block)
    joins: FxHashMap<u32, Rc<Vec<u32>>>,
    merge_site: FxHashMap<(u32, u32), (u32, u32)>,
    spec_left: u32,
    pub merges: u64,
}

type R<X> = Result<X, Stop>;
pub enum Stop {
    Panic(String),
    Infeasible,
    Err(String),
    Spec,   // speculation cannot continue
    Refork, // state was split; the current one must be re-executed from the same instruction
    End,
}

fn fits(w: u32) -> u8 {
    assert!(w <= 128, "width {} unsupported", w);
    w as u8
}

impl Engine {
    pub fn new(m: Module, cfg: Cfg) -> Engine {
        Engine {
            m,
            s: Store::new(),
            sol: Solver::new(),
            cfg,
            ic: vec![],
            funcs_run: Default::default(),
            work: vec![],
            paths: 0,
            paths_panic: 0,
            paths_done: 0,
            forks: 0,
            steps: 0,
            asserts: Default::default(),
            violations: vec![],
            undecided: vec![],
            errors: Default::default(),
            covers: Default::default(),
            cover_seen: Default::default(),
            nopanic_stat: Default::default(),
            engines: Default::default(),
            fork_sites: Default::default(),
            spec: 0,
            joins: Default::default(),
            merge_site: Default::default(),
            spec_left: 0,
            merges: 0,
            pda_cache: Default::default(),
        }
    }

    fn initial(&mut self) -> State {
        let r = self.m.fn_ref(&self.cfg.entry.clone());
        let f = self.m.func(r.id).unwrap_or_else(|| panic!("no such harness {}", self.cfg.entry));
        let mut st = State {
            frames: vec![],
            heap: vec![],
            heap_next: HEAP_BASE,
            stack_next: STACK_BASE,
            glob: Default::default(),
            pc: vec![],
            known: Default::default(),
            iv: Default::default(),
            model: Some(Rc::new(vec![])),
            hint: None,
            names: Default::default(),
            inputs: vec![],
            observes: vec![],
            nopanic: None,
            covers: vec![],
            steps: 0,
            hashes: vec![],
        };
        self.push_frame(&mut st, f, vec![], u32::MAX, u32::MAX);
        st
    }

    pub fn run(&mut self) {
        let st = self.initial();
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.paths >= self.cfg.max_paths {
                self.errors.insert(format!("path limit {} reached", self.cfg.max_paths));
                break;
            }
            if std::time::Instant::now() > self.cfg.deadline {
                self.errors.insert("time limit reached".into());
                break;
            }
            if self.cfg.stop_first && !self.violations.is_empty() {
                break;
            }
            let end = self.run_path(&mut st);
            self.paths += 1;
            match end {
                End::Done => self.paths_done += 1,
                End::Panic => self.paths_panic += 1,
                End::Infeasible => {}
                End::Killed(e) => {
                    // a branch whose feasibility check timed out may have led here: ask properly
                    if st.model.is_none() && !e.contains("limit") {
                        let pc = st.pc.clone();
                        match timed!("decide", self, self.sol.decide(&mut self.s, &pc, self.cfg.decide_s, st.hint.as_ref().map(|h| &h[..]))) {
                            (Res::Unsat, _) => continue,
                            (Res::Unknown, _) => {
                                self.undecided.push(format!("path of unknown feasibility ends with: {}", e));
                                continue;
                            }
                            _ => {}
                        }
                    }
                    if self.cfg.verbose {
                        eprintln!("KILLED {}\n{}", e, self.backtrace(&st));
                    }
                    let bt = self.backtrace(&st);
                    let first: Vec<&str> = bt.lines().take(6).collect();
                    self.errors.insert(format!("{} at {}", e, first.join(" < ")));
                }
            }
            self.finish_covers(&st);
        }
    }

    fn finish_covers(&mut self, st: &State) {
        // record label hits with a model when we have one
        for c in st.covers.clone() {
            *self.cover_seen.entry(c.clone()).or_default() += 1;
            let have = self.covers.get(&c).map_or(false, |x| x.model.is_some());
            if have {
                continue;
            }
            if let Some(m) = self.full_model(st) {
                let mut memo = Default::default();
                let mut obs = vec![];
                for (n, v) in &st.observes {
                    let x = match v {
                        V::C(c) => *c,
                        V::T(t) => self.s.eval(*t, &m, &mut memo),
                        _ => 0,
                    };
                    obs.push((n.clone(), x));
                }
                let inp = self.model_inputs(st, &m);
                self.covers.insert(
                    c.clone(),
                    CoverHit {
                        label: c,
                        model: Some(inp),
                        observes: obs,
                    },
                );
            } else {
                self.covers.entry(c.clone()).or_insert(CoverHit {
                    label: c,
                    model: None,
                    observes: vec![],
                });
            }
        }
    }

    fn model_inputs(&self, st: &State, m: &[u128]) -> Vec<(String, u128)> {
        st.inputs
            .iter()
            .map(|(n, t)| {
                let idx = self.s.n(*t).v as usize;
                (n.clone(), m.get(idx).copied().unwrap_or(self.s.lo[*t as usize]))
            })
            .collect()
    }

    fn full_model(&mut self, st: &State) -> Option<Vec<u128>> {
        if let Some(m) = &st.model {
            return Some(self.pad(m));
        }
        let pc = st.pc.clone();
        match timed!("feas", self, self.sol.feasible(&mut self.s, &pc, self.cfg.feas_ms * 4, st.hint.as_ref().map(|h| &h[..]))) {
            Res::Sat(m) => Some(self.model_vec(&m, None)),
            _ => None,
        }
    }
    fn pad(&self, m: &[u128]) -> Vec<u128> {
        let mut v = m.to_vec();
        for i in v.len()..self.s.var_terms.len() {
            v.push(self.s.lo[self.s.var_terms[i] as usize]);
        }
        v
    }
    fn model_vec(&self, m: &FxHashMap<u32, u128>, base: Option<&[u128]>) -> Vec<u128> {
        let mut v = self.pad(base.unwrap_or(&[]));
        for (k, x) in m {
            v[*k as usize] = *x;
        }
        v
    }
    fn holds(&self, lits: &[T], m: &[u128]) -> bool {
        let mut memo = Default::default();
        lits.iter().all(|l| self.s.eval(*l, m, &mut memo) == 1)
    }

    pub fn backtrace(&self, st: &State) -> String {
        let mut o = String::new();
        for f in st.frames.iter().rev().take(40) {
            o.push_str(&format!("{} bb{} ip{}\n", demangle(&f.func.name), f.bb, f.ip));
        }
        o
    }

    fn run_path(&mut self, st: &mut State) -> End {
        loop {
            match self.run_chunk(st) {
                Ok(()) => return End::Done,
                Err(Stop::Refork) => continue,
                Err(Stop::End) => return End::Done,
                Err(Stop::Infeasible) => return End::Infeasible,
                Err(Stop::Err(e)) => return End::Killed(e),
                Err(Stop::Spec) => return End::Killed("speculation escaped".into()),
                Err(Stop::Panic(why)) => {
                    if let Some(msg) = st.nopanic.clone() {
                        self.check_nopanic(st, &msg, &why);
                    }
                    return End::Panic;
                }
            }
        }
    }

    fn check_nopanic(&mut self, st: &mut State, msg: &str, why: &str) {
        if !self.relevant(msg) {
            return;
        }
        let pc = st.pc.clone();
        let model = if let Some(m) = &st.model {
            Some((self.pad(m), "path model".to_string()))
        } else {
            match timed!("decide", self, self.sol.decide(&mut self.s, &pc, self.cfg.decide_s, st.hint.as_ref().map(|h| &h[..]))) {
                (Res::Sat(m), how) => Some((self.model_vec(&m, None), how)),
                (Res::Unsat, _) => None,
                (Res::Unknown, _) => {
                    self.undecided.push(format!("{} (panic reachable? {})", msg, why));
                    None
                }
            }
        };
        let e = self.nopanic_stat.entry(msg.to_string()).or_insert(AssertStat {
            checked: 0,
            trivially: 0,
            by_solver: 0,
            undecided: 0,
        });
        e.checked += 1;
        if let Some((m, how)) = model {
            let inp = self.model_inputs(st, &m);
            self.violations.push(Violation {
                msg: format!("{} [panic: {}]", msg, why),
                model: inp,
                how,
            });
        } else {
            e.by_solver += 1;
        }
    }

    fn relevant(&self, msg: &str) -> bool {
        // message starts with comma separated property ids, e.g. "C03,C04 text"
        let head = msg.split(' ').next().unwrap_or("");
        self.cfg.prop.is_empty() || head.split(',').any(|x| x == self.cfg.prop || x == "*")
    }

    // ------------------------------------------------------------ frames

    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<V>, ret_dst: u32, normal: u32) {
        self.funcs_run.insert(f.id);
        let mut regs = vec![V::C(0); f.nregs];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                regs[f.params[i] as usize] = a;
            }
        }
        let base = (st.stack_next + 63) / 64 * 64;
        st.stack_next = base + f.frame_size + 64;
        let obj = Rc::new(Obj::new(base, f.frame_size as usize));
        st.frames.push(Frame {
            func: f,
            regs,
            bb: 0,
            ip: 0,
            obj,
            ret_dst,
            normal,
            extra: 0,
        });
    }

    // ------------------------------------------------------------ memory

    fn find<'a>(&'a self, st: &'a State, addr: u64, n: u64) -> Result<(&'a Obj, usize), String> {
        if addr >= STACK_BASE {
            let i = st.frames.partition_point(|f| f.obj.base <= addr);
            if i > 0 {
                let o = &st.frames[i - 1].obj;
                let off = addr - o.base;
                if off + n <= o.data.len() as u64 {
                    return Ok((o, off as usize));
                }
            }
            return Err(format!("bad stack access {:#x}+{}", addr, n));
        }
        if addr >= HEAP_BASE {
            let i = st.heap.partition_point(|h| h.0 <= addr);
            if i > 0 {
                if let (b, sz, Some(o)) = &st.heap[i - 1] {
                    let off = addr - b;
                    if off + n <= *sz {
                        return Ok((o, off as usize));
                    }
                }
            }
            return Err(format!("bad heap access {:#x}+{}", addr, n));
        }
        if addr >= GLOB_BASE {
            let i = self.m.globals.partition_point(|g| g.addr <= addr);
            if i > 0 {
                let g = &self.m.globals[i - 1];
                let off = addr - g.addr;
                if off + n <= g.size {
                    if let Some(o) = st.glob.get(&g.addr) {
                        return Ok((o, off as usize));
                    }
                    return Err("#g".into());
                }
            }
            return Err(format!("bad global access {:#x}+{}", addr, n));
        }
        Err(format!("bad access {:#x}+{}", addr, n))
    }

    fn find_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> Result<(&'a mut Obj, usize), String> {
        if addr >= STACK_BASE {
            let i = st.frames.partition_point(|f| f.obj.base <= addr);
            if i > 0 {
                let o = Rc::make_mut(&mut st.frames[i - 1].obj);
                let off = addr - o.base;
                if off + n <= o.data.len() as u64 {
                    return Ok((o, off as usize));
                }
            }
            return Err(format!("bad stack write {:#x}+{}", addr, n));
        }
        if addr >= HEAP_BASE {
            let i = st.heap.partition_point(|h| h.0 <= addr);
            if i > 0 {
                if let (b, sz, Some(o)) = &mut st.heap[i - 1] {
                    let off = addr - *b;
                    if off + n <= *sz {
                        return Ok((Rc::make_mut(o), off as usize));
                    }
                }
            }
            return Err(format!("bad heap write {:#x}+{}", addr, n));
        }
        if addr >= GLOB_BASE {
            let i = self.m.globals.partition_point(|g| g.addr <= addr);
            if i > 0 {
                let g = self.m.globals[i - 1].clone();
                let off = addr - g.addr;
                if off + n <= g.size {
                    if !g.writable {
                        return Err(format!("write to constant {}", g.name));
                    }
                    let o = st.glob.entry(g.addr).or_insert_with(|| {
                        Rc::new(Obj {
                            base: g.addr,
                            data: g.data.clone(),
                            sym: None,
                        })
                    });
                    return Ok((Rc::make_mut(o), off as usize));
                }
            }
        }
        Err(format!("bad write {:#x}+{}", addr, n))
    }

    fn read_bytes(&self, st: &State, addr: u64, n: u64) -> Result<Vec<MB>, String> {
        if n == 0 {
            return Ok(vec![]);
        }
        match self.find(st, addr, n) {
            Ok((o, off)) => Ok((0..n as usize).map(|i| o.byte(off + i)).collect()),
            Err(e) if e == "#g" => {
                let i = self.m.globals.partition_point(|g| g.addr <= addr);
                let g = &self.m.globals[i - 1];
                let off = (addr - g.addr) as usize;
                Ok(g.data[off..off + n as usize].iter().map(|b| MB::C(*b)).collect())
            }
            Err(e) => Err(e),
        }
    }
    fn write_bytes(&mut self, st: &mut State, addr: u64, b: &[MB]) -> Result<(), String> {
        if b.is_empty() {
            return Ok(());
        }
        let (o, off) = self.find_mut(st, addr, b.len() as u64)?;
        for (i, x) in b.iter().enumerate() {
            match x {
                MB::C(c) => {
                    o.data[off + i] = *c;
                    if let Some(s) = &mut o.sym {
                        s[off + i] = 0;
                    }
                }
                MB::S(t, k) => o.put_sym(off + i, *t, *k),
            }
        }
        Ok(())
    }
    fn conc_bytes(&self, st: &State, addr: u64, n: u64) -> Result<Option<Vec<u8>>, String> {
        let b = self.read_bytes(st, addr, n)?;
        let mut o = Vec::with_capacity(b.len());
        for x in b {
            match x {
                MB::C(c) => o.push(c),
                _ => return Ok(None),
            }
        }
        Ok(Some(o))
    }
    /// assemble little-endian bytes into a value of width bits
    fn assemble(&mut self, b: &[MB], w: u8) -> V {
        if b.iter().all(|x| matches!(x, MB::C(_))) {
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate().take(16) {
                if let MB::C(c) = x {
                    v |= (*c as u128) << (8 * i);
                }
            }
            return V::C(v & mask(w));
        }
        // whole-term fast path
        if let MB::S(t, 0) = b[0] {
            let tw = self.s.w(t);
            let nb = ((tw as usize) + 7) / 8;
            if nb == b.len() && b.iter().enumerate().all(|(i, x)| *x == MB::S(t, i as u32)) {
                if tw == w {
                    return self.norm(t);
                }
                if tw < w {
                    let z = self.s.zext(t, w);
                    return self.norm(z);
                }
                let z = self.s.extract(t, 0, w);
                return self.norm(z);
            }
        }
        // group runs
        let mut acc: Option<T> = None;
        let mut i = 0;
        while i < b.len() {
            let piece = match b[i] {
                MB::C(c) => {
                    // run of constants
                    let mut v = c as u128;
                    let mut n = 1;
                    while i + n < b.len() && n < 16 {
                        if let MB::C(c2) = b[i + n] {
                            v |= (c2 as u128) << (8 * n);
                            n += 1;
                        } else {
                            break;
                        }
                    }
                    i += n;
                    self.s.c(v, 8 * n as u8)
                }
                MB::S(t, k) => {
                    let mut n = 1u32;
                    while i + (n as usize) < b.len() && b[i + n as usize] == MB::S(t, k + n) {
                        n += 1;
                    }
                    i += n as usize;
                    let tw = self.s.w(t) as u32;
                    let lo = 8 * k;
                    let bits = (8 * n).min(tw - lo);
                    let e = self.s.extract(t, lo as u8, bits as u8);
                    self.s.zext(e, (8 * n) as u8)
                }
            };
            acc = Some(match acc {
                None => piece,
                Some(a) => self.s.concat(piece, a),
            });
        }
        let t = acc.unwrap();
        let t = if self.s.w(t) > w { self.s.extract(t, 0, w) } else { t };
        self.norm(t)
    }
    fn norm(&self, t: T) -> V {
        match self.s.cv(t) {
            Some(c) => V::C(c),
            None => V::T(t),
        }
    }
    fn bytes_of(&mut self, v: &V, nbytes: usize, w: u8) -> Vec<MB> {
        match v {
            V::C(c) => {
                let b = c.to_le_bytes();
                (0..nbytes).map(|i| MB::C(if i < 16 { b[i] } else { 0 })).collect()
            }
            V::T(t) => {
                // byte-wise: look through concat for precision
                let tw = self.s.w(*t);
                let full = ((tw as usize) + 7) / 8;
                let mut o = Vec::with_capacity(nbytes);
                let _ = w;
                let n = self.s.n(*t);
                if n.k == K::ZExt && self.s.w(n.a) % 8 == 0 {
                    let ib = (self.s.w(n.a) / 8) as usize;
                    for i in 0..nbytes {
                        o.push(if i < ib { MB::S(n.a, i as u32) } else { MB::C(0) });
                    }
                    return o;
                }
                if n.k == K::ZExt && self.s.w(n.a) == 1 {
                    let b8 = self.s.zext(n.a, 8);
                    for i in 0..nbytes {
                        o.push(if i == 0 { MB::S(b8, 0) } else { MB::C(0) });
                    }
                    return o;
                }
                if n.k == K::Concat && self.s.w(n.b) % 8 == 0 {
                    let lb = (self.s.w(n.b) / 8) as usize;
                    let hw = self.s.w(n.a);
                    let lv = self.norm(n.b);
                    let hv = self.norm(n.a);
                    let lw = self.s.w(n.b);
                    o.extend(self.bytes_of(&lv, lb, lw));
                    let hb = ((hw as usize) + 7) / 8;
                    o.extend(self.bytes_of(&hv, hb, hw));
                    while o.len() < nbytes {
                        o.push(MB::C(0));
                    }
                    o.truncate(nbytes);
                    return o;
                }
                if tw % 8 != 0 {
                    let z = self.s.zext(*t, (full * 8) as u8);
                    for i in 0..nbytes {
                        o.push(if i < full { MB::S(z, i as u32) } else { MB::C(0) });
                    }
                    return o;
                }
                for i in 0..nbytes {
                    o.push(if i < full { MB::S(*t, i as u32) } else { MB::C(0) });
                }
                o
            }
            V::A(_) => panic!("bytes of aggregate"),
        }
    }

    fn load(&mut self, st: &State, ty: Ty, addr: u64) -> R<V> {
        let v = self.load_raw(st, ty, addr)?;
        if let V::T(mut t) = v {
            loop {
                let n = self.s.n(t);
                if n.k != K::Ite {
                    break;
                }
                match self.quick_truth(st, n.a) {
                    Some(true) => t = n.b,
                    Some(false) => t = n.c,
                    None => break,
                }
            }
            return Ok(self.norm(t));
        }
        Ok(v)
    }
    fn load_raw(&mut self, st: &State, ty: Ty, addr: u64) -> R<V> {
        match self.m.k(ty).clone() {
            TyK::Int(_) | TyK::Ptr | TyK::F32 | TyK::F64 => {
                let w = fits(self.m.bits(ty));
                let n = (w as usize + 7) / 8;
                // fast path
                match self.find(st, addr, n as u64) {
                    Ok((o, off)) => {
                        if o.is_conc(off, n) {
                            let mut b = [0u8; 16];
                            b[..n].copy_from_slice(&o.data[off..off + n]);
                            return Ok(V::C(u128::from_le_bytes(b) & mask(w)));
                        }
                        let bs: Vec<MB> = (0..n).map(|i| o.byte(off + i)).collect();
                        Ok(self.assemble(&bs, w))
                    }
                    Err(_) => {
                        let b = self.read_bytes(st, addr, n as u64).map_err(Stop::Err)?;
                        Ok(self.assemble(&b, w))
                    }
                }
            }
            TyK::Struct(f, _) => {
                let mut xs = vec![];
                for (i, t) in f.iter().enumerate() {
                    let o = self.m.struct_off(ty, i);
                    xs.push(self.load(st, *t, addr + o)?);
                }
                Ok(V::A(xs.into()))
            }
            TyK::Arr(n, e) => {
                let s = self.m.size(e);
                let mut xs = vec![];
                for i in 0..n {
                    xs.push(self.load(st, e, addr + i * s)?);
                }
                Ok(V::A(xs.into()))
            }
            TyK::Vect(n, e) => {
                let eb = self.m.bits(e);
                if eb % 8 != 0 {
                    return Err(Stop::Err("vector of sub-byte load".into()));
                }
                let mut xs = vec![];
                for i in 0..n {
                    xs.push(self.load(st, e, addr + (i as u64) * (eb / 8) as u64)?);
                }
                Ok(V::A(xs.into()))
            }
            k => Err(Stop::Err(format!("load of {:?}", k))),
        }
    }
    fn store(&mut self, st: &mut State, ty: Ty, addr: u64, v: &V) -> R<()> {
        match (self.m.k(ty).clone(), v) {
            (TyK::Struct(f, _), V::A(xs)) => {
                for (i, t) in f.iter().enumerate() {
                    let o = self.m.struct_off(ty, i);
                    self.store(st, *t, addr + o, &xs[i])?;
                }
                Ok(())
            }
            (TyK::Arr(n, e), V::A(xs)) => {
                let s = self.m.size(e);
                for i in 0..n {
                    self.store(st, e, addr + i * s, &xs[i as usize])?;
                }
                Ok(())
            }
            (TyK::Vect(n, e), V::A(xs)) => {
                let eb = self.m.bits(e);
                if eb % 8 != 0 {
                    return Err(Stop::Err("vector of sub-byte store".into()));
                }
                for i in 0..n {
                    self.store(st, e, addr + (i as u64) * (eb / 8) as u64, &xs[i as usize])?;
                }
                Ok(())
            }
            (_, V::C(c)) => {
                let n = (self.m.bits(ty) as usize + 7) / 8;
                let b = c.to_le_bytes();
                let (o, off) = self.find_mut(st, addr, n as u64).map_err(Stop::Err)?;
                o.put_conc(off, &b[..n]);
                Ok(())
            }
            (_, V::T(_)) => {
                let w = fits(self.m.bits(ty));
                let n = (w as usize + 7) / 8;
                let b = self.bytes_of(v, n, w);
                self.write_bytes(st, addr, &b).map_err(Stop::Err)
            }
            (k, v) => Err(Stop::Err(format!("store {:?} {:?}", k, v))),
        }
    }

    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let base = (st.heap_next + a - 1) / a * a;
        st.heap_next = base + size.max(1) + 32;
        st.heap.push((base, size, Some(Rc::new(Obj::new(base, size as usize)))));
        base
    }
    fn dealloc(&mut self, st: &mut State, addr: u64) {
        let i = st.heap.partition_point(|h| h.0 <= addr);
        if i > 0 && st.heap[i - 1].0 == addr {
            if i == st.heap.len() {
                st.heap.pop();
            } else {
                st.heap[i - 1].2 = None;
            }
        }
    }

    // ------------------------------------------------------------ path condition

    pub fn add_pc(&mut self, st: &mut State, c: T) {
        if c == TRUE {
            return;
        }
        self.learn(st, c, true);
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
        if let Some(m) = &st.model {
            let mv = self.pad(m);
            if self.holds(&[c], &mv) {
                return;
            }
            st.model = None;
        }
    }
    fn tight(&mut self, st: &mut State, t: T, lo: u128, hi: u128) {
        let (l, h) = self.iv(st, t);
        let (nl, nh) = (l.max(lo), h.min(hi));
        if nl <= nh && (nl, nh) != (l, h) {
            st.iv.insert(t, (nl, nh));
            let n = self.s.n(t);
            if n.k == K::ZExt {
                self.tight(st, n.a, nl, nh);
            }
        }
    }
    fn iv(&self, st: &State, t: T) -> (u128, u128) {
        let n = self.s.n(t);
        if let Some(x) = st.iv.get(&t) {
            return *x;
        }
        if n.k == K::ZExt || (n.k == K::Extract && n.b == 0) {
            let (l, h) = self.iv(st, n.a);
            if h <= mask(n.w) {
                return (l, h);
            }
        }
        (self.s.lo[t as usize], self.s.hi[t as usize])
    }
    fn learn(&mut self, st: &mut State, c: T, pos: bool) {
        let n = self.s.n(c);
        match (n.k, pos) {
            (K::Not, _) => return self.learn(st, n.a, !pos),
            (K::And, true) => {
                self.learn(st, n.a, true);
                self.learn(st, n.b, true);
            }
            (K::Or, false) => {
                self.learn(st, n.a, false);
                self.learn(st, n.b, false);
            }
            (K::Ult, true) => {
                let (la, _) = self.iv(st, n.a);
                let (_, hb) = self.iv(st, n.b);
                if hb > 0 {
                    self.tight(st, n.a, 0, hb - 1);
                }
                self.tight(st, n.b, la.saturating_add(1), u128::MAX);
            }
            (K::Ult, false) => {
                let (_, ha) = self.iv(st, n.a);
                let (lb, _) = self.iv(st, n.b);
                self.tight(st, n.a, lb, u128::MAX);
                self.tight(st, n.b, 0, ha);
            }
            (K::Eq, true) => {
                let (la, ha) = self.iv(st, n.a);
                let (lb, hb) = self.iv(st, n.b);
                self.tight(st, n.a, lb, hb);
                self.tight(st, n.b, la, ha);
            }
            (K::Eq, false) => {
                if let Some(k) = self.s.cv(n.b) {
                    let (la, ha) = self.iv(st, n.a);
                    if la == k && ha > k {
                        self.tight(st, n.a, k + 1, u128::MAX);
                    } else if ha == k && la < k {
                        self.tight(st, n.a, 0, k - 1);
                    }
                }
            }
            _ => {}
        }
        st.known.insert(c, pos);
    }
    fn quick_truth(&self, st: &State, c: T) -> Option<bool> {
        if c == TRUE {
            return Some(true);
        }
        if c == FALSE {
            return Some(false);
        }
        if let Some(b) = st.known.get(&c) {
            return Some(*b);
        }
        let n = self.s.n(c);
        match n.k {
            K::Not => self.quick_truth(st, n.a).map(|b| !b),
            K::And => match (self.quick_truth(st, n.a), self.quick_truth(st, n.b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            K::Or => match (self.quick_truth(st, n.a), self.quick_truth(st, n.b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            K::Ult => {
                let (a, b) = (self.iv(st, n.a), self.iv(st, n.b));
                if a.1 < b.0 {
                    Some(true)
                } else if a.0 >= b.1 {
                    Some(false)
                } else {
                    // a<b known false if b<a known true, or a==b
                    let sw = Node { k: K::Ult, w: 1, a: n.b, b: n.a, c: 0, v: 0 };
                    if let Some(t) = self.s_lookup(&sw) {
                        if st.known.get(&t) == Some(&true) {
                            return Some(false);
                        }
                    }
                    None
                }
            }
            K::Eq => {
                let (a, b) = (self.iv(st, n.a), self.iv(st, n.b));
                if a.1 < b.0 || b.1 < a.0 {
                    Some(false)
                } else if a.0 == a.1 && a == b {
                    Some(true)
                } else {
                    for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                        let sw = Node { k: K::Ult, w: 1, a: x, b: y, c: 0, v: 0 };
                        if let Some(t) = self.s_lookup(&sw) {
                            if st.known.get(&t) == Some(&true) {
                                return Some(false);
                            }
                        }
                    }
                    None
                }
            }
            K::UAddOv => {
                let (a, b) = (self.iv(st, n.a), self.iv(st, n.b));
                let m = mask(self.s.w(n.a));
                if a.1.checked_add(b.1).map_or(false, |x| x <= m) {
                    Some(false)
                } else {
                    None
                }
            }
            K::UMulOv => {
                let (a, b) = (self.iv(st, n.a), self.iv(st, n.b));
                let m = mask(self.s.w(n.a));
                if a.1.checked_mul(b.1).map_or(false, |x| x <= m) {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn s_lookup(&self, n: &Node) -> Option<T> {
        self.s.lookup(n)
    }

    /// constraints connected (by shared variables) to the goal
    fn slice(&self, st: &State, goal: T) -> Vec<T> {
        let mut vars: FxHashSet<u32> = crate::smt::vars_of(&self.s, &[goal]).into_iter().collect();
        let lits: Vec<(T, Vec<u32>)> = st.pc.iter().map(|c| (*c, crate::smt::vars_of(&self.s, &[*c]))).collect();
        let mut used = vec![false; lits.len()];
        let mut out = vec![goal];
        loop {
            let mut ch = false;
            for (i, (c, vs)) in lits.iter().enumerate() {
                if !used[i] && vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    out.push(*c);
                    vars.extend(vs.iter().cloned());
                }
            }
            if !ch {
                break;
            }
        }
        out
    }

    /// feasibility of pc && c. Returns (feasible?, model if known)
    fn feas(&mut self, st: &State, c: T) -> (bool, Option<Rc<Vec<u128>>>) {
        if let Some(m) = &st.model {
            let mv = self.pad(m);
            if self.holds(&[c], &mv) {
                self.sol.stats.model_hits += 1;
                return (true, Some(Rc::new(mv)));
            }
        }
        let lits = self.slice(st, c);
        match timed!("feas", self, self.sol.feasible(&mut self.s, &lits, self.cfg.feas_ms, st.hint.as_ref().map(|h| &h[..]))) {
            Res::Unsat => (false, None),
            Res::Unknown => (true, None),
            Res::Sat(m) => {
                if let Some(b) = &st.model {
                    let mv = self.model_vec(&m, Some(b));
                    let mut l = st.pc.clone();
                    l.push(c);
                    if self.holds(&l, &mv) {
                        return (true, Some(Rc::new(mv)));
                    }
                } else if lits.len() > st.pc.len() {
                    let mv = self.model_vec(&m, None);
                    let mut l = st.pc.clone();
                    l.push(c);
                    if self.holds(&l, &mv) {
                        return (true, Some(Rc::new(mv)));
                    }
                }
                (true, None)
            }
        }
    }

    /// Decide a branch; forks when both sides are feasible. Returns the side taken by `st`.
    /// The other side is pushed to the worklist with `other` applied.
    fn branch(&mut self, st: &mut State, c: T, mut other: impl FnMut(&mut Engine, &mut State, bool)) -> R<bool> {
        if let Some(b) = self.quick_truth(st, c) {
            return Ok(b);
        }
        if self.spec > 0 {
            return Err(Stop::Spec);
        }
        let nc = self.s.not(c);
        let (ft, mt) = self.feas(st, c);
        if !ft {
            self.add_known(st, nc);
            return Ok(false);
        }
        let (ff, mf) = self.feas(st, nc);
        if !ff {
            self.add_known(st, c);
            return Ok(true);
        }
        self.forks += 1;
        if self.cfg.verbose {
            let f = st.frames.last().unwrap();
            let mut k = demangle(&f.func.name);
            if st.frames.len() > 1 {
                k = format!("{} < {}", k, demangle(&st.frames[st.frames.len() - 2].func.name));
            }
            *self.fork_sites.entry(k).or_default() += 1;
        }
        if let Some(m) = &st.model {
            st.hint = Some(m.clone());
        }
        let mut o = st.clone();
        o.model = mf;
        if let Some(m) = &o.model {
            o.hint = Some(m.clone());
        }
        self.add_pc(&mut o, nc);
        other(self, &mut o, false);
        self.work.push(o);
        st.model = mt;
        if let Some(m) = &st.model {
            st.hint = Some(m.clone());
        }
        self.add_pc(st, c);
        Ok(true)
    }
    /// literal implied by the path condition: remember it (it may help elide wraps) without re-solving
    fn add_known(&mut self, st: &mut State, c: T) {
        self.learn(st, c, true);
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
        if let Some(m) = &st.model {
            let mv = self.pad(m);
            if !self.holds(&[c], &mv) {
                st.model = None;
            }
        }
    }

    /// Make a value concrete, forking over its feasible values.
    fn conc(&mut self, st: &mut State, v: &V, w: u8) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::T(t) => {
                let (l, h) = self.iv(st, *t);
                if l == h {
                    return Ok(l);
                }
                if self.spec > 0 {
                    return Err(Stop::Spec);
                }
                // candidate value
                let mut cand = None;
                if let Some(m) = &st.model {
                    let mv = self.pad(m);
                    cand = Some(self.s.eval(*t, &mv, &mut Default::default()));
                } else {
                    let pc = self.slice(st, *t).into_iter().skip(1).collect::<Vec<_>>();
                    match timed!("feas", self, self.sol.feasible(&mut self.s, &pc, self.cfg.feas_ms * 5, st.hint.as_ref().map(|h| &h[..]))) {
                        Res::Sat(m) => {
                            let mv = self.model_vec(&m, None);
                            cand = Some(self.s.eval(*t, &mv, &mut Default::default()));
                        }
                        Res::Unsat => return Err(Stop::Infeasible),
                        Res::Unknown => {}
                    }
                }
                let c = match cand {
                    Some(c) => c,
                    None => return Err(Stop::Err("cannot concretize".into())),
                };
                let k = self.s.c(c, w);
                let e = self.s.eq(*t, k);
                if self.branch(st, e, |_, _, _| {})? {
                    Ok(c)
                } else {
                    Err(Stop::Refork)
                }
            }
            _ => Err(Stop::Err("concretize aggregate".into())),
        }
    }

    // ------------------------------------------------------------ values

    fn op(&self, st: &State, o: &Op) -> V {
        match o {
            Op::K(v) => v.clone(),
            Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
        }
    }
    fn t(&mut self, v: &V, w: u8) -> T {
        match v {
            V::C(c) => self.s.c(*c, w),
            V::T(t) => *t,
            _ => panic!("term of aggregate"),
        }
    }

    fn bin(&mut self, st: &mut State, o: Bin, ty: Ty, a: &V, b: &V) -> R<V> {
        if let (V::A(xs), V::A(ys)) = (a, b) {
            let e = match self.m.k(ty) {
                TyK::Vect(_, e) => *e,
                _ => return Err(Stop::Err("bin on aggregate".into())),
            };
            let mut r = vec![];
            for (x, y) in xs.iter().zip(ys.iter()) {
                r.push(self.bin(st, o, e, x, y)?);
            }
            return Ok(V::A(r.into()));
        }
        if matches!(o, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem) {
            let (x, y) = match (a, b) {
                (V::C(x), V::C(y)) => (*x, *y),
                _ => return Err(Stop::Err("symbolic float".into())),
            };
            if *self.m.k(ty) == TyK::F64 {
                let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                let r = match o {
                    Bin::FAdd => x + y,
                    Bin::FSub => x - y,
                    Bin::FMul => x * y,
                    Bin::FDiv => x / y,
                    _ => x % y,
                };
                return Ok(V::C(r.to_bits() as u128));
            } else {
                let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                let r = match o {
                    Bin::FAdd => x + y,
                    Bin::FSub => x - y,
                    Bin::FMul => x * y,
                    Bin::FDiv => x / y,
                    _ => x % y,
                };
                return Ok(V::C(r.to_bits() as u128));
            }
        }
        let w = fits(self.m.bits(ty));
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match o {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::UDiv => {
                    if y == 0 {
                        return Err(Stop::Err("udiv by zero".into()));
                    }
                    x / y
                }
                Bin::URem => {
                    if y == 0 {
                        return Err(Stop::Err("urem by zero".into()));
                    }
                    x % y
                }
                Bin::SDiv => {
                    if y == 0 {
                        return Err(Stop::Err("sdiv by zero".into()));
                    }
                    sx(x, w).wrapping_div(sx(y, w)) as u128
                }
                Bin::SRem => {
                    if y == 0 {
                        return Err(Stop::Err("srem by zero".into()));
                    }
                    sx(x, w).wrapping_rem(sx(y, w)) as u128
                }
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => (sx(x, w) >> (y.min(w as u128 - 1))) as u128,
                _ => unreachable!(),
            };
            return Ok(V::C(r & m));
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let r = match o {
            Bin::Add => self.s.add(x, y),
            Bin::Sub => self.s.sub(x, y),
            Bin::Mul => self.s.mul(x, y),
            Bin::UDiv => self.s.udiv(x, y),
            Bin::URem => self.s.urem(x, y),
            Bin::SDiv => self.s.sdiv(x, y),
            Bin::SRem => self.s.srem(x, y),
            Bin::And => self.s.and(x, y),
            Bin::Or => self.s.or(x, y),
            Bin::Xor => self.s.xor(x, y),
            Bin::Shl => self.s.shl(x, y),
            Bin::LShr => self.s.lshr(x, y),
            Bin::AShr => self.s.ashr(x, y),
            _ => unreachable!(),
        };
        let _ = st;
        Ok(self.norm(r))
    }

    fn icmp(&mut self, p: Pred, ty: Ty, a: &V, b: &V) -> R<V> {
        if let (V::A(xs), V::A(ys)) = (a, b) {
            let e = match self.m.k(ty) {
                TyK::Vect(_, e) => *e,
                _ => return Err(Stop::Err("icmp aggregate".into())),
            };
            let mut r = vec![];
            for (x, y) in xs.iter().zip(ys.iter()) {
                r.push(self.icmp(p, e, x, y)?);
            }
            return Ok(V::A(r.into()));
        }
        let w = fits(self.m.bits(ty));
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sxx, sy) = (sx(x, w), sx(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sxx < sy,
                Pred::Sle => sxx <= sy,
                Pred::Sgt => sxx > sy,
                Pred::Sge => sxx >= sy,
            };
            return Ok(V::C(r as u128));
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let r = match p {
            Pred::Eq => self.s.eq(x, y),
            Pred::Ne => {
                let e = self.s.eq(x, y);
                self.s.not(e)
            }
            Pred::Ult => self.s.ult(x, y),
            Pred::Ule => self.s.ule(x, y),
            Pred::Ugt => self.s.ult(y, x),
            Pred::Uge => self.s.ule(y, x),
            Pred::Slt => self.s.slt(x, y),
            Pred::Sle => {
                let e = self.s.slt(y, x);
                self.s.not(e)
            }
            Pred::Sgt => self.s.slt(y, x),
            Pred::Sge => {
                let e = self.s.slt(x, y);
                self.s.not(e)
            }
        };
        Ok(self.norm(r))
    }

    fn cast(&mut self, c: Cast, f: Ty, t: Ty, v: &V) -> R<V> {
        match (self.m.k(f).clone(), self.m.k(t).clone()) {
            (TyK::Vect(_, fe), TyK::Vect(_, te)) if c != Cast::BitCast => {
                if let V::A(xs) = v {
                    let mut r = vec![];
                    for x in xs.iter() {
                        r.push(self.cast(c, fe, te, x)?);
                    }
                    return Ok(V::A(r.into()));
                }
            }
            (TyK::Vect(_, fe), TyK::Int(tw)) if c == Cast::BitCast => {
                if let V::A(xs) = v {
                    let ew = self.m.bits(fe);
                    let _ = fits(tw);
                    let mut acc: Option<T> = None;
                    let mut accc = 0u128;
                    let allc = xs.iter().all(|x| matches!(x, V::C(_)));
                    if allc {
                        for (i, x) in xs.iter().enumerate() {
                            if let V::C(c) = x {
                                accc |= c << (i as u32 * ew);
                            }
                        }
                        return Ok(V::C(accc));
                    }
                    for x in xs.iter() {
                        let t = self.t(x, ew as u8);
                        acc = Some(match acc {
                            None => t,
                            Some(a) => self.s.concat(t, a),
                        });
                    }
                    return Ok(self.norm(acc.unwrap()));
                }
            }
            (TyK::Int(_), TyK::Vect(n, te)) if c == Cast::BitCast => {
                let ew = self.m.bits(te) as u8;
                let mut r = vec![];
                for i in 0..n {
                    match v {
                        V::C(c) => r.push(V::C((c >> (i * ew as u32)) & mask(ew))),
                        V::T(t) => {
                            let e = self.s.extract(*t, (i * ew as u32) as u8, ew);
                            r.push(self.norm(e));
                        }
                        _ => return Err(Stop::Err("cast".into())),
                    }
                }
                return Ok(V::A(r.into()));
            }
            (TyK::Vect(_, fe), TyK::Vect(tn, te)) => {
                // bitcast via bytes
                let few = self.m.bits(fe) as usize / 8;
                let tew = self.m.bits(te) as usize / 8;
                if let V::A(xs) = v {
                    let mut b = vec![];
                    for x in xs.iter() {
                        b.extend(self.bytes_of(x, few, (few * 8) as u8));
                    }
                    let mut r = vec![];
                    for i in 0..tn as usize {
                        r.push(self.assemble(&b[i * tew..(i + 1) * tew], (tew * 8) as u8));
                    }
                    return Ok(V::A(r.into()));
                }
            }
            _ => {}
        }
        match c {
            Cast::BitCast => return Ok(v.clone()),
            Cast::UiToFp | Cast::SiToFp | Cast::FpToUi | Cast::FpToSi | Cast::FpExt | Cast::FpTrunc => {
                let x = match v {
                    V::C(x) => *x,
                    _ => return Err(Stop::Err("symbolic float conversion".into())),
                };
                let tod = |x: u128, k: &TyK| -> f64 {
                    if *k == TyK::F64 {
                        f64::from_bits(x as u64)
                    } else {
                        f32::from_bits(x as u32) as f64
                    }
                };
                let fromd = |d: f64, k: &TyK| -> u128 {
                    if *k == TyK::F64 {
                        d.to_bits() as u128
                    } else {
                        (d as f32).to_bits() as u128
                    }
                };
                let fk = self.m.k(f).clone();
                let tk = self.m.k(t).clone();
                let r = match c {
                    Cast::UiToFp => fromd(x as f64, &tk),
                    Cast::SiToFp => fromd(sx(x, fits(self.m.bits(f))) as f64, &tk),
                    Cast::FpToUi => tod(x, &fk) as u128 & mask(fits(self.m.bits(t))),
                    Cast::FpToSi => tod(x, &fk) as i128 as u128 & mask(fits(self.m.bits(t))),
                    _ => fromd(tod(x, &fk), &tk),
                };
                return Ok(V::C(r));
            }
            _ => {}
        }
        let fw = fits(self.m.bits(f));
        let tw = fits(self.m.bits(t));
        match v {
            V::C(x) => Ok(V::C(match c {
                Cast::SExt => sx(*x, fw) as u128 & mask(tw),
                _ => x & mask(tw),
            })),
            V::T(x) => {
                let r = match c {
                    Cast::Trunc => self.s.extract(*x, 0, tw),
                    Cast::ZExt => self.s.zext(*x, tw),
                    Cast::SExt => self.s.sext(*x, tw),
                    Cast::PtrToInt | Cast::IntToPtr => {
                        if tw < fw {
                            self.s.extract(*x, 0, tw)
                        } else {
                            self.s.zext(*x, tw)
                        }
                    }
                    _ => *x,
                };
                Ok(self.norm(r))
            }
            _ => Err(Stop::Err("cast aggregate".into())),
        }
    }

    fn select(&mut self, ty: Ty, c: &V, a: &V, b: &V) -> R<V> {
        match c {
            V::C(1) => Ok(a.clone()),
            V::C(_) => Ok(b.clone()),
            V::T(t) => match (a, b) {
                (V::A(xs), V::A(ys)) => {
                    let k = self.m.k(ty).clone();
                    let mut r = vec![];
                    for i in 0..xs.len() {
                        let et = match &k {
                            TyK::Struct(f, _) => f[i],
                            TyK::Arr(_, e) | TyK::Vect(_, e) => *e,
                            _ => return Err(Stop::Err("select".into())),
                        };
                        r.push(self.select(et, c, &xs[i], &ys[i])?);
                    }
                    Ok(V::A(r.into()))
                }
                _ => {
                    let w = fits(self.m.bits(ty));
                    let (x, y) = (self.t(a, w), self.t(b, w));
                    let r = self.s.ite(*t, x, y);
                    Ok(self.norm(r))
                }
            },
            V::A(cs) => {
                // vector select
                if let (V::A(xs), V::A(ys), TyK::Vect(_, e)) = (a, b, self.m.k(ty).clone()) {
                    let mut r = vec![];
                    for i in 0..cs.len() {
                        r.push(self.select(e, &cs[i], &xs[i], &ys[i])?);
                    }
                    return Ok(V::A(r.into()));
                }
                Err(Stop::Err("vector select".into()))
            }
        }
    }

    // ------------------------------------------------------------ main loop

    fn set(&self, st: &mut State, r: u32, v: V) {
        if r != u32::MAX {
            st.frames.last_mut().unwrap().regs[r as usize] = v;
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last_mut().unwrap();
        let from = f.bb;
        let func = f.func.clone();
        let b = &func.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (dst, _, inc) in &b.phis {
                let (o, _) = inc.iter().find(|(_, bb)| *bb == from).expect("phi edge");
                let v = match o {
                    Op::K(v) => v.clone(),
                    Op::Reg(r) => f.regs[*r as usize].clone(),
                };
                vals.push((*dst, v));
            }
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        f.bb = to;
        f.ip = 0;
    }

    /// immediate post-dominators of a function's blocks (u32::MAX: none)
    fn join_of(&mut self, f: &Rc<Func>, bb: u32) -> u32 {
        if let Some(v) = self.joins.get(&f.id) {
            return v[bb as usize];
        }
        let n = f.blocks.len();
        let succ: Vec<Vec<usize>> = f
            .blocks
            .iter()
            .map(|b| match b.insts.last() {
                Some(I::Br(t)) => vec![*t as usize],
                Some(I::CondBr(_, a, b)) => vec![*a as usize, *b as usize],
                Some(I::Switch(_, _, d, cs)) => {
                    let mut v: Vec<usize> = cs.iter().map(|c| c.1 as usize).collect();
                    v.push(*d as usize);
                    v
                }
                Some(I::Call(_, _, _, _, nrm)) if *nrm != u32::MAX => vec![*nrm as usize],
                _ => vec![],
            })
            .collect();
        // only blocks that can return take part
        let mut live = vec![false; n];
        for (i, b) in f.blocks.iter().enumerate() {
            live[i] = matches!(b.insts.last(), Some(I::Ret(_)));
        }
        loop {
            let mut ch = false;
            for i in 0..n {
                if !live[i] && succ[i].iter().any(|x| live[*x]) {
                    live[i] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // post-dominator sets as bit vectors
        let wn = (n + 63) / 64;
        let full = vec![u64::MAX; wn];
        let mut pd: Vec<Vec<u64>> = vec![full.clone(); n];
        for i in 0..n {
            if matches!(f.blocks[i].insts.last(), Some(I::Ret(_))) {
                pd[i] = vec![0; wn];
                pd[i][i / 64] |= 1 << (i % 64);
            }
        }
        loop {
            let mut ch = false;
            for i in (0..n).rev() {
                if !live[i] || succ[i].is_empty() {
                    continue;
                }
                let mut x = full.clone();
                for y in &succ[i] {
                    if live[*y] {
                        for k in 0..wn {
                            x[k] &= pd[*y][k];
                        }
                    }
                }
                x[i / 64] |= 1 << (i % 64);
                if x != pd[i] {
                    pd[i] = x;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut out = vec![u32::MAX; n];
        for i in 0..n {
            if !live[i] {
                continue;
            }
            // the post-dominator with the largest set besides i itself is the immediate one
            let mut best = (0u32, u32::MAX);
            for j in 0..n {
                if j != i && live[j] && pd[i][j / 64] >> (j % 64) & 1 == 1 {
                    let c: u32 = pd[j].iter().map(|x| x.count_ones()).sum();
                    if c > best.0 {
                        best = (c, j as u32);
                    }
                }
            }
            out[i] = best.1;
        }
        let v = Rc::new(out);
        let r = v[bb as usize];
        self.joins.insert(f.id, v);
        r
    }

    /// Run both sides of a branch up to their join without forking and merge the
    /// results into conditional values.  Returns false if that is not possible.
    fn try_merge(&mut self, st: &mut State, c: T, a: u32, b: u32) -> bool {
        if self.spec >= 4 {
            return false;
        }
        let (func, bb) = {
            let f = st.frames.last().unwrap();
            (f.func.clone(), f.bb)
        };
        let site = (func.id, bb);
        if let Some((ok, bad)) = self.merge_site.get(&site) {
            if *bad > 3 + 2 * *ok {
                return false;
            }
        }
        let j = self.join_of(&func, bb);
        if j == u32::MAX {
            return false;
        }
        if self.spec == 0 {
            self.spec_left = 1500;
        }
        self.spec += 1;
        let r = self.merge_sides(st, c, a, b, j);
        self.spec -= 1;
        let e = self.merge_site.entry(site).or_insert((0, 0));
        match r {
            Some(m) => {
                e.0 += 1;
                self.merges += 1;
                *st = m;
                true
            }
            None => {
                e.1 += 1;
                false
            }
        }
    }
    fn spec_run(&mut self, st: &State, c: T, pos: bool, to: u32, j: u32) -> Option<State> {
        let mut x = st.clone();
        self.learn(&mut x, c, pos);
        let depth = x.frames.len();
        self.jump(&mut x, to);
        loop {
            if self.spec_left == 0 {
                return None;
            }
            self.spec_left -= 1;
            {
                let f = x.frames.last()?;
                if x.frames.len() == depth && f.bb == j && f.ip == 0 {
                    return Some(x);
                }
                if x.frames.len() < depth {
                    return None;
                }
            }
            let (func, bb, ip) = {
                let f = x.frames.last().unwrap();
                (f.func.clone(), f.bb as usize, f.ip as usize)
            };
            self.steps += 1;
            x.steps += 1;
            let n = x.frames.len();
            match self.step(&mut x, &func.blocks[bb].insts[ip]) {
                Ok(true) => {}
                Ok(false) => {
                    if x.frames.len() == n {
                        x.frames.last_mut().unwrap().ip = ip as u32 + 1;
                    }
                }
                Err(_) => return None,
            }
        }
    }
    fn merge_sides(&mut self, st: &State, c: T, a: u32, b: u32, j: u32) -> Option<State> {
        let x = self.spec_run(st, c, true, a, j)?;
        let y = self.spec_run(st, c, false, b, j)?;
        if x.heap.len() != y.heap.len()
            || x.heap_next != y.heap_next
            || x.stack_next != y.stack_next
            || x.inputs.len() != y.inputs.len()
            || x.observes.len() != y.observes.len()
            || x.covers.len() != y.covers.len()
            || x.hashes.len() != y.hashes.len()
            || x.hashes.len() != st.hashes.len()
            || x.nopanic != y.nopanic
            || x.names.len() != y.names.len()
            || x.pc.len() != st.pc.len()
            || y.pc.len() != st.pc.len()
        {
            return None;
        }
        let mut m = x.clone();
        m.pc = st.pc.clone();
        m.known = st.known.clone();
        m.iv = st.iv.clone();
        m.model = st.model.clone();
        m.hint = st.hint.clone();
        for i in 0..x.frames.len() {
            if !Rc::ptr_eq(&x.frames[i].obj, &y.frames[i].obj) {
                m.frames[i].obj = self.merge_obj(c, &x.frames[i].obj, &y.frames[i].obj)?;
            }
            if x.frames[i].extra != y.frames[i].extra {
                return None;
            }
        }
        for i in 0..x.heap.len() {
            match (&x.heap[i].2, &y.heap[i].2) {
                (None, None) => {}
                (Some(p), Some(q)) => {
                    if x.heap[i].0 != y.heap[i].0 || x.heap[i].1 != y.heap[i].1 {
                        return None;
                    }
                    if !Rc::ptr_eq(p, q) {
                        m.heap[i].2 = Some(self.merge_obj(c, p, q)?);
                    }
                }
                _ => return None,
            }
        }
        for (k, q) in &y.glob {
            match x.glob.get(k) {
                Some(p) => {
                    if !Rc::ptr_eq(p, q) {
                        let o = self.merge_obj(c, p, q)?;
                        m.glob.insert(*k, o);
                    }
                }
                None => return None,
            }
        }
        if x.glob.len() != y.glob.len() {
            return None;
        }
        // phis of the join
        let fx = x.frames.last().unwrap();
        let fy = y.frames.last().unwrap();
        let func = fx.func.clone();
        for (d, ty, _) in &func.blocks[j as usize].phis {
            let v = self.merge_val(c, *ty, &fx.regs[*d as usize], &fy.regs[*d as usize])?;
            m.frames.last_mut().unwrap().regs[*d as usize] = v;
        }
        Some(m)
    }
    fn addressish(v: u128) -> bool {
        v >= FN_BASE as u128 && v < (1u128 << 48)
    }
    fn merge_val(&mut self, c: T, ty: Ty, a: &V, b: &V) -> Option<V> {
        match (a, b) {
            (V::C(p), V::C(q)) if p == q => Some(a.clone()),
            (V::T(p), V::T(q)) if p == q => Some(a.clone()),
            (V::A(p), V::A(q)) if p.len() == q.len() => {
                let tys: Vec<Ty> = match self.m.k(ty).clone() {
                    TyK::Struct(f, _) => f.to_vec(),
                    TyK::Arr(n, e) => vec![e; n as usize],
                    TyK::Vect(n, e) => vec![e; n as usize],
                    _ => return None,
                };
                let mut out = vec![];
                for (i, t) in tys.iter().enumerate() {
                    out.push(self.merge_val(c, *t, &p[i], &q[i])?);
                }
                Some(V::A(out.into()))
            }
            (V::A(_), _) | (_, V::A(_)) => None,
            _ => {
                match self.m.k(ty) {
                    TyK::Int(_) => {}
                    _ => return None,
                }
                let w = fits(self.m.bits(ty));
                let (p, q) = (self.t(a, w), self.t(b, w));
                let t = self.s.ite(c, p, q);
                Some(self.norm(t))
            }
        }
    }
    fn merge_obj(&mut self, c: T, p: &Rc<Obj>, q: &Rc<Obj>) -> Option<Rc<Obj>> {
        if p.base != q.base || p.data.len() != q.data.len() {
            return None;
        }
        let n = p.data.len();
        let mut out = (**p).clone();
        let mut i = 0;
        let mut merged = 0;
        let diff = |k: usize| p.byte(k) != q.byte(k);
        while i < n {
            if !diff(i) {
                i += 1;
                continue;
            }
            // whole symbolic value starting here, else an aligned power of two
            let mut sz = 0usize;
            for o in [p, q] {
                if let MB::S(t, 0) = o.byte(i) {
                    let k = (self.s.w(t) as usize + 7) / 8;
                    if i + k <= n && (0..k).all(|z| o.byte(i + z) == MB::S(t, z as u32)) {
                        sz = sz.max(k);
                    }
                }
            }
            if sz == 0 {
                let addr = p.base as usize + i;
                let mut run = 1;
                while i + run < n && run < 8 && diff(i + run) {
                    run += 1;
                }
                sz = 8;
                while sz > 1 && (addr % sz != 0 || sz > run) {
                    sz /= 2;
                }
                // addresses differ in their low bytes only
                let al = i & !7;
                if al + 8 <= n && p.base % 8 == 0 && p.is_conc(al, 8) && q.is_conc(al, 8) {
                    let f = |o: &Obj| u64::from_le_bytes(o.data[al..al + 8].try_into().unwrap()) as u128;
                    if Self::addressish(f(p)) || Self::addressish(f(q)) {
                        return None;
                    }
                }
            }
            let w = 8 * sz as u8;
            let a: Vec<MB> = (0..sz).map(|z| p.byte(i + z)).collect();
            let b: Vec<MB> = (0..sz).map(|z| q.byte(i + z)).collect();
            let (va, vb) = (self.assemble(&a, w), self.assemble(&b, w));
            let (ta, tb) = (self.t(&va, w), self.t(&vb, w));
            let t = self.s.ite(c, ta, tb);
            match self.s.cv(t) {
                Some(k) => out.put_conc(i, &k.to_le_bytes()[..sz]),
                None => {
                    for z in 0..sz {
                        out.put_sym(i + z, t, z as u32);
                    }
                }
            }
            merged += sz;
            if merged > 256 {
                return None;
            }
            i += sz;
        }
        Some(Rc::new(out))
    }

    fn run_chunk(&mut self, st: &mut State) -> R<()> {
        loop {
            if st.frames.is_empty() {
                return Ok(());
            }
            let (func, bb, ip) = {
                let f = st.frames.last().unwrap();
                (f.func.clone(), f.bb as usize, f.ip as usize)
            };
            let insts = &func.blocks[bb].insts;
            // execute straight-line instructions of this block
            let depth = st.frames.len();
            let mut i = ip;
            loop {
                self.steps += 1;
                st.steps += 1;
                if self.steps & 0xff == 0 {
                    if st.steps > 60_000_000 {
                        return Err(Stop::Err("step limit".into()));
                    }
                    if std::time::Instant::now() > self.cfg.deadline {
                        eprintln!("merges {} steps {} {:?}", self.merges, st.steps, st.frames.iter().rev().take(4).map(|f|(demangle(&f.func.name), f.bb,f.ip)).collect::<Vec<_>>());
                        return Err(Stop::Err("time limit reached".into()));
                    }
                }
                st.frames.last_mut().unwrap().ip = i as u32;
                let inst = &insts[i];
                let ctl = self.step(st, inst)?;
                if ctl {
                    break; // control transferred (frame/bb changed)
                }
                i += 1;
                if st.frames.len() != depth {
                    break;
                }
            }
        }
    }

    /// returns true when control was transferred (ip already updated)
    fn step(&mut self, st: &mut State, inst: &I) -> R<bool> {
        match inst {
            I::Alloca(d, off) => {
                let b = st.frames.last().unwrap().obj.base;
                self.set(st, *d, V::C((b + off) as u128));
            }
            I::AllocaDyn(d, ty, n) => {
                let v = self.op(st, n);
                let n = self.conc(st, &v, 64)? as u64;
                let sz = self.m.size(*ty) * n;
                let a = self.alloc(st, sz.max(1), 64);
                self.set(st, *d, V::C(a as u128));
            }
            I::Load(d, ty, p) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv, 64)? as u64;
                let v = self.load(st, *ty, a)?;
                self.set(st, *d, v);
            }
            I::Store(ty, v, p) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv, 64)? as u64;
                let v = self.op(st, v);
                self.store(st, *ty, a, &v)?;
            }
            I::Gep(d, b, cst, dynv) => {
                let bv = self.op(st, b);
                let mut acc = bv;
                let mut c = *cst as u64;
                for (o, it, sc) in dynv {
                    let v = self.op(st, o);
                    match v {
                        V::C(x) => {
                            let w = fits(self.m.bits(*it));
                            c = c.wrapping_add((sx(x, w) as i64).wrapping_mul(*sc) as u64);
                        }
                        V::T(t) => {
                            let w = self.s.w(t);
                            let t = if w < 64 { self.s.sext(t, 64) } else { t };
                            let k = self.s.c(*sc as u64 as u128, 64);
                            let p = self.s.mul(t, k);
                            let a = self.t(&acc, 64);
                            let r = self.s.add(a, p);
                            acc = self.norm(r);
                        }
                        _ => return Err(Stop::Err("gep idx".into())),
                    }
                }
                let r = match acc {
                    V::C(a) => V::C((a as u64).wrapping_add(c) as u128),
                    V::T(t) => {
                        let k = self.s.c(c as u128, 64);
                        let r = self.s.add(t, k);
                        self.norm(r)
                    }
                    _ => return Err(Stop::Err("gep base".into())),
                };
                self.set(st, *d, r);
            }
            I::Bin(d, o, ty, a, b) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let r = self.bin(st, *o, *ty, &a, &b)?;
                self.set(st, *d, r);
            }
            I::Icmp(d, p, ty, a, b) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let r = self.icmp(*p, *ty, &a, &b)?;
                self.set(st, *d, r);
            }
            I::Fcmp(d, p, ty, a, b) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let (x, y) = match (a, b) {
                    (V::C(x), V::C(y)) => (x, y),
                    _ => return Err(Stop::Err("symbolic fcmp".into())),
                };
                let (x, y) = if *self.m.k(*ty) == TyK::F64 {
                    (f64::from_bits(x as u64), f64::from_bits(y as u64))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => un || x != y,
                    _ => return Err(Stop::Err("fcmp".into())),
                };
                self.set(st, *d, V::C(r as u128));
            }
            I::FNeg(d, ty, a) => {
                let v = match self.op(st, a) {
                    V::C(x) => {
                        if *self.m.k(*ty) == TyK::F64 {
                            x ^ (1 << 63)
                        } else {
                            x ^ (1 << 31)
                        }
                    }
                    _ => return Err(Stop::Err("fneg".into())),
                };
                self.set(st, *d, V::C(v));
            }
            I::Cast(d, c, f, t, v) => {
                let v = self.op(st, v);
                let r = self.cast(*c, *f, *t, &v)?;
                self.set(st, *d, r);
            }
            I::Select(d, _ct, ty, c, a, b) => {
                let (c, a, b) = (self.op(st, c), self.op(st, a), self.op(st, b));
                let c = match c {
                    V::T(t) => match self.quick_truth(st, t) {
                        Some(x) => V::C(x as u128),
                        None => V::T(t),
                    },
                    c => c,
                };
                let r = self.select(*ty, &c, &a, &b)?;
                self.set(st, *d, r);
            }
            I::Copy(d, v) => {
                let v = self.op(st, v);
                self.set(st, *d, v);
            }
            I::ExtractValue(d, a, idx) => {
                let mut v = self.op(st, a);
                for i in idx {
                    v = match v {
                        V::A(xs) => xs[*i as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
            }
            I::InsertValue(d, a, v, idx) => {
                let a = self.op(st, a);
                let v = self.op(st, v);
                fn ins(a: &V, v: V, idx: &[u32]) -> V {
                    if idx.is_empty() {
                        return v;
                    }
                    match a {
                        V::A(xs) => {
                            let mut ys: Vec<V> = xs.to_vec();
                            let i = idx[0] as usize;
                            ys[i] = ins(&ys[i].clone(), v, &idx[1..]);
                            V::A(ys.into())
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&a, v, idx);
                self.set(st, *d, r);
            }
            I::ExtractElement(d, a, i) => {
                let iv = self.op(st, i);
                let i = self.conc(st, &iv, 64)? as usize;
                let v = match self.op(st, a) {
                    V::A(xs) => xs[i].clone(),
                    _ => return Err(Stop::Err("extractelement".into())),
                };
                self.set(st, *d, v);
            }
            I::InsertElement(d, a, v, i) => {
                let iv = self.op(st, i);
                let i = self.conc(st, &iv, 64)? as usize;
                let v = self.op(st, v);
                let r = match self.op(st, a) {
                    V::A(xs) => {
                        let mut ys = xs.to_vec();
                        ys[i] = v;
                        V::A(ys.into())
                    }
                    _ => return Err(Stop::Err("insertelement".into())),
                };
                self.set(st, *d, r);
            }
            I::Shuffle(d, a, b, m) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                if let (V::A(xs), V::A(ys)) = (&a, &b) {
                    let n = xs.len();
                    let r: Vec<V> = m
                        .iter()
                        .map(|i| {
                            let i = *i as usize;
                            if i < n {
                                xs[i].clone()
                            } else {
                                ys[i - n].clone()
                            }
                        })
                        .collect();
                    self.set(st, *d, V::A(r.into()));
                } else {
                    return Err(Stop::Err("shuffle".into()));
                }
            }
            I::CmpXchg(d, ty, p, c, n) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv, 64)? as u64;
                let cur = self.load(st, *ty, a)?;
                let c = self.op(st, c);
                let n = self.op(st, n);
                let e = self.icmp(Pred::Eq, *ty, &cur, &c)?;
                match e {
                    V::C(1) => self.store(st, *ty, a, &n)?,
                    V::C(_) => {}
                    _ => return Err(Stop::Err("symbolic cmpxchg".into())),
                }
                self.set(st, *d, V::A(vec![cur, e].into()));
            }
            I::AtomicRmw(d, op, ty, p, v) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv, 64)? as u64;
                let cur = self.load(st, *ty, a)?;
                let v = self.op(st, v);
                let n = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(st, Bin::Add, *ty, &cur, &v)?,
                    "sub" => self.bin(st, Bin::Sub, *ty, &cur, &v)?,
                    "and" => self.bin(st, Bin::And, *ty, &cur, &v)?,
                    "or" => self.bin(st, Bin::Or, *ty, &cur, &v)?,
                    "xor" => self.bin(st, Bin::Xor, *ty, &cur, &v)?,
                    x => return Err(Stop::Err(format!("atomicrmw {}", x))),
                };
                self.store(st, *ty, a, &n)?;
                self.set(st, *d, cur);
            }
            I::Br(b) => {
                self.jump(st, *b);
                return Ok(true);
            }
            I::CondBr(c, a, b) => {
                let (a, b) = (*a, *b);
                match self.op(st, c) {
                    V::C(x) => self.jump(st, if x & 1 == 1 { a } else { b }),
                    V::T(t) => {
                        if self.quick_truth(st, t).is_none() && self.try_merge(st, t, a, b) {
                            return Ok(true);
                        }
                        let taken = self.branch(st, t, |e, o, _| e.jump(o, b))?;
                        self.jump(st, if taken { a } else { b });
                    }
                    _ => return Err(Stop::Err("condbr".into())),
                }
                return Ok(true);
            }
            I::Switch(ty, v, d, cases) => {
                let w = fits(self.m.bits(*ty));
                match self.op(st, v) {
                    V::C(x) => {
                        let to = cases.iter().find(|(c, _)| *c == x).map(|(_, b)| *b).unwrap_or(*d);
                        self.jump(st, to);
                    }
                    V::T(t) => {
                        // peel cases one at a time; the negative side re-executes the switch
                        for (c, b) in cases {
                            let k = self.s.c(*c, w);
                            let e = self.s.eq(t, k);
                            if let Some(false) = self.quick_truth(st, e) {
                                continue;
                            }
                            let taken = self.branch(st, e, |_, _, _| {})?;
                            if taken {
                                let b = *b;
                                self.jump(st, b);
                                return Ok(true);
                            }
                        }
                        self.jump(st, *d);
                    }
                    _ => return Err(Stop::Err("switch".into())),
                }
                return Ok(true);
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.op(st, o));
                let f = st.frames.pop().unwrap();
                st.stack_next = f.obj.base;
                if st.frames.is_empty() {
                    return Ok(true);
                }
                self.finish_call(st, f.ret_dst, f.normal, v);
                return Ok(true);
            }
            I::Unreachable => return Err(Stop::Err("reached unreachable".into())),
            I::Nop => {}
            I::Unsupported(s) => return Err(Stop::Err(format!("unsupported {}", s))),
            I::Call(d, rt, callee, args, normal) => {
                let r = match callee {
                    Callee::Direct(r) => r.clone(),
                    Callee::Indirect(o) => {
                        let v = self.op(st, o);
                        let a = self.conc(st, &v, 64)? as u64;
                        let id = (a.wrapping_sub(FN_BASE)) / 16;
                        if a < FN_BASE || id as usize >= self.m.fn_names.len() {
                            return Err(Stop::Err(format!("indirect call to {:#x}", a)));
                        }
                        self.m.fn_names[id as usize].clone()
                    }
                };
                let argv: Vec<V> = args.iter().map(|(_, o)| self.op(st, o)).collect();
                return self.call(st, &r, *d, *rt, argv, args, *normal);
            }
        }
        Ok(false)
    }

    fn finish_call(&mut self, st: &mut State, dst: u32, normal: u32, v: Option<V>) {
        if let Some(v) = v {
            if dst != u32::MAX {
                let f = st.frames.last_mut().unwrap();
                f.regs[dst as usize] = v;
            }
        }
        if normal != u32::MAX {
            self.jump(st, normal);
        } else {
            st.frames.last_mut().unwrap().ip += 1;
        }
    }

    fn call(&mut self, st: &mut State, r: &Rc<FnRef>, dst: u32, rt: Ty, argv: Vec<V>, args: &[(Ty, Op)], normal: u32) -> R<bool> {
        if self.ic.len() <= r.id as usize {
            self.ic.resize(r.id as usize + 64, None);
        }
        let ic = match self.ic[r.id as usize] {
            Some(i) => i,
            None => {
                let i = classify(&r.name);
                self.ic[r.id as usize] = Some(i);
                i
            }
        };
        if ic == Ic::None {
            let f = match self.m.func(r.id) {
                Some(f) => f,
                None => return Err(Stop::Err(format!("call to undefined {}", r.name))),
            };
            if st.frames.len() > 400 {
                return Err(Stop::Err("recursion limit".into()));
            }
            self.push_frame(st, f, argv, dst, normal);
            return Ok(true);
        }
        let v = self.intercept(st, ic, r, rt, argv, args)?;
        self.finish_call(st, dst, normal, v);
        Ok(true)
    }

    fn str_arg(&mut self, st: &mut State, p: &V, n: &V) -> R<String> {
        let (p, n) = (self.conc(st, p, 64)? as u64, self.conc(st, n, 64)? as u64);
        match self.conc_bytes(st, p, n).map_err(Stop::Err)? {
            Some(b) => Ok(String::from_utf8_lossy(&b).to_string()),
            None => Err(Stop::Err("symbolic string".into())),
        }
    }

    fn intercept(&mut self, st: &mut State, ic: Ic, r: &Rc<FnRef>, rt: Ty, a: Vec<V>, args: &[(Ty, Op)]) -> R<Option<V>> {
        match ic {
            Ic::Alloc | Ic::AllocZeroed => {
                let n = self.conc(st, &a[0], 64)? as u64;
                let al = self.conc(st, &a[1], 64)? as u64;
                if n > 1 << 28 {
                    return Err(Stop::Err("huge allocation".into()));
                }
                Ok(Some(V::C(self.alloc(st, n, al) as u128)))
            }
            Ic::Dealloc => {
                let p = self.conc(st, &a[0], 64)? as u64;
                self.dealloc(st, p);
                Ok(None)
            }
            Ic::Realloc => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let old = self.conc(st, &a[1], 64)? as u64;
                let al = self.conc(st, &a[2], 64)? as u64;
                let n = self.conc(st, &a[3], 64)? as u64;
                let b = self.read_bytes(st, p, old.min(n)).map_err(Stop::Err)?;
                let q = self.alloc(st, n, al);
                self.write_bytes(st, q, &b).map_err(Stop::Err)?;
                self.dealloc(st, p);
                Ok(Some(V::C(q as u128)))
            }
            Ic::Memcpy => {
                let n = self.conc(st, &a[2], 64)? as u64;
                if n > 0 {
                    let d = self.conc(st, &a[0], 64)? as u64;
                    let s = self.conc(st, &a[1], 64)? as u64;
                    let b = self.read_bytes(st, s, n).map_err(Stop::Err)?;
                    self.write_bytes(st, d, &b).map_err(Stop::Err)?;
                }
                Ok(Some(a[0].clone()))
            }
            Ic::Memset => {
                let n = self.conc(st, &a[2], 64)? as u64;
                if n > 0 {
                    let d = self.conc(st, &a[0], 64)? as u64;
                    let x = match &a[1] {
                        V::C(c) => MB::C(*c as u8),
                        V::T(t) => {
                            let e = if self.s.w(*t) > 8 { self.s.extract(*t, 0, 8) } else { *t };
                            MB::S(e, 0)
                        }
                        _ => return Err(Stop::Err("memset".into())),
                    };
                    let b = vec![x; n as usize];
                    self.write_bytes(st, d, &b).map_err(Stop::Err)?;
                }
                Ok(Some(a[0].clone()))
            }
            Ic::Memcmp => {
                let n = self.conc(st, &a[2], 64)? as u64;
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let p = self.conc(st, &a[0], 64)? as u64;
                let q = self.conc(st, &a[1], 64)? as u64;
                let x = self.read_bytes(st, p, n).map_err(Stop::Err)?;
                let y = self.read_bytes(st, q, n).map_err(Stop::Err)?;
                Ok(Some(self.memcmp(&x, &y)))
            }
            Ic::Strlen => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let mut n = 0;
                loop {
                    match self.conc_bytes(st, p + n, 1).map_err(Stop::Err)? {
                        Some(b) if b[0] == 0 => break,
                        Some(_) => n += 1,
                        None => return Err(Stop::Err("strlen".into())),
                    }
                }
                Ok(Some(V::C(n as u128)))
            }
            Ic::Panic => Err(Stop::Panic(format!("{} in {}", demangle(&r.name), self.site(st)))),
            Ic::FormatInner => {
                // sret String { cap, ptr, len } : empty string is {0, 1, 0}; field order is not fixed, write
                // cap=0,len=0,ptr=1 using the layout found in the function's sret size (24 bytes)
                let p = self.conc(st, &a[0], 64)? as u64;
                // Rust 1.87 String layout: {cap, ptr, len}
                let mut b = vec![MB::C(0); 24];
                b[8] = MB::C(1);
                self.write_bytes(st, p, &b).map_err(Stop::Err)?;
                Ok(None)
            }
            Ic::FmtWrite => Ok(Some(V::C(0))),
            Ic::Nothing | Ic::DropCheck => {
                if *self.m.k(rt) == TyK::Void {
                    Ok(None)
                } else {
                    Ok(Some(self.m.zero(rt)))
                }
            }
            Ic::RandomKeys => Ok(Some(V::A(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)].into()))),
            Ic::FindPda | Ic::TryFindPda | Ic::CreatePda => self.pda(st, ic, a),
            Ic::Hashv | Ic::Hash => self.hashv(st, ic, a),
            Ic::Sym => self.sym(st, &r.name, a),
            Ic::Intrin => self.intrin(st, &r.name, rt, a, args),
            Ic::None => unreachable!(),
        }
    }

    fn site(&self, st: &State) -> String {
        for f in st.frames.iter().rev() {
            let d = demangle(&f.func.name);
            if d.contains("presale") {
                return d;
            }
        }
        st.frames.last().map(|f| demangle(&f.func.name)).unwrap_or_default()
    }

    fn memcmp(&mut self, x: &[MB], y: &[MB]) -> V {
        if x.iter().chain(y.iter()).all(|b| matches!(b, MB::C(_))) {
            for (a, b) in x.iter().zip(y.iter()) {
                if let (MB::C(a), MB::C(b)) = (a, b) {
                    if a != b {
                        let r: i32 = if a < b { -1 } else { 1 };
                        return V::C(r as u32 as u128);
                    }
                }
            }
            return V::C(0);
        }
        let mut i = 0;
        let mut eqs = vec![];
        let mut lts = vec![];
        while i < x.len() {
            let n = 8.min(x.len() - i);
            let be = |e: &mut Engine, b: &[MB]| -> T {
                let r: Vec<MB> = b.iter().rev().cloned().collect();
                let v = e.assemble(&r, (8 * b.len()) as u8);
                e.t(&v, (8 * b.len()) as u8)
            };
            let le = |e: &mut Engine, b: &[MB]| -> T {
                let v = e.assemble(b, (8 * b.len()) as u8);
                e.t(&v, (8 * b.len()) as u8)
            };
            let (bx, by) = (be(self, &x[i..i + n]), be(self, &y[i..i + n]));
            let (lx, ly) = (le(self, &x[i..i + n]), le(self, &y[i..i + n]));
            let simple = |e: &Engine, t: T| matches!(e.s.n(t).k, K::Var | K::Const);
            let score_b = simple(self, bx) as u8 + simple(self, by) as u8;
            let score_l = simple(self, lx) as u8 + simple(self, ly) as u8;
            let eq = if score_b > score_l {
                self.s.eq(bx, by)
            } else {
                self.s.eq(lx, ly)
            };
            let lt = self.s.ult(bx, by);
            eqs.push(eq);
            lts.push(lt);
            i += n;
        }
        // lt = lt0 || (eq0 && (lt1 || ...))
        let mut lt = FALSE;
        for k in (0..eqs.len()).rev() {
            let z = self.s.and(eqs[k], lt);
            lt = self.s.or(lts[k], z);
        }
        let mut eq = TRUE;
        for e in eqs {
            eq = self.s.and(eq, e);
        }
        let m1 = self.s.c(u32::MAX as u128, 32);
        let p1 = self.s.c(1, 32);
        let z = self.s.c(0, 32);
        let ne = self.s.ite(lt, m1, p1);
        let r = self.s.ite(eq, z, ne);
        self.norm(r)
    }

    fn seeds(&mut self, st: &mut State, ptr: u64, n: u64) -> R<Vec<Vec<MB>>> {
        let mut out = vec![];
        for i in 0..n {
            let p = self.load_u64(st, ptr + 16 * i)?;
            let l = self.load_u64(st, ptr + 16 * i + 8)?;
            out.push(self.read_bytes(st, p, l).map_err(Stop::Err)?);
        }
        Ok(out)
    }
    fn load_u64(&mut self, st: &mut State, addr: u64) -> R<u64> {
        let b = self.read_bytes(st, addr, 8).map_err(Stop::Err)?;
        let v = self.assemble(&b, 64);
        Ok(self.conc(st, &v, 64)? as u64)
    }

    fn pda(&mut self, st: &mut State, ic: Ic, a: Vec<V>) -> R<Option<V>> {
        // signature (sret, seeds_ptr, seeds_len, program_id_ptr)
        let out = self.conc(st, &a[0], 64)? as u64;
        let sp = self.conc(st, &a[1], 64)? as u64;
        let sn = self.conc(st, &a[2], 64)? as u64;
        let pp = self.conc(st, &a[3], 64)? as u64;
        let seeds = self.seeds(st, sp, sn)?;
        let prog = self.read_bytes(st, pp, 32).map_err(Stop::Err)?;
        let mut flat: Vec<Vec<u8>> = vec![];
        for s in seeds.iter().chain(std::iter::once(&prog)) {
            let mut v = vec![];
            for ch in s.chunks(8) {
                if ch.iter().all(|b| matches!(b, MB::C(_))) {
                    v.extend(ch.iter().map(|b| match b {
                        MB::C(c) => *c,
                        _ => 0,
                    }));
                } else {
                    // usually fixed by the path condition; otherwise the path forks per value
                    let w = (8 * ch.len()) as u8;
                    let x = self.assemble(ch, w);
                    let c = self.conc(st, &x, w)?;
                    v.extend(&c.to_le_bytes()[..ch.len()]);
                }
            }
            flat.push(v);
        }
        let prog: [u8; 32] = flat.pop().unwrap().try_into().unwrap();
        let too_long = flat.len() > 16 || flat.iter().any(|s| s.len() > 32);
        match ic {
            Ic::CreatePda => {
                // Result<Pubkey, PubkeyError>: layout { u8 tag, payload } : tag 0 -> Ok at +1
                let r = if too_long { None } else { create_pda(&flat, &prog) };
                let mut b = vec![];
                match r {
                    Some(k) => {
                        b.push(MB::C(0));
                        b.extend(k.iter().map(|x| MB::C(*x)));
                    }
                    None => {
                        b.push(MB::C(1));
                        b.push(MB::C(2));
                        b.resize(33, MB::C(0));
                    }
                }
                self.write_bytes(st, out, &b).map_err(Stop::Err)?;
                Ok(None)
            }
            _ => {
                let mut key = vec![];
                for s in &flat {
                    key.push(s.len() as u8);
                    key.extend(s);
                }
                key.extend(prog);
                let r = if let Some(r) = self.pda_cache.get(&key) {
                    *r
                } else {
                    let mut res = None;
                    if !too_long && flat.len() < 16 {
                        for bump in (0..=255u8).rev() {
                            let mut f = flat.clone();
                            f.push(vec![bump]);
                            if let Some(k) = create_pda(&f, &prog) {
                                res = Some((k, bump));
                                break;
                            }
                        }
                    }
                    self.pda_cache.insert(key, res);
                    res
                };
                match (ic, r) {
                    (Ic::FindPda, Some((k, bump))) => {
                        let mut b: Vec<MB> = k.iter().map(|x| MB::C(*x)).collect();
                        b.push(MB::C(bump));
                        self.write_bytes(st, out, &b).map_err(Stop::Err)?;
                        Ok(None)
                    }
                    (Ic::TryFindPda, Some((k, bump))) => {
                        let mut b = vec![MB::C(1)];
                        b.extend(k.iter().map(|x| MB::C(*x)));
                        b.push(MB::C(bump));
                        self.write_bytes(st, out, &b).map_err(Stop::Err)?;
                        Ok(None)
                    }
                    (Ic::TryFindPda, None) => {
                        self.write_bytes(st, out, &[MB::C(0)]).map_err(Stop::Err)?;
                        Ok(None)
                    }
                    _ => Err(Stop::Panic("find_program_address".into())),
                }
            }
        }
    }

    fn hashv(&mut self, st: &mut State, ic: Ic, a: Vec<V>) -> R<Option<V>> {
        use sha2::Digest;
        let out = self.conc(st, &a[0], 64)? as u64;
        let p = self.conc(st, &a[1], 64)? as u64;
        let n = self.conc(st, &a[2], 64)? as u64;
        let parts: Vec<MB> = if ic == Ic::Hashv {
            self.seeds(st, p, n)?.into_iter().flatten().collect()
        } else {
            self.read_bytes(st, p, n).map_err(Stop::Err)?
        };
        if parts.iter().all(|b| matches!(b, MB::C(_))) {
            let v: Vec<u8> = parts
                .iter()
                .map(|b| match b {
                    MB::C(c) => *c,
                    _ => 0,
                })
                .collect();
            let h = sha2::Sha256::digest(&v);
            // make concrete digests comparable with symbolic ones
            let key = parts.clone();
            let outs: Vec<T> = (0..4)
                .map(|i| self.s.c(u64::from_be_bytes(h[8 * i..8 * i + 8].try_into().unwrap()) as u128, 64))
                .collect();
            if !st.hashes.iter().any(|(k, _)| *k == key) {
                self.hash_axioms(st, &key, &outs);
                st.hashes.push((key, outs));
            }
            let b: Vec<MB> = h.iter().map(|x| MB::C(*x)).collect();
            self.write_bytes(st, out, &b).map_err(Stop::Err)?;
            return Ok(None);
        }
        let key = parts.clone();
        let outs = if let Some((_, o)) = st.hashes.iter().find(|(k, _)| *k == key) {
            o.clone()
        } else {
            let o: Vec<T> = (0..4).map(|i| self.s.var(&format!("sha#{}", i), 64, 0, u64::MAX as u128)).collect();
            self.hash_axioms(st, &key, &o);
            st.hashes.push((key, o.clone()));
            o
        };
        let mut b = vec![];
        for t in outs {
            match self.norm(t) {
                V::C(c) => b.extend((c as u64).to_be_bytes().iter().map(|x| MB::C(*x))),
                _ => {
                    for k in (0..8).rev() {
                        b.push(MB::S(t, k));
                    }
                }
            }
        }
        self.write_bytes(st, out, &b).map_err(Stop::Err)?;
        Ok(None)
    }
    /// x == y for byte strings of equal length, split where the terms are
    fn bytes_eq(&mut self, x: &[MB], y: &[MB]) -> T {
        fn run(b: &[MB], up: bool) -> usize {
            let mut n = 1;
            while n < b.len() && n < 8 {
                let go = match (b[n - 1], b[n]) {
                    (MB::C(_), MB::C(_)) => true,
                    (MB::S(t, k), MB::S(u, l)) => t == u && if up { l == k + 1 } else { l + 1 == k },
                    _ => false,
                };
                if !go {
                    break;
                }
                n += 1;
            }
            n
        }
        let mut eq = TRUE;
        let mut i = 0;
        while i < x.len() {
            if x[i] == y[i] {
                i += 1;
                continue;
            }
            let up = run(&x[i..], true).min(run(&y[i..], true));
            let dn = run(&x[i..], false).min(run(&y[i..], false));
            let n = up.max(dn);
            let w = (8 * n) as u8;
            let (mut p, mut q) = (x[i..i + n].to_vec(), y[i..i + n].to_vec());
            if dn > up {
                p.reverse();
                q.reverse();
            }
            let (p, q) = (self.assemble(&p, w), self.assemble(&q, w));
            let (p, q) = (self.t(&p, w), self.t(&q, w));
            let e = self.s.eq(p, q);
            eq = self.s.and(eq, e);
            i += n;
        }
        eq
    }
    /// collision freedom between this application and all earlier ones on the path
    fn hash_axioms(&mut self, st: &mut State, key: &[MB], outs: &[T]) {
        for (k2, o2) in st.hashes.clone() {
            let mut oe = TRUE;
            for (x, y) in outs.iter().zip(o2.iter()) {
                let e = self.s.eq(*x, *y);
                oe = self.s.and(oe, e);
            }
            let c = if k2.len() == key.len() {
                let ie = self.bytes_eq(key, &k2);
                let x = self.s.xor(ie, oe);
                self.s.not(x)
            } else {
                self.s.not(oe)
            };
            if c != TRUE {
                self.add_pc(st, c);
            }
        }
    }

    // ------------------------------------------------------------ harness API

    fn fresh_name(&mut self, st: &mut State, n: &str) -> String {
        let c = st.names.entry(n.to_string()).or_insert(0);
        *c += 1;
        if *c == 1 {
            n.to_string()
        } else {
            format!("{}#{}", n, c)
        }
    }
    fn new_var(&mut self, st: &mut State, name: &str, w: u8, lo: u128, hi: u128) -> T {
        let nm = self.fresh_name(st, name);
        // the same input on different paths is the same variable
        let key = format!("{}/{}/{}/{}", nm, w, lo, hi);
        let t = if let Some(t) = self.s.named.get(&key) {
            *t
        } else {
            let t = self.s.var(&nm, w, lo, hi);
            self.s.named.insert(key, t);
            t
        };
        st.inputs.push((nm, t));
        t
    }
    fn boolv(&mut self, v: &V) -> T {
        match v {
            V::C(c) => self.s.b(*c & 1 == 1),
            V::T(t) => {
                let w = self.s.w(*t);
                if w == 1 {
                    *t
                } else {
                    let z = self.s.c(0, w);
                    let e = self.s.eq(*t, z);
                    self.s.not(e)
                }
            }
            _ => panic!("bool"),
        }
    }

    fn sym(&mut self, st: &mut State, name: &str, a: Vec<V>) -> R<Option<V>> {
        if self.spec > 0 && !matches!(name, "__sym_ite" | "__sym_param" | "__sym_active") {
            return Err(Stop::Spec);
        }
        match name {
            "__sym_int" => {
                let n = self.str_arg(st, &a[0], &a[1])?;
                let lo = self.conc(st, &a[2], 64)?;
                let hi = self.conc(st, &a[3], 64)?;
                if lo == hi {
                    let nm = self.fresh_name(st, &n);
                    let t = self.s.var(&nm, 64, lo, hi);
                    st.inputs.push((nm, t));
                    return Ok(Some(V::C(lo)));
                }
                let t = self.new_var(st, &n, 64, lo, hi);
                Ok(Some(V::T(t)))
            }
            "__sym_u128" => {
                let n = self.str_arg(st, &a[0], &a[1])?;
                let p = self.conc(st, &a[2], 64)? as u64;
                // bounds: lo_lo lo_hi hi_lo hi_hi
                let lo = self.conc(st, &a[3], 64)? | (self.conc(st, &a[4], 64)? << 64);
                let hi = self.conc(st, &a[5], 64)? | (self.conc(st, &a[6], 64)? << 64);
                let t = self.new_var(st, &n, 128, lo, hi);
                let b: Vec<MB> = (0..16).map(|i| MB::S(t, i)).collect();
                self.write_bytes(st, p, &b).map_err(Stop::Err)?;
                Ok(None)
            }
            "__sym_key" => {
                let n = self.str_arg(st, &a[0], &a[1])?;
                let p = self.conc(st, &a[2], 64)? as u64;
                let mut b = vec![];
                for i in 0..4 {
                    let t = self.new_var(st, &format!("{}.{}", n, i), 64, 0, u64::MAX as u128);
                    for k in (0..8).rev() {
                        b.push(MB::S(t, k));
                    }
                }
                self.write_bytes(st, p, &b).map_err(Stop::Err)?;
                Ok(None)
            }
            "__sym_assume" => {
                let c = self.boolv(&a[0]);
                match self.quick_truth(st, c) {
                    Some(true) => return Ok(None),
                    Some(false) => return Err(Stop::Infeasible),
                    None => {}
                }
                let (f, m) = self.feas(st, c);
                if !f {
                    return Err(Stop::Infeasible);
                }
                st.model = m;
                self.add_pc(st, c);
                Ok(None)
            }
            "__sym_assert" => {
                let c = self.boolv(&a[0]);
                let msg = self.str_arg(st, &a[1], &a[2])?;
                self.do_assert(st, c, msg)?;
                Ok(None)
            }
            "__sym_cover" => {
                let msg = self.str_arg(st, &a[0], &a[1])?;
                if self.relevant(&msg) && !st.covers.contains(&msg) {
                    st.covers.push(msg);
                }
                Ok(None)
            }
            "__sym_observe" => {
                let msg = self.str_arg(st, &a[0], &a[1])?;
                st.observes.push((msg, a[2].clone()));
                Ok(None)
            }
            "__sym_nopanic" => {
                let msg = self.str_arg(st, &a[0], &a[1])?;
                if msg.is_empty() {
                    st.nopanic = None;
                } else {
                    if self.relevant(&msg) {
                        self.nopanic_stat.entry(msg.clone()).or_insert(AssertStat {
                            checked: 0,
                            trivially: 0,
                            by_solver: 0,
                            undecided: 0,
                        });
                    }
                    st.nopanic = Some(msg);
                }
                Ok(None)
            }
            "__sym_param" => {
                let n = self.str_arg(st, &a[0], &a[1])?;
                let dflt = self.conc(st, &a[2], 64)?;
                Ok(Some(V::C(self.cfg.params.get(&n).map(|x| *x as u128).unwrap_or(dflt))))
            }
            "__sym_pick" => {
                let v = self.conc(st, &a[0], 64)?;
                Ok(Some(V::C(v)))
            }
            "__sym_ite" => {
                let c = self.boolv(&a[0]);
                let (x, y) = (self.t(&a[1], 64), self.t(&a[2], 64));
                let c = match self.quick_truth(st, c) {
                    Some(b) => self.s.b(b),
                    None => c,
                };
                let r = self.s.ite(c, x, y);
                Ok(Some(self.norm(r)))
            }
            "__sym_active" => {
                let msg = self.str_arg(st, &a[0], &a[1])?;
                Ok(Some(V::C(self.relevant(&msg) as u128)))
            }
            "__sym_end" => Err(Stop::End),
            "__sym_abort" => {
                let msg = self.str_arg(st, &a[0], &a[1])?;
                Err(Stop::Err(format!("harness: {}", msg)))
            }
            n => Err(Stop::Err(format!("unknown {}", n))),
        }
    }

    fn do_assert(&mut self, st: &mut State, c: T, msg: String) -> R<()> {
        if !self.relevant(&msg) {
            return Ok(());
        }
        let qt = self.quick_truth(st, c);
        {
            let e = self.asserts.entry(msg.clone()).or_insert(AssertStat {
                checked: 0,
                trivially: 0,
                by_solver: 0,
                undecided: 0,
            });
            e.checked += 1;
            if let Some(true) = qt {
                e.trivially += 1;
                return Ok(());
            }
        }
        let nc = self.s.not(c);
        // a known model may already refute it
        if let Some(m) = &st.model {
            let mv = self.pad(m);
            if self.holds(&[nc], &mv) {
                let mut all = st.pc.clone();
                all.push(nc);
                if self.holds(&all, &mv) {
                    let inp = self.model_inputs(st, &mv);
                    self.violations.push(Violation {
                        msg,
                        model: inp,
                        how: "path model".into(),
                    });
                    return Err(Stop::End);
                }
            }
        }
        let lits = self.slice(st, nc);
        let t9 = std::time::Instant::now();
        let (r, how) = timed!("decide", self, self.sol.decide(&mut self.s, &lits, self.cfg.decide_s, st.hint.as_ref().map(|h| &h[..])));
        if self.cfg.verbose && t9.elapsed().as_millis() > 500 {
            eprintln!("  {:.1}s {} {}", t9.elapsed().as_secs_f64(), how, msg);
            if t9.elapsed().as_secs() > 3 && std::env::var("SHOW").is_ok() {
                for l in &lits { eprintln!("      {}", self.s.show(*l)); }
            }
        }
        match r {
            Res::Unsat => {
                *self.engines.entry(how).or_default() += 1;
                self.asserts.get_mut(&msg).unwrap().by_solver += 1;
                self.add_known(st, c);
                Ok(())
            }
            Res::Sat(m) => {
                // complete to a model of the whole path
                let mut all = st.pc.clone();
                all.push(nc);
                let base = st.model.clone();
                let mut mv = self.model_vec(&m, base.as_ref().map(|b| &b[..]));
                if !self.holds(&all, &mv) {
                    match timed!("decide", self, self.sol.decide(&mut self.s, &all, self.cfg.decide_s, st.hint.as_ref().map(|h| &h[..]))) {
                        (Res::Sat(m2), _) => mv = self.model_vec(&m2, None),
                        (Res::Unsat, _) => {
                            self.asserts.get_mut(&msg).unwrap().by_solver += 1;
                            return Err(Stop::Infeasible);
                        }
                        _ => {
                            self.asserts.get_mut(&msg).unwrap().undecided += 1;
                            self.undecided.push(msg);
                            return Ok(());
                        }
                    }
                }
                let inp = self.model_inputs(st, &mv);
                self.violations.push(Violation { msg, model: inp, how });
                Err(Stop::End)
            }
            Res::Unknown => {
                self.asserts.get_mut(&msg).unwrap().undecided += 1;
                self.undecided.push(msg);
                Ok(())
            }
        }
    }

    // ------------------------------------------------------------ LLVM intrinsics

    fn intrin(&mut self, st: &mut State, name: &str, rt: Ty, a: Vec<V>, args: &[(Ty, Op)]) -> R<Option<V>> {
        let parts: Vec<&str> = name.split('.').collect();
        let base = parts.get(1).copied().unwrap_or("");
        let ty = args.get(0).map(|x| x.0);
        let w = ty
            .map(|t| match self.m.k(t) {
                TyK::Int(_) | TyK::Ptr | TyK::F32 | TyK::F64 => self.m.bits(t),
                _ => 0,
            })
            .unwrap_or(0);
        match base {
            "memcpy" | "memmove" => {
                self.intercept(st, Ic::Memcpy, &Rc::new(FnRef { name: String::new(), id: 0 }), rt, a, args)?;
                return Ok(None);
            }
            "memset" => {
                self.intercept(st, Ic::Memset, &Rc::new(FnRef { name: String::new(), id: 0 }), rt, a, args)?;
                return Ok(None);
            }
            "trap" | "debugtrap" | "ubsantrap" => return Err(Stop::Panic(format!("trap in {}", self.site(st)))),
            "threadlocal" | "launder" | "strip" => return Ok(Some(a[0].clone())),
            "expect" | "ssa" => return Ok(Some(a[0].clone())),
            "is" => return Ok(Some(V::C(0))), // is.constant
            "assume" | "prefetch" | "stackrestore" | "invariant" | "donothing" => {
                return Ok(if *self.m.k(rt) == TyK::Void { None } else { Some(self.m.zero(rt)) });
            }
            "stacksave" => return Ok(Some(V::C(0))),
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if parts[2] == "with" => {
                let w = fits(w);
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let (r, o) = match base {
                    "uadd" => (self.s.add(x, y), self.s.uadd_ov(x, y)),
                    "usub" => (self.s.sub(x, y), self.s.ult(x, y)),
                    "umul" => (self.s.mul(x, y), self.s.umul_ov(x, y)),
                    "sadd" => (self.s.add(x, y), self.s.sadd_ov(x, y)),
                    "ssub" => (self.s.sub(x, y), self.s.ssub_ov(x, y)),
                    _ => (self.s.mul(x, y), self.s.smul_ov(x, y)),
                };
                return Ok(Some(V::A(vec![self.norm(r), self.norm(o)].into())));
            }
            "uadd" | "usub" if parts[2] == "sat" => {
                let w = fits(w);
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let r = if base == "usub" {
                    self.s.usub_sat(x, y)
                } else {
                    let o = self.s.uadd_ov(x, y);
                    let s = self.s.add(x, y);
                    let m = self.s.c(mask(w), w);
                    self.s.ite(o, m, s)
                };
                return Ok(Some(self.norm(r)));
            }
            "sadd" | "ssub" if parts[2] == "sat" => {
                let w = fits(w);
                if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                    let (x, y) = (sx(*x, w), sx(*y, w));
                    let r = if base == "sadd" { x + y } else { x - y };
                    let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    return Ok(Some(V::C(r.clamp(lo, hi) as u128 & mask(w))));
                }
            }
            "umin" | "umax" | "smin" | "smax" => {
                if let (V::A(xs), V::A(ys), Some(t)) = (&a[0], &a[1], ty) {
                    if let TyK::Vect(_, e) = self.m.k(t).clone() {
                        let p = if base == "umin" { Pred::Ult } else if base == "umax" { Pred::Ugt } else if base == "smin" { Pred::Slt } else { Pred::Sgt };
                        let mut r = vec![];
                        for (x, y) in xs.iter().zip(ys.iter()) {
                            let c = self.icmp(p, e, x, y)?;
                            r.push(self.select(e, &c, x, y)?);
                        }
                        return Ok(Some(V::A(r.into())));
                    }
                }
                let w = fits(w);
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let c = match base {
                    "umin" => self.s.ult(x, y),
                    "umax" => self.s.ult(y, x),
                    "smin" => self.s.slt(x, y),
                    _ => self.s.slt(y, x),
                };
                let r = self.s.ite(c, x, y);
                return Ok(Some(self.norm(r)));
            }
            "ucmp" | "scmp" => {
                let rw = fits(self.m.bits(rt));
                let w = fits(w);
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let lt = if base == "ucmp" { self.s.ult(x, y) } else { self.s.slt(x, y) };
                let eq = self.s.eq(x, y);
                let m1 = self.s.c(u128::MAX, rw);
                let z = self.s.c(0, rw);
                let p1 = self.s.c(1, rw);
                let e = self.s.ite(eq, z, p1);
                let r = self.s.ite(lt, m1, e);
                return Ok(Some(self.norm(r)));
            }
            "abs" => {
                let w = fits(w);
                let x = self.t(&a[0], w);
                let z = self.s.c(0, w);
                let n = self.s.slt(x, z);
                let neg = self.s.sub(z, x);
                let r = self.s.ite(n, neg, x);
                return Ok(Some(self.norm(r)));
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                let w = fits(w);
                match &a[0] {
                    V::C(x) => {
                        let x = *x;
                        let r = match base {
                            "ctlz" => {
                                if x == 0 {
                                    w as u128
                                } else {
                                    (x.leading_zeros() - (128 - w as u32)) as u128
                                }
                            }
                            "cttz" => {
                                if x == 0 {
                                    w as u128
                                } else {
                                    x.trailing_zeros() as u128
                                }
                            }
                            "ctpop" => x.count_ones() as u128,
                            "bswap" => x.swap_bytes() >> (128 - w as u32),
                            _ => x.reverse_bits() >> (128 - w as u32),
                        };
                        return Ok(Some(V::C(r)));
                    }
                    V::T(_) if base == "bswap" => {
                        let b = self.bytes_of(&a[0], w as usize / 8, w);
                        let r: Vec<MB> = b.into_iter().rev().collect();
                        return Ok(Some(self.assemble(&r, w)));
                    }
                    V::T(t) => {
                        let v = V::T(*t);
                        let c = self.conc(st, &v, w)?;
                        return self.intrin(st, name, rt, vec![V::C(c)], args);
                    }
                    _ => {}
                }
            }
            "fshl" | "fshr" => {
                let w = fits(w);
                let s = self.conc(st, &a[2], w)? % w as u128;
                if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                    let (x, y) = (*x, *y);
                    let m = mask(w);
                    let r = if base == "fshl" {
                        if s == 0 {
                            x
                        } else {
                            (x << s) | (y >> (w as u128 - s))
                        }
                    } else if s == 0 {
                        y
                    } else {
                        (x << (w as u128 - s)) | (y >> s)
                    };
                    return Ok(Some(V::C(r & m)));
                }
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                if s == 0 {
                    let r = if base == "fshl" { x } else { y };
                    return Ok(Some(self.norm(r)));
                }
                let sl = if base == "fshl" { s } else { w as u128 - s } as u8;
                // high part: low (w-sl) bits of x, low part: high sl bits of y
                let h = self.s.extract(x, 0, w - sl);
                let l = self.s.extract(y, w - sl, sl);
                let r = self.s.concat(h, l);
                return Ok(Some(self.norm(r)));
            }
            "vector" => {
                // vector.reduce.*
                if parts.get(2) == Some(&"reduce") {
                    if let (V::A(xs), Some(t)) = (&a[0], ty) {
                        if let TyK::Vect(_, e) = self.m.k(t).clone() {
                            let b = match parts[3] {
                                "and" => Bin::And,
                                "or" => Bin::Or,
                                "add" => Bin::Add,
                                "xor" => Bin::Xor,
                                "mul" => Bin::Mul,
                                _ => return Err(Stop::Err(format!("intrinsic {}", name))),
                            };
                            let mut acc = xs[0].clone();
                            for x in xs.iter().skip(1) {
                                acc = self.bin(st, b, e, &acc, x)?;
                            }
                            return Ok(Some(acc));
                        }
                    }
                }
            }
            "fptoui" | "fptosi" => {
                if let V::C(x) = &a[0] {
                    let d = if w == 64 { f64::from_bits(*x as u64) } else { f32::from_bits(*x as u32) as f64 };
                    let rw = fits(self.m.bits(rt));
                    let r = if base == "fptoui" {
                        (d as u128).min(mask(rw))
                    } else {
                        (d as i128) as u128 & mask(rw)
                    };
                    return Ok(Some(V::C(r)));
                }
            }
            "x86" => {
                if name.ends_with("pause") {
                    return Ok(None);
                }
            }
            _ => {}
        }
        Err(Stop::Err(format!("intrinsic {}", name)))
    }
}

fn create_pda(seeds: &[Vec<u8>], prog: &[u8; 32]) -> Option<[u8; 32]> {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    for s in seeds {
        h.update(s);
    }
    h.update(prog);
    h.update(b"ProgramDerivedAddress");
    let k: [u8; 32] = h.finalize().into();
    if curve25519_dalek::edwards::CompressedEdwardsY(k).decompress().is_some() {
        None
    } else {
        Some(k)
    }
}

fn classify(n: &str) -> Ic {
    if n.starts_with("__sym_") {
        return Ic::Sym;
    }
    if n.starts_with("llvm.") {
        return Ic::Intrin;
    }
    if n.contains("___rustc") {
        if n.ends_with("12___rust_alloc") {
            return Ic::Alloc;
        }
        if n.ends_with("19___rust_alloc_zeroed") {
            return Ic::AllocZeroed;
        }
        if n.ends_with("14___rust_dealloc") {
            return Ic::Dealloc;
        }
        if n.ends_with("14___rust_realloc") {
            return Ic::Realloc;
        }
        if n.contains("rust_begin_unwind") || n.contains("rust_panic") || n.contains("alloc_error_handler") {
            return Ic::Panic;
        }
    }
    match n {
        "memcpy" | "memmove" => return Ic::Memcpy,
        "memset" => return Ic::Memset,
        "memcmp" | "bcmp" => return Ic::Memcmp,
        "strlen" => return Ic::Strlen,
        "abort" | "rust_begin_unwind" | "_Unwind_RaiseException" => return Ic::Panic,
        _ => {}
    }
    if n.starts_with("_ZN4core9panicking") || n.starts_with("_ZN3std9panicking") || n.starts_with("_ZN3std7process5abort") {
        if n.contains("panic_count") || n.contains("9panicking9panicking17h") {
            return Ic::Nothing;
        }
        return Ic::Panic;
    }
    if n.starts_with("_ZN4core6option13unwrap_failed") || n.starts_with("_ZN4core6option13expect_failed") || n.starts_with("_ZN4core6result13unwrap_failed") || n.starts_with("_ZN5alloc5alloc18handle_alloc_error") || n.starts_with("_ZN5alloc7raw_vec17capacity_overflow") || n.starts_with("_ZN5alloc7raw_vec12handle_error") {
        return Ic::Panic;
    }
    if n.starts_with("_ZN5alloc3fmt6format12format_inner") {
        return Ic::FormatInner;
    }
    if n.starts_with("_ZN4core3fmt5write17h") || n.contains("write_as_base58") {
        return Ic::FmtWrite;
    }
    if n.starts_with("_ZN3std2io5stdio6_print") || n.starts_with("_ZN3std2io5stdio7_eprint") {
        return Ic::Nothing;
    }
    if n.contains("hashmap_random_keys") {
        return Ic::RandomKeys;
    }
    if n.starts_with("_ZN13solana_pubkey6Pubkey20find_program_address") {
        return Ic::FindPda;
    }
    if n.starts_with("_ZN13solana_pubkey6Pubkey24try_find_program_address") {
        return Ic::TryFindPda;
    }
    if n.starts_with("_ZN13solana_pubkey6Pubkey22create_program_address") {
        return Ic::CreatePda;
    }
    if n.starts_with("_ZN20solana_sha256_hasher5hashv17h") {
        return Ic::Hashv;
    }
    if n.starts_with("_ZN20solana_sha256_hasher4hash17h") {
        return Ic::Hash;
    }
    Ic::None
}

pub fn demangle(n: &str) -> String {
    if !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 3;
    let mut parts = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut l = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            l = l * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + l > b.len() {
            break;
        }
        let p = &n[i..i + l];
        i += l;
        if p.len() == 17 && p.starts_with('h') {
            break;
        }
        parts.push(
            p.replace("$LT$", "<")
                .replace("$GT$", ">")
                .replace("$u20$", " ")
                .replace("$RF$", "&")
                .replace("$C$", ",")
                .replace("$u7b$", "{")
                .replace("$u7d$", "}")
                .replace("$LP$", "(")
                .replace("$RP$", ")")
                .replace("$u5b$", "[")
                .replace("$u5d$", "]")
                .replace("$BP$", "*")
                .replace("$u27$", "'")
                .replace("..", "::"),
        );
    }
    parts.join("::")
}
