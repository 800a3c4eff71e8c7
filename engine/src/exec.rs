//! Symbolic executor: states, memory, branching, solving.
use crate::builtins::B;
use crate::expr::*;
use crate::func::*;
use crate::ll::*;
use crate::z3::{Sat, Z3};
use std::rc::Rc;
use std::time::Instant;

pub const FUNC_BASE: u64 = 0x7000_0000_0000;
pub const HEAP0: u64 = 0x0100_0000;
pub const STACK0: u64 = 0x0600_0000;
const LEAF: usize = 512;

#[derive(Clone)]
pub struct Obj { pub d: Vec<u8>, pub s: Option<Box<[u32]>>, pub ro: bool, pub cont: u32 }
type Leaf_ = [Option<Rc<Obj>>; LEAF];
#[derive(Clone, Default)]
pub struct Table { top: Vec<Option<Rc<Leaf_>>> }
impl Table {
    #[inline(always)] fn get(&self, i: usize) -> Option<&Rc<Obj>> { match self.top.get(i / LEAF) { Some(Some(l)) => l[i % LEAF].as_ref(), _ => None } }
    fn slot(&mut self, i: usize) -> &mut Option<Rc<Obj>> {
        let t = i / LEAF;
        if t >= self.top.len() { self.top.resize(t + 1, None); }
        let l = self.top[t].get_or_insert_with(|| Rc::new([const { None }; LEAF]));
        &mut Rc::make_mut(l)[i % LEAF]
    }
}

#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub pc: u32, pub base: u32, pub ret: Reg, pub retn: u32, pub stack: bool }

#[derive(Clone)]
pub enum InKind { Int(E, u8), Bytes(Rc<[E]>) }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>, pub regs: Vec<S>,
    pub globals: Table, pub heap: Table, pub stack: Table, pub next_heap: u64,
    pub mpc: Vec<E>, pub mvars: FxSet<u32>, pub doms: FxMap<u32, [u64; 4]>,
    pub known: FxMap<E, bool>, pub conc: FxMap<E, u64>,
    pub model: Rc<Model>,
    pub inputs: Vec<(Rc<str>, InKind)>, pub outs: Vec<(Rc<str>, Rc<[S]>)>,
    pub clock: u64, pub insts: u64, pub allow_panic: bool, pub depth: u32,
    pub live_allocs: u64,
}

pub enum End { Ok, Assume, Panic(String), Abort(String), Exit, Violation }
pub enum Stop { End(End), Err(String), Switch }
pub type X<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> X<T> { Err(Stop::Err(s.into())) }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub ok: u64, pub assume: u64, pub panics: u64, pub exits: u64, pub insts: u64, pub forks: u64,
    pub z3q: u64, pub z3sat: u64, pub z3unsat: u64, pub z3ns: u64, pub cacheq: u64, pub ttq: u64, pub asserts: u64, pub asserts_sym: u64, pub maxinsts: u64, pub symreads: u64, pub maxpc: u64, pub overreads: u64,
}
pub struct Violation { pub msg: String, pub kind: &'static str, pub inputs: String, pub trace: String }
pub struct Cfg { pub max_paths: u64, pub max_insts: u64, pub deadline: Instant, pub rlimit: u32, pub params: Vec<(String, u64)>, pub samples: usize, pub verbose: bool, pub max_depth: usize, pub trace: bool, pub stop_first: bool }
pub struct Shared { pub slots: *const std::sync::atomic::AtomicI64, pub stop: *const std::sync::atomic::AtomicI64, pub paths: *const std::sync::atomic::AtomicI64 }

pub struct Exec {
    pub m: &'static Module, pub cx: Ctx, pub z: Z3,
    funcs: Vec<Option<&'static Func>>, gcache: Vec<Option<Rc<Obj>>>, gids: Vec<u32>, // granule -> global index+1
    pub pending: Vec<State>, pub vars: Vec<E>,
    qcache: FxMap<Vec<E>, Option<Rc<Vec<(u32, u64)>>>>, domx: FxMap<(u32, [u64; 4]), E>,
    pub st: Stats, pub cfg: Cfg, pub sh: Shared,
    pub reach: std::collections::BTreeMap<String, u64>, pub viol: Vec<Violation>, pub samples: Vec<String>,
    pub fseen: Vec<u8>, // 1 executed, 2 with symbolic decision
    pub children: Vec<i32>, pub errno_addr: u64, pub is_child: bool, pub outdir: String,
    edgebuf: Vec<S>,
}

#[inline(always)] fn m64(w: u8) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
#[inline(always)] fn s64(v: u64, w: u8) -> i64 { ((v << (64 - w)) as i64) >> (64 - w) }

#[inline(always)]
fn cbin(op: Op, w: u8, x: u64, y: u64) -> u64 {
    let m = m64(w);
    (match op {
        Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::Mul => x.wrapping_mul(y),
        Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
        Op::Shl => if y >= w as u64 { 0 } else { x << y },
        Op::LShr => if y >= w as u64 { 0 } else { x >> y },
        Op::AShr => { let s = s64(x, w); if y >= w as u64 { if s < 0 { m } else { 0 } } else { (s >> y) as u64 } }
        _ => fold_bin(op, w, x as u128, y as u128) as u64,
    }) & m
}
#[inline(always)]
fn cpred(p: Pred, w: u8, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
        Pred::Sgt => s64(x, w) > s64(y, w), Pred::Sge => s64(x, w) >= s64(y, w), Pred::Slt => s64(x, w) < s64(y, w), Pred::Sle => s64(x, w) <= s64(y, w),
    }
}
fn dom_full(w: u8) -> [u64; 4] { let mut d = [0u64; 4]; let n = 1u32 << w; for v in 0..n { d[(v / 64) as usize] |= 1 << (v % 64); } d }
fn dcount(d: &[u64; 4]) -> u32 { d.iter().map(|x| x.count_ones()).sum() }
fn dand(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn dandn(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] { [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]] }
fn dfirst(a: &[u64; 4]) -> Option<u64> { for i in 0..4 { if a[i] != 0 { return Some(i as u64 * 64 + a[i].trailing_zeros() as u64); } } None }
fn dhas(a: &[u64; 4], v: u64) -> bool { v < 256 && a[(v / 64) as usize] >> (v % 64) & 1 == 1 }
fn dvals(a: &[u64; 4]) -> Vec<u64> { let mut v = vec![]; for i in 0..256u64 { if dhas(a, i) { v.push(i); } } v }

impl Exec {
    pub fn new(m: &'static mut Module, cfg: Cfg, sh: Shared, outdir: String) -> Exec {
        // assign global addresses
        let mut id = 1u64;
        let mut gids = vec![0u32];
        for (k, g) in m.globals.iter_mut().enumerate() {
            if g.external { continue; }
            g.addr = id << 20;
            let n = (g.size >> 20) + 1;
            for _ in 0..n { gids.push(k as u32 + 1); }
            id += n;
        }
        // externals that matter get a small zero object
        for (k, g) in m.globals.iter_mut().enumerate() {
            if !g.external { continue; }
            if crate::builtins::weak_null(&g.name) { g.addr = 0; continue; }
            g.addr = id << 20; g.size = g.size.max(64); gids.push(k as u32 + 1); id += 1;
        }
        let errno_addr = id << 20; gids.push(u32::MAX);
        let nf = m.funcs.len(); let ng = m.globals.len();
        let rl = cfg.rlimit;
        Exec { m, cx: Ctx::new(), z: Z3::new(rl), funcs: vec![None; nf], gcache: vec![None; ng], gids, pending: vec![], vars: vec![], qcache: Default::default(), domx: Default::default(), st: Default::default(), cfg, sh,
            reach: Default::default(), viol: vec![], samples: vec![], fseen: vec![0; nf], children: vec![], errno_addr, is_child: false, outdir, edgebuf: vec![] }
    }
    pub fn func(&mut self, id: u32) -> X<&'static Func> {
        if let Some(f) = self.funcs[id as usize] { return Ok(f); }
        if !self.m.funcs[id as usize].defined { return err(format!("call to undefined function {}", self.m.funcs[id as usize].name)); }
        let f = decode(self.m, id).map_err(Stop::Err)?;
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[id as usize] = Some(f);
        Ok(f)
    }
    pub fn initial(&mut self, entry: &str) -> X<State> {
        let fid = match self.m.syms.get(entry) { Some(Sym::F(f)) => *f, _ => return err(format!("no entry {}", entry)) };
        let f = self.func(fid)?;
        let mut st = State { frames: vec![], regs: vec![], globals: Default::default(), heap: Default::default(), stack: Default::default(), next_heap: 0, mpc: vec![], mvars: Default::default(), doms: Default::default(), known: Default::default(), conc: Default::default(), model: Model::new(vec![]), inputs: vec![], outs: vec![], clock: 1_700_000_000_000_000_000, insts: 0, allow_panic: false, depth: 0, live_allocs: 0 };
        self.push_frame(&mut st, f, 0, 0)?;
        Ok(st)
    }
    fn push_frame(&mut self, st: &mut State, f: &'static Func, ret: Reg, retn: u32) -> X<()> {
        if st.frames.len() >= self.cfg.max_depth { return err("call depth limit"); }
        let base = st.regs.len();
        st.regs.extend_from_slice(&f.template);
        let d = st.frames.len();
        if f.frame > 0 { *st.stack.slot(d) = Some(Rc::new(Obj { d: vec![0; f.frame as usize], s: None, ro: false, cont: 0 })); }
        self.fseen[f.id as usize] |= 1;
        st.frames.push(Frame { f, pc: 0, base: base as u32, ret, retn, stack: f.frame > 0 });
        Ok(())
    }

    // ---------------- memory ----------------
    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> X<u64> {
        if size > 1 << 32 { return err(format!("allocation of {} bytes", size)); }
        let _ = align;
        let id = st.next_heap;
        let n = (size >> 20) + 1;
        *st.heap.slot(id as usize) = Some(Rc::new(Obj { d: vec![0; size as usize], s: None, ro: false, cont: 0 }));
        for k in 1..n { *st.heap.slot((id + k) as usize) = Some(Rc::new(Obj { d: vec![], s: None, ro: false, cont: k as u32 })); }
        st.next_heap += n;
        st.live_allocs += 1;
        if st.next_heap > STACK0 - HEAP0 - 10 { return err("heap address space exhausted"); }
        Ok((HEAP0 + id) << 20)
    }
    pub fn free(&mut self, st: &mut State, p: u64) -> X<()> {
        let id = (p >> 20).wrapping_sub(HEAP0);
        if p & 0xfffff != 0 || id >= st.next_heap { return err(format!("free of non-heap pointer {:#x}", p)); }
        let n = match st.heap.get(id as usize) { Some(o) => (o.d.len() as u64 >> 20) + 1, None => return err(format!("double free {:#x}", p)) };
        for k in 0..n { *st.heap.slot((id + k) as usize) = None; }
        st.live_allocs -= 1;
        Ok(())
    }
    fn global_obj(&mut self, gid: usize) -> X<Rc<Obj>> {
        let gi = match self.gids.get(gid).copied() { Some(0) | None => return err("null or wild global pointer"), Some(u32::MAX) => return Ok(Rc::new(Obj { d: vec![0; 64], s: None, ro: false, cont: 0 })), Some(g) => g as usize - 1 };
        let base = (self.m.globals[gi].addr >> 20) as usize;
        if gid > base { return Ok(Rc::new(Obj { d: vec![], s: None, ro: false, cont: (gid - base) as u32 })); }
        if let Some(o) = &self.gcache[gi] { return Ok(o.clone()); }
        let g = &self.m.globals[gi];
        let mut buf = vec![0u8; g.size as usize];
        if !g.external {
            let mut p = P::new(&self.m.src[..g.text.1]); p.i = g.text.0;
            let c = p.cval(&g.ty).map_err(Stop::Err)?;
            const_bytes(self.m, &g.ty, &c, &mut buf).map_err(Stop::Err)?;
        }
        let o = Rc::new(Obj { d: buf, s: None, ro: g.constant, cont: 0 });
        self.gcache[gi] = Some(o.clone());
        Ok(o)
    }
    /// region table and index of a granule id
    #[inline(always)]
    fn tab(st: &State, id: u64) -> Option<&Rc<Obj>> {
        if id >= HEAP0 { if id < STACK0 { st.heap.get((id - HEAP0) as usize) } else { st.stack.get((id - STACK0) as usize) } } else { st.globals.get(id as usize) }
    }
    fn ensure(&mut self, st: &mut State, id: u64) -> X<()> {
        if id < HEAP0 && st.globals.get(id as usize).is_none() { let o = self.global_obj(id as usize)?; *st.globals.slot(id as usize) = Some(o); }
        Ok(())
    }
    /// locate object: returns (granule id of base, offset)
    #[inline]
    fn locate(&mut self, st: &mut State, addr: u64, n: u64) -> X<(u64, usize)> {
        let mut id = addr >> 20; let mut off = addr & 0xfffff;
        loop {
            match Self::tab(st, id) {
                Some(o) => {
                    if o.cont != 0 { off += (o.cont as u64) << 20; id -= o.cont as u64; continue; }
                    if off + n > o.d.len() as u64 { let l = o.d.len(); return self.memerr(st, addr, n, &format!("out of bounds (object of {} bytes)", l)); }
                    return Ok((id, off as usize));
                }
                None => { if id < HEAP0 && id > 0 && (id as usize) < self.gids.len() { self.ensure(st, id)?; continue; } return self.memerr(st, addr, n, "unmapped or freed"); }
            }
        }
    }
    /// A read that runs past the end of an object but stays within 64 bytes of it and within its 4 KiB page (hand-written
    /// vector loops do this): the excess bytes are unconstrained.
    #[inline(always)]
    fn overread(&self, st: &State, addr: u64, n: u64) -> Option<usize> {
        let off = addr & 0xfffff;
        match Self::tab(st, addr >> 20) { Some(o) if o.cont == 0 && off + n > o.d.len() as u64 => { let l = o.d.len(); if l > 0 && off + n <= l as u64 + 64 && (off + n - 1) >> 12 == (l as u64 - 1) >> 12 { Some(l) } else { None } } _ => None }
    }
    #[cold]
    fn load_garbage(&mut self, st: &mut State, addr: u64, n: usize, len: usize) -> X<S> {
        self.st.overreads += 1;
        let off = (addr & 0xfffff) as usize;
        let mut parts = [0u32; 8]; let mut bytes = [0u8; 8];
        for k in 0..n {
            if off + k < len { let b = self.load(st, addr + k as u64, 1)?; parts[k] = b.e; bytes[k] = b.v as u8; }
            else { parts[k] = self.fresh("overread", 8); }
        }
        Ok(self.join(&parts[..n], &bytes[..n]))
    }
    fn memerr<T>(&mut self, st: &State, addr: u64, n: u64, what: &str) -> X<T> {
        err(format!("memory error: access of {} bytes at {:#x}: {}\n{}", n, addr, what, self.trace(st)))
    }
    #[inline(always)]
    fn oref<'a>(&self, st: &'a State, id: u64) -> &'a Obj { match Self::tab(st, id) { Some(o) => o, None => unreachable!() } }
    #[inline(always)]
    fn omut<'a>(&self, st: &'a mut State, id: u64) -> &'a mut Obj {
        let slot = if id >= HEAP0 { if id < STACK0 { st.heap.slot((id - HEAP0) as usize) } else { st.stack.slot((id - STACK0) as usize) } } else { st.globals.slot(id as usize) };
        Rc::make_mut(slot.as_mut().unwrap())
    }
    #[inline]
    pub fn load(&mut self, st: &mut State, addr: u64, n: usize) -> X<S> {
        if addr >> 20 < HEAP0 && addr >> 20 != 0 && ((addr >> 20) as usize) < self.gids.len() { self.ensure(st, addr >> 20)?; }
        if let Some(len) = self.overread(st, addr, n as u64) { return self.load_garbage(st, addr, n, len); }
        let (id, off) = self.locate(st, addr, n as u64)?;
        let o = self.oref(st, id);
        if let Some(s) = &o.s {
            if s[off..off + n].iter().any(|&e| e != 0) {
                let mut parts = [0u32; 8];
                parts[..n].copy_from_slice(&s[off..off + n]);
                let mut bytes = [0u8; 8]; bytes[..n].copy_from_slice(&o.d[off..off + n]);
                return Ok(self.join(&parts[..n], &bytes[..n]));
            }
        }
        let mut b = [0u8; 8];
        match n { 8 => b.copy_from_slice(&o.d[off..off + 8]), 1 => b[0] = o.d[off], _ => b[..n].copy_from_slice(&o.d[off..off + n]) }
        Ok(cs(u64::from_le_bytes(b)))
    }
    fn join(&mut self, parts: &[u32], bytes: &[u8]) -> S {
        let mut acc: E = 0;
        for i in 0..parts.len() {
            let e = if parts[i] != 0 { parts[i] } else { self.cx.cst(bytes[i] as u128, 8) };
            acc = if i == 0 { e } else { self.cx.concat(e, acc) };
        }
        self.mk(acc)
    }
    #[inline]
    pub fn store(&mut self, st: &mut State, addr: u64, n: usize, v: S) -> X<()> {
        let (id, off) = self.locate(st, addr, n as u64)?;
        if v.e == 0 {
            let o = self.omut(st, id);
            if o.ro { return self.memerr(st, addr, n as u64, "write to constant"); }
            let b = v.v.to_le_bytes();
            match n { 8 => o.d[off..off + 8].copy_from_slice(&b), 1 => o.d[off] = b[0], _ => o.d[off..off + n].copy_from_slice(&b[..n]) }
            if let Some(s) = &mut o.s { for k in off..off + n { s[k] = 0; } }
        } else {
            let w = self.cx.w(v.e);
            let e = if (w as usize) < n * 8 { self.cx.zext(v.e, n as u8 * 8) } else { v.e };
            let mut bs = [S { e: 0, v: 0 }; 8];
            for k in 0..n { let x = self.cx.extract(e, k as u8 * 8, 8); bs[k] = self.mk(x); }
            let o = self.omut(st, id);
            if o.ro { return self.memerr(st, addr, n as u64, "write to constant"); }
            let len = o.d.len();
            let s = o.s.get_or_insert_with(|| vec![0u32; len].into_boxed_slice());
            for k in 0..n { s[off + k] = bs[k].e; o.d[off + k] = bs[k].v as u8; }
        }
        Ok(())
    }
    pub fn read_bytes(&mut self, st: &mut State, addr: u64, n: usize) -> X<(Vec<u8>, Option<Vec<u32>>)> {
        if n == 0 { return Ok((vec![], None)); }
        let (id, off) = self.locate(st, addr, n as u64)?;
        let o = self.oref(st, id);
        let d = o.d[off..off + n].to_vec();
        let s = match &o.s { Some(s) if s[off..off + n].iter().any(|&e| e != 0) => Some(s[off..off + n].to_vec()), _ => None };
        Ok((d, s))
    }
    pub fn write_bytes(&mut self, st: &mut State, addr: u64, d: &[u8], s: Option<&[u32]>) -> X<()> {
        let n = d.len();
        if n == 0 { return Ok(()); }
        let (id, off) = self.locate(st, addr, n as u64)?;
        let o = self.omut(st, id);
        if o.ro { return self.memerr(st, addr, n as u64, "write to constant"); }
        o.d[off..off + n].copy_from_slice(d);
        match s {
            Some(s) => { let len = o.d.len(); let os = o.s.get_or_insert_with(|| vec![0u32; len].into_boxed_slice()); os[off..off + n].copy_from_slice(s); }
            None => if let Some(os) = &mut o.s { for k in off..off + n { os[k] = 0; } }
        }
        Ok(())
    }
    pub fn cstr_bytes(&mut self, st: &mut State, p: u64, n: u64) -> X<String> {
        let (d, _) = self.read_bytes(st, p, n as usize)?;
        Ok(String::from_utf8_lossy(&d).into_owned())
    }

    // ---------------- expressions ----------------
    #[inline] pub fn mk(&self, e: E) -> S { match self.cx.isc(e) { Some(k) => cs(k as u64), None => S { e, v: 0 } } }
    #[inline] pub fn ex(&mut self, s: S, w: u8) -> E {
        if s.e == 0 { return self.cx.cst(s.v as u128, w); }
        let ew = self.cx.w(s.e);
        if ew == w { s.e } else if ew < w { self.cx.zext(s.e, w) } else { self.cx.extract(s.e, 0, w) }
    }
    fn not_s(&mut self, e: E) -> E { self.cx.not(e) }

    // ---------------- solving ----------------
    fn dom_expr(&mut self, v: u32, d: &[u64; 4]) -> Option<E> {
        let w = self.cx.vars[v as usize].w;
        if *d == dom_full(w) { return None; }
        if let Some(&e) = self.domx.get(&(v, *d)) { return Some(e); }
        let ve = self.vars[v as usize];
        let n = 1u64 << w;
        let mut acc = self.cx.cst(0, 1);
        let mut i = 0;
        while i < n {
            if !dhas(d, i) { i += 1; continue; }
            let a = i; while i < n && dhas(d, i) { i += 1; } let b = i - 1;
            let ca = self.cx.cst(a as u128, w); let cb = self.cx.cst(b as u128, w);
            let r = if a == b { self.cx.eq(ve, ca) } else { let x = self.cx.ule(ca, ve); let y = self.cx.ule(ve, cb); self.cx.bin(Op::And, x, y) };
            acc = self.cx.bin(Op::Or, acc, r);
        }
        self.domx.insert((v, *d), acc);
        Some(acc)
    }
    /// is pc ∧ e satisfiable?  Some(model) if so
    fn feasible(&mut self, st: &State, e: E) -> X<Option<Rc<Model>>> {
        match self.cx.isc(e) { Some(1) => return Ok(Some(st.model.clone())), Some(_) => return Ok(None), None => {} }
        let mut vs: FxSet<u32> = self.cx.varset(e).iter().copied().collect();
        // slice
        let mut cs_: Vec<E> = vec![];
        let mut rest: Vec<(E, Rc<[u32]>)> = st.mpc.iter().map(|&c| (c, self.cx.varset(c))).collect();
        loop {
            let n = rest.len();
            rest.retain(|(c, v)| if v.iter().any(|x| vs.contains(x)) { cs_.push(*c); for x in v.iter() { vs.insert(*x); } false } else { true });
            if rest.len() == n { break; }
        }
        let mut vl: Vec<u32> = vs.into_iter().collect(); vl.sort_unstable();
        for &v in &vl { if let Some(d) = st.doms.get(&v) { let d = *d; if let Some(x) = self.dom_expr(v, &d) { cs_.push(x); } } }
        cs_.push(e);
        cs_.sort_unstable(); cs_.dedup();
        let res = if let Some(r) = self.qcache.get(&cs_) { self.st.cacheq += 1; r.clone() } else {
            let t0 = Instant::now();
            let vv: Vec<(u32, E)> = vl.iter().map(|&v| (v, self.vars[v as usize])).collect();
            let r = self.z.check(&self.cx, &cs_, &vv);
            let el = t0.elapsed().as_nanos() as u64;
            self.st.z3q += 1; self.st.z3ns += el;
            if el > 3_000_000_000 && self.cfg.verbose { eprintln!("slow query {:.1}s: {} constraints, {} vars\n{}", el as f64 / 1e9, cs_.len(), vl.len(), self.trace(st)); if std::env::var("SX_DUMP").is_ok() { for x in &cs_ { eprintln!("  {}", self.cx.dump(*x, 60).chars().take(6000).collect::<String>()); } } }
            let r = match r { Sat::Sat(m) => { self.st.z3sat += 1; Some(Rc::new(m)) } Sat::Unsat => { self.st.z3unsat += 1; None } Sat::Unknown => return err(format!("solver returned unknown (resource limit)\n{}", self.trace(st))) };
            self.qcache.insert(cs_, r.clone());
            r
        };
        Ok(match res {
            None => None,
            Some(m) => {
                let mut vals = st.model.vals.clone();
                for &(v, x) in m.iter() { if vals.len() <= v as usize { vals.resize(v as usize + 1, 0); } vals[v as usize] = x; }
                // a variable created after the model was built may have been missing
                Some(Model::new(vals))
            }
        })
    }
    /// a condition over one byte that the byte's current domain already decides becomes a constant
    fn fold1(&mut self, st: &State, v: S) -> S {
        if v.e == 0 || st.doms.is_empty() { return v; }
        let vs = self.cx.varset(v.e);
        if vs.len() != 1 || self.cx.vars[vs[0] as usize].w > 8 { return v; }
        let d = match st.doms.get(&vs[0]) { Some(d) => *d, None => return v };
        let t = self.cx.tt(v.e);
        let (mut any1, mut any0) = (0, 0);
        for i in 0..4 { any1 |= t[i] & d[i]; any0 |= !t[i] & d[i]; }
        if any1 == 0 { cs(0) } else if any0 == 0 { cs(1) } else { v }
    }
    fn dom(&self, st: &State, v: u32) -> [u64; 4] { match st.doms.get(&v) { Some(d) => *d, None => dom_full(self.cx.vars[v as usize].w) } }
    /// record a fact as known true (decomposing conjunctions)
    fn learn(&mut self, st: &mut State, e: E, val: bool) {
        let n = *self.cx.n(e);
        st.known.insert(e, val);
        if n.op == Op::Xor && n.w == 1 && self.cx.isc(n.b) == Some(1) { st.known.insert(n.a, !val); self.learn_inner(st, n.a, !val); }
        else { self.learn_inner(st, e, val); }
    }
    fn learn_inner(&mut self, st: &mut State, e: E, val: bool) {
        let n = *self.cx.n(e);
        if n.op == Op::And && n.w == 1 && val { self.learn(st, n.a, true); self.learn(st, n.b, true); }
        if n.op == Op::Or && n.w == 1 && !val { self.learn(st, n.a, false); self.learn(st, n.b, false); }
        if n.op == Op::Eq && val { if let Some(k) = self.cx.isc(n.b) { st.conc.insert(n.a, k as u64); } }
    }
    fn add(&mut self, st: &mut State, e: E, val: bool, model: Rc<Model>) {
        st.model = model;
        self.learn(st, e, val);
        let c = if val { e } else { self.cx.not(e) };
        let vs = self.cx.varset(c);
        if vs.len() == 1 && self.cx.vars[vs[0] as usize].w <= 8 {
            let t = self.cx.tt(c);
            let d = dand(&self.dom(st, vs[0]), &t);
            st.doms.insert(vs[0], d);
        } else {
            st.mpc.push(c);
            for v in vs.iter() { st.mvars.insert(*v); }
            self.st.maxpc = self.st.maxpc.max(st.mpc.len() as u64);
        }
    }
    /// truth table of e over its single free variable, when all its other variables are pinned
    fn single(&mut self, st: &State, e: E) -> Option<(u32, [u64; 4])> {
        let vs = self.cx.varset(e);
        if vs.len() == 1 { if self.cx.vars[vs[0] as usize].w <= 8 { return Some((vs[0], self.cx.tt(e))); } return None; }
        let mut free = None;
        for &v in vs.iter() {
            if self.cx.vars[v as usize].w <= 8 { if let Some(d) = st.doms.get(&v) { if dcount(d) == 1 { continue; } } }
            if free.is_some() { return None; }
            free = Some(v);
        }
        let v = free?;
        if self.cx.vars[v as usize].w > 8 { return None; }
        let d = self.dom(st, v);
        let mut t = [0u64; 4];
        for x in dvals(&d) {
            let mut memo = Default::default();
            let model = st.model.clone();
            if self.cx.eval_with(e, &|k| if k == v { x } else { model.vals.get(k as usize).copied().unwrap_or(0) }, &mut memo) & 1 == 1 { t[(x / 64) as usize] |= 1 << (x % 64); }
        }
        Some((v, t))
    }
    fn all_pinned(&mut self, st: &State, e: E) -> bool {
        let vs = self.cx.varset(e);
        vs.iter().all(|v| self.cx.vars[*v as usize].w <= 8 && st.doms.get(v).map_or(false, |d| dcount(d) == 1))
    }
    fn with_val(m: &Rc<Model>, v: u32, x: u64) -> Rc<Model> { let mut vals = m.vals.clone(); if vals.len() <= v as usize { vals.resize(v as usize + 1, 0); } vals[v as usize] = x; Model::new(vals) }
    /// model for pc ∧ (e == val), if feasible
    fn side(&mut self, st: &State, e: E, val: bool) -> X<Option<Rc<Model>>> {
        if self.cx.eval(e, &st.model) & 1 == val as u128 { return Ok(Some(st.model.clone())); }
        if self.all_pinned(st, e) { self.st.ttq += 1; return Ok(None); }
        if let Some((v, t)) = self.single(st, e) {
            let d = self.dom(st, v);
            let r = if val { dand(&d, &t) } else { dandn(&d, &t) };
            match dfirst(&r) { None => { self.st.ttq += 1; return Ok(None); } Some(x) => if !st.mvars.contains(&v) { self.st.ttq += 1; return Ok(Some(Self::with_val(&st.model, v, x))); } }
        }
        let q = if val { e } else { self.cx.not(e) };
        self.feasible(st, q)
    }
    /// Decide a 1-bit condition; forks the other side when it is feasible (the fork re-executes the instruction).
    pub fn decide(&mut self, st: &mut State, e: E) -> X<bool> {
        if let Some(k) = self.cx.isc(e) { return Ok(k & 1 == 1); }
        if let Some(&b) = st.known.get(&e) { return Ok(b); }
        let n = *self.cx.n(e);
        if n.op == Op::Xor && self.cx.isc(n.b) == Some(1) { if let Some(&b) = st.known.get(&n.a) { return Ok(!b); } }
        let f = st.frames.last().unwrap().f.id;
        self.fseen[f as usize] |= 2;
        let side = self.cx.eval(e, &st.model) & 1 == 1;
        match self.side(st, e, !side)? {
            None => { self.learn(st, e, side); Ok(side) }
            Some(m) => {
                let mut o = st.clone();
                o.depth += 1; st.depth += 1;
                self.add(&mut o, e, !side, m);
                let sm = st.model.clone();
                self.add(st, e, side, sm);
                self.st.forks += 1;
                self.pending.push(o);
                self.maybe_spawn()?;
                Ok(side)
            }
        }
    }
    fn simp(&mut self, st: &State, mut e: E) -> E {
        loop {
            let n = *self.cx.n(e);
            if n.op == Op::Ite { match self.cx.isc(n.a) { Some(k) => { e = if k == 1 { n.b } else { n.c }; continue; } None => {} } if let Some(&b) = st.known.get(&n.a) { e = if b { n.b } else { n.c }; continue; } }
            return e;
        }
    }
    /// Make a value concrete, forking over its feasible values (re-executing the instruction in the forks).
    pub fn concretize(&mut self, st: &mut State, s: S, w: u8) -> X<u64> {
        if s.e == 0 { return Ok(s.v); }
        let e = self.simp(st, s.e);
        let _ = w;
        if let Some(k) = self.cx.isc(e) { return Ok(k as u64); }
        if let Some(&v) = st.conc.get(&e) { return Ok(v); }
        let v = self.cx.eval(e, &st.model);
        let c = self.cx.cst(v, self.cx.w(e));
        let q = self.cx.eq(e, c);
        let r = self.decide(st, q)?;
        debug_assert!(r);
        st.conc.insert(e, v as u64);
        Ok(v as u64)
    }
    /// all feasible values of e (None if more than limit)
    fn candidates(&mut self, st: &State, e: E, limit: usize) -> X<Option<Vec<u64>>> {
        if let Some(&v) = st.conc.get(&e) { return Ok(Some(vec![v])); }
        let vs = self.cx.varset(e);
        let free: Vec<u32> = vs.iter().copied().filter(|v| !(self.cx.vars[*v as usize].w <= 8 && st.doms.get(v).map_or(false, |d| dcount(d) == 1))).collect();
        if free.is_empty() { return Ok(Some(vec![self.cx.eval(e, &st.model) as u64])); }
        if free.len() == 1 && self.cx.vars[free[0] as usize].w <= 8 && !st.mvars.contains(&free[0]) {
            let v = free[0]; let d = self.dom(st, v);
            let mut out = vec![];
            for x in dvals(&d) {
                let mut memo = Default::default();
                let model = st.model.clone();
                out.push(self.cx.eval_with(e, &|k| if k == v { x } else { model.vals.get(k as usize).copied().unwrap_or(0) }, &mut memo) as u64);
            }
            self.st.ttq += 1;
            out.sort_unstable(); out.dedup();
            return Ok(if out.len() > limit { None } else { Some(out) });
        }
        let mut out = vec![self.cx.eval(e, &st.model) as u64];
        let w = self.cx.w(e);
        let c = self.cx.cst(out[0] as u128, w);
        let q = self.cx.eq(e, c); let mut acc = self.not_s(q);
        loop {
            match self.feasible(st, acc)? {
                None => return Ok(Some(out)),
                Some(m) => {
                    let v = self.cx.eval(e, &m) as u64;
                    out.push(v);
                    if out.len() > limit { return Ok(None); }
                    let c = self.cx.cst(v as u128, w); let q = self.cx.eq(e, c); let nq = self.not_s(q);
                    acc = self.cx.bin(Op::And, acc, nq);
                }
            }
        }
    }
    fn load_sym(&mut self, st: &mut State, p: E, n: usize) -> X<S> {
        let p = self.simp(st, p);
        if let Some(k) = self.cx.isc(p) { return self.load(st, k as u64, n); }
        self.st.symreads += 1;
        let c = match self.candidates(st, p, 300)? { Some(c) => c, None => { let a = self.concretize(st, S { e: p, v: 0 }, 64)?; return self.load(st, a, n); } };
        let mut groups: Vec<(S, Vec<u64>)> = vec![];
        for a in c {
            let v = match self.load(st, a, n) { Ok(v) => v, Err(Stop::Err(x)) => { 
                // which inputs lead there?
                return err(format!("symbolic pointer: {}", x)) } Err(x) => return Err(x) };
            match groups.iter_mut().find(|g| g.0 == v) { Some(g) => g.1.push(a), None => groups.push((v, vec![a])) }
        }
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        let w = n as u8 * 8;
        let mut acc = self.ex(groups[0].0, w);
        for (v, addrs) in &groups[1..] {
            let mut cond = self.cx.cst(0, 1);
            for a in addrs { let k = self.cx.cst(*a as u128, 64); let q = self.cx.eq(p, k); cond = self.cx.bin(Op::Or, cond, q); }
            let ve = self.ex(*v, w);
            acc = self.cx.ite(cond, ve, acc);
        }
        Ok(self.mk(acc))
    }
    fn store_sym(&mut self, st: &mut State, p: E, n: usize, v: S) -> X<()> {
        let p = self.simp(st, p);
        if let Some(k) = self.cx.isc(p) { return self.store(st, k as u64, n, v); }
        let c = self.candidates(st, p, 64)?;
        match c {
            Some(c) => {
                let w = n as u8 * 8;
                let ve = self.ex(v, w);
                for a in c {
                    let old = self.load(st, a, n)?; let oe = self.ex(old, w);
                    let k = self.cx.cst(a as u128, 64); let q = self.cx.eq(p, k);
                    let x = self.cx.ite(q, ve, oe); let s = self.mk(x);
                    self.store(st, a, n, s)?;
                }
                Ok(())
            }
            None => { let a = self.concretize(st, S { e: p, v: 0 }, 64)?; self.store(st, a, n, v) }
        }
    }
    #[inline] fn ld(&mut self, st: &mut State, p: S, n: usize) -> X<S> { if p.e == 0 { self.load(st, p.v, n) } else { self.load_sym(st, p.e, n) } }
    #[inline] fn sto(&mut self, st: &mut State, p: S, n: usize, v: S) -> X<()> { if p.e == 0 { self.store(st, p.v, n, v) } else { self.store_sym(st, p.e, n, v) } }

    // ---------------- reporting ----------------
    pub fn trace(&self, st: &State) -> String {
        let mut out = String::new();
        for f in st.frames.iter().rev().take(25) { out.push_str(&format!("    {} @{}\n", f.f.name, f.pc)); }
        out
    }
    pub fn dump_inputs(&mut self, st: &State, m: &Model) -> String {
        let mut out = String::new();
        for (n, k) in &st.inputs {
            match k {
                InKind::Int(e, w) => out.push_str(&format!("i {} {} {}\n", w, self.cx.eval(*e, m), n)),
                InKind::Bytes(es) => { out.push_str("b "); for e in es.iter() { out.push_str(&format!("{:02x}", self.cx.eval(*e, m))); } if es.is_empty() { out.push('-'); } out.push_str(&format!(" {}\n", n)); }
            }
        }
        out
    }
    fn dump_outs(&mut self, st: &State, m: &Model) -> String {
        let mut out = String::new();
        for (n, k) in &st.outs { out.push_str(&format!("o {} ", n)); for s in k.iter() { let v = if s.e == 0 { s.v as u128 } else { self.cx.eval(s.e, m) }; out.push_str(&format!("{:02x}", v)); } if k.is_empty() { out.push('-'); } out.push('\n'); }
        out
    }
    fn violate(&mut self, st: &State, kind: &'static str, msg: &str, m: &Model) {
        if self.viol.iter().filter(|v| v.msg == msg).count() >= 3 { return; }
        let inputs = self.dump_inputs(st, m);
        let trace = self.trace(st);
        self.viol.push(Violation { msg: msg.to_string(), kind, inputs, trace });
        if self.cfg.stop_first { unsafe { (*self.sh.stop).store(1, std::sync::atomic::Ordering::SeqCst); } }
    }

    // ---------------- driver ----------------
    fn maybe_spawn(&mut self) -> X<()> {
        if self.pending.is_empty() { return Ok(()); }
        unsafe {
            let slots = &*self.sh.slots;
            if slots.load(std::sync::atomic::Ordering::Relaxed) <= 0 { return Ok(()); }
            if slots.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) <= 0 { slots.fetch_add(1, std::sync::atomic::Ordering::SeqCst); return Ok(()); }
            let pid = crate::fork();
            if pid < 0 { slots.fetch_add(1, std::sync::atomic::Ordering::SeqCst); return Ok(()); }
            if pid == 0 {
                let s = self.pending.remove(0);
                self.pending.clear();
                self.pending.push(s);
                self.st = Default::default(); self.reach.clear(); self.viol.clear(); self.samples.clear(); self.children.clear(); self.is_child = true;
                for x in self.fseen.iter_mut() { *x = 0; }
                let fr: Vec<u32> = self.pending[0].frames.iter().map(|f| f.f.id).collect();
                for f in fr { self.fseen[f as usize] |= 1; }
                return Err(Stop::Switch);
            }
            self.children.push(pid);
            self.pending.remove(0);
        }
        Ok(())
    }
    /// explore everything pending; Err(message) = incomplete
    pub fn explore(&mut self) -> Result<(), String> {
        while let Some(mut st) = self.pending.pop() {
            loop {
                unsafe { if (*self.sh.stop).load(std::sync::atomic::Ordering::Relaxed) != 0 { return Ok(()); } }
                if Instant::now() > self.cfg.deadline { return Err("time limit".into()); }
                let before = st.insts;
                let r = self.run(&mut st);
                self.st.insts += st.insts - before;
                self.st.maxinsts = self.st.maxinsts.max(st.insts);
                match r {
                    Ok(()) => unreachable!(),
                    Err(Stop::Switch) => { st = self.pending.pop().unwrap(); continue; }
                    Err(Stop::Err(e)) => { let t = if e.contains('\n') { String::new() } else { self.trace(&st) }; let m = st.model.clone(); let inp = self.dump_inputs(&st, &m); return Err(format!("{}\n{}inputs on this path:\n{}", e, t, inp)); }
                    Err(Stop::End(end)) => {
                        // the solver confirms the condition of every completed path (its byte domains and the constraints over several variables together)
                        if matches!(end, End::Ok) && !self.confirm(&st)? { return Err("the solver finds the condition of a completed path unsatisfiable".into()); }
                        self.finish(&mut st, end); break;
                    }
                }
            }
            let p = unsafe { (*self.sh.paths).fetch_add(1, std::sync::atomic::Ordering::Relaxed) };
            if p as u64 >= self.cfg.max_paths { return Err(format!("path limit {}", self.cfg.max_paths)); }
            if !self.pending.is_empty() { match self.maybe_spawn() { Err(Stop::Switch) => {} Err(_) => unreachable!(), Ok(()) => {} } }
        }
        Ok(())
    }
    fn confirm(&mut self, st: &State) -> Result<bool, String> {
        let mut cs_: Vec<E> = st.mpc.clone();
        let doms: Vec<(u32, [u64; 4])> = st.doms.iter().map(|(v, d)| (*v, *d)).collect();
        for (v, d) in &doms { if let Some(x) = self.dom_expr(*v, d) { cs_.push(x); } }
        if cs_.is_empty() { return Ok(true); }
        cs_.sort_unstable(); cs_.dedup();
        if self.qcache.contains_key(&cs_) { self.st.cacheq += 1; return Ok(true); }
        let t0 = Instant::now();
        let r = self.z.check(&self.cx, &cs_, &[]);
        self.st.z3q += 1; self.st.z3ns += t0.elapsed().as_nanos() as u64;
        match r { Sat::Sat(_) => { self.st.z3sat += 1; Ok(true) } Sat::Unsat => Ok(false), Sat::Unknown => Ok(true) }
    }
    fn finish(&mut self, st: &mut State, end: End) {
        self.st.paths += 1;
        let label;
        match end {
            End::Ok => { self.st.ok += 1; label = "ok".to_string(); }
            End::Exit => { self.st.exits += 1; label = "exit".into(); }
            End::Assume => { self.st.assume += 1; return; }
            End::Violation => return,
            End::Panic(m) => {
                self.st.panics += 1;
                if !st.allow_panic { let md = st.model.clone(); self.violate(st, "panic", &format!("panic: {}", m), &md); return; }
                label = "panic".into();
            }
            End::Abort(m) => { self.st.panics += 1; let md = st.model.clone(); self.violate(st, "abort", &format!("abort: {}", m), &md); return; }
        }
        // sample: first few and then exponentially spaced
        let k = self.st.paths;
        if self.samples.len() < self.cfg.samples && (k <= 4 || k.is_power_of_two() || k % 97 == 0) {
            let m = st.model.clone();
            let s = format!("{}{}e {}\n", self.dump_inputs(st, &m), self.dump_outs(st, &m), label);
            self.samples.push(s);
        }
    }

    // ---------------- interpreter ----------------
    fn run(&mut self, st: &mut State) -> X<()> {
        let mut f: &'static Func; let mut pc: usize; let mut rp: *mut S;
        macro_rules! sync_in { () => {{ let fr = st.frames.last().unwrap(); f = fr.f; pc = fr.pc as usize; let b = fr.base as usize; rp = unsafe { st.regs.as_mut_ptr().add(b) }; }} }
        macro_rules! sync_out { () => { st.frames.last_mut().unwrap().pc = pc as u32 } }
        macro_rules! r { ($i:expr) => { unsafe { *rp.add($i as usize) } } }
        macro_rules! w { ($i:expr, $v:expr) => {{ let v_ = $v; unsafe { *rp.add($i as usize) = v_; } }} }
        macro_rules! edge { ($e:expr) => {{
            let ed = &f.edges[$e as usize];
            match ed.copies.len() {
                0 => {}
                1 => { let (s, d, n) = ed.copies[0]; unsafe { std::ptr::copy(rp.add(s as usize), rp.add(d as usize), n as usize); } }
                _ => {
                    self.edgebuf.clear();
                    for &(s, _, n) in ed.copies.iter() { for k in 0..n { self.edgebuf.push(r!(s + k)); } }
                    let mut i = 0;
                    for &(_, d, n) in ed.copies.iter() { for k in 0..n { w!(d + k, self.edgebuf[i]); i += 1; } }
                }
            }
            pc = ed.to as usize;
        }} }
        sync_in!();
        loop {
            st.insts += 1;
            if st.insts & 0xfffff == 0 {
                if st.insts > self.cfg.max_insts { sync_out!(); return err("instruction limit on a path"); }
                if Instant::now() > self.cfg.deadline { sync_out!(); return err("time limit"); }
                unsafe { if (*self.sh.stop).load(std::sync::atomic::Ordering::Relaxed) != 0 { return Err(Stop::End(End::Assume)); } }
            }
            let inst = unsafe { f.code.get_unchecked(pc) };
            match inst {
                Inst::Bin { op, w, d, a, b } => {
                    let (x, y) = (r!(*a), r!(*b));
                    if x.e | y.e == 0 { if y.v == 0 && matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) { sync_out!(); return err("division by zero"); } w!(*d, cs(cbin(*op, *w, x.v, y.v))); }
                    else { let (x, y) = (self.ex(x, *w), self.ex(y, *w)); let e = self.cx.bin(*op, x, y); w!(*d, self.mk(e)); }
                    pc += 1;
                }
                Inst::ICmp { p, w, d, a, b } => {
                    let (x, y) = (r!(*a), r!(*b));
                    if x.e | y.e == 0 { w!(*d, cs(cpred(*p, *w, x.v, y.v) as u64)); } else { let v = self.icmp(*p, *w, x, y); let v = self.fold1(st, v); w!(*d, v); }
                    pc += 1;
                }
                Inst::Load1 { d, p, bytes, w } => {
                    let p = r!(*p);
                    let v = if p.e == 0 {
                        match self.load(st, p.v, *bytes as usize) { Ok(v) => v, Err(e) => { sync_out!(); return Err(e); } }
                    } else { sync_out!(); self.load_sym(st, p.e, *bytes as usize)? };
                    let v = if *w == *bytes * 8 { v } else if v.e == 0 { cs(v.v & m64(*w)) } else { let e = self.cx.extract(v.e, 0, *w); self.mk(e) };
                    w!(*d, v);
                    pc += 1;
                }
                Inst::Store1 { p, a, bytes, w: _ } => {
                    let p = r!(*p); let v = r!(*a);
                    if p.e == 0 { if let Err(e) = self.store(st, p.v, *bytes as usize, v) { sync_out!(); return Err(e); } }
                    else { sync_out!(); self.store_sym(st, p.e, *bytes as usize, v)?; }
                    pc += 1;
                }
                Inst::Load { d, p, leaves, size } => {
                    let p0 = r!(*p);
                    sync_out!();
                    let pa = if p0.e == 0 { p0 } else { match self.candidates(st, p0.e, 64)? { Some(c) if c.len() > 1 => p0, _ => cs(self.concretize(st, p0, 64)?) } };
                    let _ = size;
                    for (k, l) in leaves.iter().enumerate() {
                        let n = (l.w as usize + 7) / 8;
                        let ap = if pa.e == 0 { cs(pa.v + l.off as u64) } else { let o = self.cx.cst(l.off as u128, 64); let e = self.cx.bin(Op::Add, pa.e, o); self.mk(e) };
                        let v = self.ld_n(st, ap, n)?;
                        let v = if l.w as usize == n * 8 { v } else if v.e == 0 { cs(v.v & m64(l.w)) } else { let e = self.cx.extract(v.e, 0, l.w); self.mk(e) };
                        w!(*d + k as u32, v);
                    }
                    pc += 1;
                }
                Inst::Store { p, a, leaves, .. } => {
                    let p0 = r!(*p);
                    sync_out!();
                    let pa = self.concretize(st, p0, 64)?;
                    for (k, l) in leaves.iter().enumerate() {
                        let n = (l.w as usize + 7) / 8;
                        self.store(st, pa + l.off as u64, n, r!(*a + k as u32))?;
                    }
                    pc += 1;
                }
                Inst::Gep0 { d, base, k } => {
                    let b = r!(*base);
                    if b.e == 0 { w!(*d, cs(b.v.wrapping_add(*k))); } else { let o = self.cx.cst(*k as u128, 64); let e = self.cx.bin(Op::Add, b.e, o); w!(*d, self.mk(e)); }
                    pc += 1;
                }
                Inst::Gep { d, base, k, terms } => {
                    let b = r!(*base);
                    let mut acc = b.v.wrapping_add(*k); let mut sym: E = 0;
                    if b.e != 0 { acc = *k; sym = b.e; }
                    for &(rg, scale, w) in terms.iter() {
                        let x = r!(rg);
                        if x.e == 0 { let ix = if w >= 64 { x.v } else { s64(x.v, w) as u64 }; acc = acc.wrapping_add(ix.wrapping_mul(scale)); }
                        else { let e = self.ex(x, w); let e = self.cx.sext(e, 64); let sc = self.cx.cst(scale as u128, 64); let t = self.cx.bin(Op::Mul, e, sc); sym = if sym == 0 { t } else { self.cx.bin(Op::Add, sym, t) }; }
                    }
                    if sym == 0 { w!(*d, cs(acc)); } else { let o = self.cx.cst(acc as u128, 64); let e = self.cx.bin(Op::Add, sym, o); w!(*d, self.mk(e)); }
                    pc += 1;
                }
                Inst::Jmp(e) => { edge!(*e); }
                Inst::Br { c, t, f: fe } => {
                    let c = r!(*c);
                    let b = if c.e == 0 { c.v & 1 == 1 } else { sync_out!(); self.decide(st, c.e)? };
                    if b { edge!(*t); } else { edge!(*fe); }
                }
                Inst::Switch { a, w, cases, def } => {
                    let x = r!(*a);
                    let e = if x.e == 0 { let mut t = *def; for &(k, ed) in cases.iter() { if k == x.v { t = ed; break; } } t }
                    else { sync_out!(); self.switch(st, f, x, *w, cases, *def)? };
                    edge!(e);
                }
                Inst::Copy { d, a, n } => { unsafe { std::ptr::copy(rp.add(*a as usize), rp.add(*d as usize), *n as usize); } pc += 1; }
                Inst::Cast { k, sw, dw, lanes, d, a } => {
                    for i in 0..*lanes {
                        let x = r!(*a + i);
                        let v = if x.e == 0 && !matches!(k, Cast::FpTrunc | Cast::FpExt | Cast::FpToSi | Cast::FpToUi | Cast::SiToFp | Cast::UiToFp) {
                            match k { Cast::Trunc => cs(x.v & m64(*dw)), Cast::SExt => cs(s64(x.v, *sw) as u64 & m64(*dw)), _ => x }
                        } else {
                            let e = self.ex(x, *sw);
                            let r = match k { Cast::Trunc => self.cx.extract(e, 0, *dw), Cast::ZExt | Cast::Bits => self.cx.zext(e, *dw), Cast::SExt => self.cx.sext(e, *dw),
                                Cast::FpTrunc => self.cx.fconv(Op::FpTrunc, e, *dw), Cast::FpExt => self.cx.fconv(Op::FpExt, e, *dw), Cast::FpToSi => self.cx.fconv(Op::FpToSi, e, *dw), Cast::FpToUi => self.cx.fconv(Op::FpToUi, e, *dw), Cast::SiToFp => self.cx.fconv(Op::SiToFp, e, *dw), Cast::UiToFp => self.cx.fconv(Op::UiToFp, e, *dw) };
                            self.mk(r)
                        };
                        w!(*d + i, v);
                    }
                    pc += 1;
                }
                Inst::Sel { d, c, a, b, ws } => {
                    let c0 = r!(*c);
                    if c0.e == 0 { let s = if c0.v & 1 == 1 { *a } else { *b }; unsafe { std::ptr::copy(rp.add(s as usize), rp.add(*d as usize), ws.len()); } }
                    else if let Some(&k) = st.known.get(&c0.e) { let s = if k { *a } else { *b }; unsafe { std::ptr::copy(rp.add(s as usize), rp.add(*d as usize), ws.len()); } }
                    else {
                        // pointers into different objects: fork rather than build symbolic pointers
                        let mut fork = false;
                        for (k, w) in ws.iter().enumerate() { if *w == 64 { let (x, y) = (r!(*a + k as u32), r!(*b + k as u32)); if x.e | y.e == 0 && x.v != y.v && x.v >= 1 << 20 && y.v >= 1 << 20 && self.mapped(st, x.v) && self.mapped(st, y.v) { fork = true; } } }
                        if fork { sync_out!(); let k = self.decide(st, c0.e)?; let s = if k { *a } else { *b }; unsafe { std::ptr::copy(rp.add(s as usize), rp.add(*d as usize), ws.len()); } }
                        else {
                            let ce = self.ex(c0, 1);
                            for (k, w) in ws.iter().enumerate() {
                                let (x, y) = (r!(*a + k as u32), r!(*b + k as u32));
                                if x == y { w!(*d + k as u32, x); continue; }
                                let (x, y) = (self.ex(x, *w), self.ex(y, *w)); let e = self.cx.ite(ce, x, y); w!(*d + k as u32, self.mk(e));
                            }
                        }
                    }
                    pc += 1;
                }
                Inst::Call(c) => {
                    match &c.callee {
                        Callee::Direct(id) => {
                            sync_out!();
                            let id = *id;
                            self.call(st, id, c)?;
                            sync_in!();
                        }
                        Callee::Indirect(rg) => {
                            sync_out!();
                            let p = r!(*rg);
                            let a = self.concretize(st, p, 64)?;
                            if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 { return err(format!("indirect call to {:#x}", a)); }
                            let id = ((a - FUNC_BASE) / 16) as u32;
                            if !self.m.funcs[id as usize].defined || crate::builtins::lookup(&self.m.funcs[id as usize].name).is_some() {
                                match crate::builtins::lookup(&self.m.funcs[id as usize].name) { Some(b) => { self.builtin(st, b, c)?; st.frames.last_mut().unwrap().pc += 1; } None => return err(format!("call to undefined function {}", self.m.funcs[id as usize].name)) }
                            } else { self.call(st, id, c)?; }
                            sync_in!();
                        }
                        Callee::Built(b) => {
                            sync_out!();
                            self.builtin(st, *b, c)?;
                            pc += 1;
                        }
                        Callee::Asm(t) => {
                            sync_out!();
                            self.asm(st, t, c)?;
                            pc += 1;
                        }
                    }
                }
                Inst::Ret { a, n } => {
                    let fr = st.frames.pop().unwrap();
                    let d = st.frames.len();
                    if fr.stack { *st.stack.slot(d) = None; }
                    if d == 0 { return Err(Stop::End(End::Ok)); }
                    let caller = st.frames.last_mut().unwrap();
                    caller.pc += 1;
                    let nb = caller.base as usize;
                    let nn = (*n).min(fr.retn);
                    for k in 0..nn { st.regs[nb + (fr.ret + k) as usize] = st.regs[fr.base as usize + (*a + k) as usize]; }
                    st.regs.truncate(fr.base as usize);
                    sync_in!();
                }
                Inst::FrameAddr { d, off } => { w!(*d, cs(((STACK0 + st.frames.len() as u64 - 1) << 20) + *off as u64)); pc += 1; }
                Inst::Alloca { d, n, size } => { sync_out!(); let n = r!(*n); let n = self.concretize(st, n, 64)?; let a = self.alloc(st, n * size, 16)?; w!(*d, cs(a)); pc += 1; }
                Inst::BinV { op, w, lanes, d, a, b } => {
                    for i in 0..*lanes { let (x, y) = (r!(*a + i), r!(*b + i)); let v = if x.e | y.e == 0 { cs(cbin(*op, *w, x.v, y.v)) } else { let (x, y) = (self.ex(x, *w), self.ex(y, *w)); let e = self.cx.bin(*op, x, y); self.mk(e) }; w!(*d + i, v); }
                    pc += 1;
                }
                Inst::ICmpV { p, w, lanes, d, a, b } => { for i in 0..*lanes { let v = self.icmp(*p, *w, r!(*a + i), r!(*b + i)); let v = self.fold1(st, v); w!(*d + i, v); } pc += 1; }
                Inst::BinW { op, w, d, a, b } => {
                    sync_out!();
                    let n = (*w as u32 + 63) / 64;
                    if *w > 128 { return err("integer wider than 128"); }
                    let x = self.wide(rp, *a, *w); let y = self.wide(rp, *b, *w);
                    let e = self.cx.bin(*op, x, y);
                    let _ = n; self.wide_out(rp, *d, *w, e);
                    pc += 1;
                }
                Inst::ICmpW { p, w, d, a, b } => {
                    sync_out!();
                    if *w > 128 { return err("integer wider than 128"); }
                    let x = self.wide(rp, *a, *w); let y = self.wide(rp, *b, *w);
                    let e = self.pred(*p, x, y); w!(*d, self.mk(e)); pc += 1;
                }
                Inst::CastW { k, sw, dw, d, a } => {
                    sync_out!();
                    if *sw > 128 || *dw > 128 { return err("integer wider than 128"); }
                    let x = self.wide(rp, *a, *sw);
                    let (sw, dw) = (*sw as u8, *dw as u8);
                    let _ = sw;
                    let e = match k { Cast::Trunc => self.cx.extract(x, 0, dw), Cast::ZExt | Cast::Bits => self.cx.zext(x, dw), Cast::SExt => self.cx.sext(x, dw), Cast::SiToFp => self.cx.fconv(Op::SiToFp, x, dw), Cast::UiToFp => self.cx.fconv(Op::UiToFp, x, dw), Cast::FpToSi => self.cx.fconv(Op::FpToSi, x, dw), Cast::FpToUi => self.cx.fconv(Op::FpToUi, x, dw), _ => return err("wide fp cast") };
                    self.wide_out(rp, *d, dw as u16, e);
                    pc += 1;
                }
                Inst::FBin { op, w, lanes, d, a, b } => {
                    for i in 0..*lanes { let (x, y) = (self.ex(r!(*a + i), *w), self.ex(r!(*b + i), *w)); let e = self.cx.fbin(*op, x, y); w!(*d + i, self.mk(e)); }
                    pc += 1;
                }
                Inst::FRem { w, d, a, b } => {
                    sync_out!();
                    let x = self.concretize(st, r!(*a), *w)?; let y = self.concretize(st, r!(*b), *w)?;
                    let v = if *w == 64 { (f64::from_bits(x) % f64::from_bits(y)).to_bits() } else { (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u64 };
                    w!(*d, cs(v)); pc += 1;
                }
                Inst::FNeg { w, lanes, d, a } => { for i in 0..*lanes { let x = self.ex(r!(*a + i), *w); let k = self.cx.cst(1u128 << (*w - 1), *w); let e = self.cx.bin(Op::Xor, x, k); w!(*d + i, self.mk(e)); } pc += 1; }
                Inst::FCmp { p, w, lanes, d, a, b } => {
                    for i in 0..*lanes {
                        let (x, y) = (self.ex(r!(*a + i), *w), self.ex(r!(*b + i), *w));
                        let mut acc = self.cx.cst(0, 1);
                        if p & 1 != 0 { let e = self.cx.fbin(Op::FLt, x, y); acc = self.cx.bin(Op::Or, acc, e); }
                        if p & 2 != 0 { let e = self.cx.fbin(Op::FEq, x, y); acc = self.cx.bin(Op::Or, acc, e); }
                        if p & 4 != 0 { let e = self.cx.fbin(Op::FLt, y, x); acc = self.cx.bin(Op::Or, acc, e); }
                        if p & 8 != 0 { let e = self.cx.fbin(Op::FUno, x, y); acc = self.cx.bin(Op::Or, acc, e); }
                        w!(*d + i, self.mk(acc));
                    }
                    pc += 1;
                }
                Inst::Bitcast { d, a, sw, dw } => {
                    if sw.len() == 1 && dw.len() == 1 { w!(*d, r!(*a)); }
                    else {
                        let src: Vec<S> = (0..sw.len() as u32).map(|k| r!(*a + k)).collect();
                        let out = self.rebits(&src, sw, dw);
                        for (k, v) in out.into_iter().enumerate() { w!(*d + k as u32, v); }
                    }
                    pc += 1;
                }
                Inst::SelV { d, c, a, b, lanes, w } => {
                    for i in 0..*lanes {
                        let c0 = r!(*c + i); let (x, y) = (r!(*a + i), r!(*b + i));
                        let v = if c0.e == 0 { if c0.v & 1 == 1 { x } else { y } } else { let (x, y) = (self.ex(x, *w), self.ex(y, *w)); let e = self.cx.ite(c0.e, x, y); self.mk(e) };
                        w!(*d + i, v);
                    }
                    pc += 1;
                }
                Inst::LoadBits { d, p, lanes, w } => {
                    sync_out!();
                    let a = self.concretize(st, r!(*p), 64)?;
                    let n = (*lanes as usize * *w as usize + 7) / 8;
                    if n > 8 { return err("wide bit vector load"); }
                    let v = self.load(st, a, n)?; let e = self.ex(v, n as u8 * 8);
                    for i in 0..*lanes { let x = self.cx.extract(e, i as u8 * *w, *w); w!(*d + i, self.mk(x)); }
                    pc += 1;
                }
                Inst::StoreBits { p, a, lanes, w } => {
                    sync_out!();
                    let ad = self.concretize(st, r!(*p), 64)?;
                    let n = (*lanes as usize * *w as usize + 7) / 8;
                    if n > 8 { return err("wide bit vector store"); }
                    let mut acc = self.ex(r!(*a), *w);
                    for i in 1..*lanes { let x = self.ex(r!(*a + i), *w); acc = self.cx.concat(x, acc); }
                    let e = self.cx.zext(acc, n as u8 * 8); let s = self.mk(e);
                    self.store(st, ad, n, s)?;
                    pc += 1;
                }
                Inst::ExtE { d, a, i, n, lanes, iw } => {
                    sync_out!();
                    let ix = self.concretize(st, r!(*i), *iw)?;
                    if ix >= *lanes as u64 { w!(*d, Z); } else { unsafe { std::ptr::copy(rp.add((*a + ix as u32 * n) as usize), rp.add(*d as usize), *n as usize); } }
                    pc += 1;
                }
                Inst::InsE { d, a, v, i, n, lanes, iw } => {
                    sync_out!();
                    let ix = self.concretize(st, r!(*i), *iw)?;
                    let vals: Vec<S> = (0..*n).map(|k| r!(*v + k)).collect();
                    unsafe { std::ptr::copy(rp.add(*a as usize), rp.add(*d as usize), (*n * *lanes) as usize); }
                    if ix < *lanes as u64 { for k in 0..*n { w!(*d + ix as u32 * *n + k, vals[k as usize]); } }
                    pc += 1;
                }
                Inst::Shuf { d, a, b, n, lanes, mask } => {
                    let mut out = Vec::with_capacity(mask.len() * *n as usize);
                    for &mi in mask.iter() { for k in 0..*n { out.push(if mi < 0 { Z } else if (mi as u32) < *lanes { r!(*a + mi as u32 * *n + k) } else { r!(*b + (mi as u32 - *lanes) * *n + k) }); } }
                    for (k, v) in out.into_iter().enumerate() { w!(*d + k as u32, v); }
                    pc += 1;
                }
                Inst::CmpXchg { d, p, c, n, bytes } => {
                    sync_out!();
                    let a = self.concretize(st, r!(*p), 64)?;
                    let w = *bytes * 8;
                    let old = self.load(st, a, *bytes as usize)?;
                    let cm = r!(*c);
                    let ok = if old.e | cm.e == 0 { old.v == cm.v } else { let (x, y) = (self.ex(old, w), self.ex(cm, w)); let e = self.cx.eq(x, y); self.decide(st, e)? };
                    if ok { let nv = r!(*n); self.store(st, a, *bytes as usize, nv)?; }
                    w!(*d, old); w!(*d + 1, cs(ok as u64));
                    pc += 1;
                }
                Inst::Rmw { op, d, p, v, bytes, w } => {
                    sync_out!();
                    let a = self.concretize(st, r!(*p), 64)?;
                    let old = self.load(st, a, *bytes as usize)?;
                    let (x, y) = (self.ex(old, *w), self.ex(r!(*v), *w));
                    let nv = match op { 0 => y, 1 => self.cx.bin(Op::Add, x, y), 2 => self.cx.bin(Op::Sub, x, y), 3 => self.cx.bin(Op::And, x, y), 4 => { let t = self.cx.bin(Op::And, x, y); let m = self.cx.cst(u128::MAX, *w); self.cx.bin(Op::Xor, t, m) }
                        5 => self.cx.bin(Op::Or, x, y), 6 => self.cx.bin(Op::Xor, x, y),
                        7 => { let c = self.cx.slt(x, y); self.cx.ite(c, y, x) } 8 => { let c = self.cx.slt(x, y); self.cx.ite(c, x, y) }
                        9 => { let c = self.cx.ult(x, y); self.cx.ite(c, y, x) } _ => { let c = self.cx.ult(x, y); self.cx.ite(c, x, y) } };
                    let s = self.mk(nv);
                    self.store(st, a, *bytes as usize, s)?;
                    w!(*d, old);
                    pc += 1;
                }
                Inst::Nop => pc += 1,
                Inst::Unreachable => { sync_out!(); return err("reached unreachable"); }
                Inst::Unsup(s) => { sync_out!(); return err(format!("unsupported instruction: {}", s)); }
            }
        }
    }
    fn ld_n(&mut self, st: &mut State, p: S, n: usize) -> X<S> { self.ld(st, p, n) }
    fn mapped(&mut self, st: &State, a: u64) -> bool { let id = a >> 20; Self::tab(st, id).is_some() || (id < HEAP0 && id > 0 && (id as usize) < self.gids.len()) }
    fn wide(&mut self, rp: *mut S, a: Reg, w: u16) -> E {
        let lo = unsafe { *rp.add(a as usize) };
        if w <= 64 { return self.ex(lo, w as u8); }
        let hi = unsafe { *rp.add(a as usize + 1) };
        let l = self.ex(lo, 64); let h = self.ex(hi, (w - 64) as u8);
        self.cx.concat(h, l)
    }
    fn wide_out(&mut self, rp: *mut S, d: Reg, w: u16, e: E) {
        unsafe {
            if w <= 64 { *rp.add(d as usize) = self.mk(e); return; }
            let l = self.cx.extract(e, 0, 64); let h = self.cx.extract(e, 64, (w - 64) as u8);
            *rp.add(d as usize) = self.mk(l); *rp.add(d as usize + 1) = self.mk(h);
        }
    }
    fn pred(&mut self, p: Pred, x: E, y: E) -> E {
        match p {
            Pred::Eq => self.cx.eq(x, y), Pred::Ne => { let e = self.cx.eq(x, y); self.cx.not(e) }
            Pred::Ult => self.cx.ult(x, y), Pred::Ugt => self.cx.ult(y, x), Pred::Ule => self.cx.ule(x, y), Pred::Uge => self.cx.ule(y, x),
            Pred::Slt => self.cx.slt(x, y), Pred::Sgt => self.cx.slt(y, x),
            Pred::Sle => { let e = self.cx.slt(y, x); self.cx.not(e) } Pred::Sge => { let e = self.cx.slt(x, y); self.cx.not(e) }
        }
    }
    pub fn icmp(&mut self, p: Pred, w: u8, x: S, y: S) -> S {
        if x.e | y.e == 0 { return cs(cpred(p, w, x.v, y.v) as u64); }
        let (x, y) = (self.ex(x, w), self.ex(y, w));
        let e = self.pred(p, x, y);
        self.mk(e)
    }
    fn rebits(&mut self, src: &[S], sw: &[u8], dw: &[u8]) -> Vec<S> {
        let mut out = vec![]; let mut si = 0; let mut so = 0u8;
        for &ow in dw {
            let mut acc: Option<E> = None; let mut conc = 0u64; let mut got = 0u8; let mut allc = true;
            while got < ow {
                let take = (ow - got).min(sw[si] - so);
                let s = src[si];
                if s.e == 0 && allc { conc |= ((s.v >> so) & m64(take)) << got; }
                else {
                    if allc { allc = false; if got > 0 { acc = Some(self.cx.cst(conc as u128, got)); } }
                    let e = self.ex(s, sw[si]); let p = self.cx.extract(e, so, take);
                    acc = Some(match acc { None => p, Some(a) => self.cx.concat(p, a) });
                }
                got += take; so += take;
                if so == sw[si] { si += 1; so = 0; }
            }
            out.push(if allc { cs(conc) } else { self.mk(acc.unwrap()) });
        }
        out
    }
    fn switch(&mut self, st: &mut State, f: &'static Func, x: S, w: u8, cases: &[(u64, u32)], def: u32) -> X<u32> {
        let e = self.simp(st, x.e);
        if let Some(k) = self.cx.isc(e) { return Ok(cases.iter().find(|c| c.0 == k as u64).map(|c| c.1).unwrap_or(def)); }
        if let Some(&v) = st.conc.get(&e) { return Ok(cases.iter().find(|c| c.0 == v).map(|c| c.1).unwrap_or(def)); }
        // groups by target block with identical (empty) phi copies, otherwise by edge
        let mut groups: Vec<(u32, Vec<u64>)> = vec![];
        for &(k, ed) in cases {
            let to = f.edges[ed as usize].to; let emp = f.edges[ed as usize].copies.is_empty();
            match groups.iter_mut().find(|g| g.0 == ed || (emp && f.edges[g.0 as usize].copies.is_empty() && f.edges[g.0 as usize].to == to)) { Some(g) => g.1.push(k), None => groups.push((ed, vec![k])) }
        }
        let mv = self.cx.eval(e, &st.model) as u64;
        let mut any = self.cx.cst(0, 1);
        let mut chosen = None;
        for (ed, ks) in &groups {
            let mut c = self.cx.cst(0, 1);
            for k in ks { let kk = self.cx.cst(*k as u128, w); let q = self.cx.eq(e, kk); c = self.cx.bin(Op::Or, c, q); }
            if ks.contains(&mv) { chosen = Some((*ed, c)); }
            any = self.cx.bin(Op::Or, any, c);
        }
        match chosen {
            Some((ed, c)) => { let b = self.decide(st, c)?; debug_assert!(b); Ok(ed) }
            None => { let b = self.decide(st, any)?; debug_assert!(!b); Ok(def) }
        }
    }
    fn call(&mut self, st: &mut State, id: u32, c: &CallI) -> X<()> {
        let f = self.func(id)?;
        let cb = st.frames.last().unwrap().base as usize;
        self.push_frame(st, f, c.d, c.dn)?;
        let nb = st.frames.last().unwrap().base as usize;
        for (k, &(pr, pn)) in f.params.iter().enumerate() {
            if let Some(&(ar, an)) = c.args.get(k) { let n = pn.min(an); for i in 0..n as usize { st.regs[nb + pr as usize + i] = st.regs[cb + ar as usize + i]; } }
        }
        if self.cfg.trace { eprintln!("{}{}", " ".repeat(st.frames.len()), f.name); }
        Ok(())
    }
    fn asm(&mut self, st: &mut State, t: &str, c: &CallI) -> X<()> {
        let base = st.frames.last().unwrap().base as usize;
        let tt = t.trim();
        if tt.is_empty() || (tt.starts_with("/*") && tt.find("*/") == Some(tt.len() - 2)) {
            // an optimisation barrier: the results (if any) are the arguments in order
            let mut k = 0usize;
            for &(a, n) in &c.args { for i in 0..n as usize { if k < c.dn as usize { st.regs[base + c.d as usize + k] = st.regs[base + a as usize + i]; k += 1; } } }
            return Ok(());
        }
        if t.contains("cpuid") { for k in 0..c.dn as usize { st.regs[base + c.d as usize + k] = Z; } return Ok(()); }
        if t.starts_with("div ") {
            let d = self.concretize(st, st.regs[base + c.args[0].0 as usize], 64)?; let lo = self.concretize(st, st.regs[base + c.args[1].0 as usize], 64)?; let hi = self.concretize(st, st.regs[base + c.args[2].0 as usize], 64)?;
            let n = ((hi as u128) << 64) | lo as u128;
            if d == 0 { return err("asm div by zero"); }
            st.regs[base + c.d as usize] = cs((n / d as u128) as u64); st.regs[base + c.d as usize + 1] = cs((n % d as u128) as u64);
            return Ok(());
        }
        err(format!("inline asm {}", t))
    }

    // ---------------- builtins ----------------
    fn builtin(&mut self, st: &mut State, b: B, c: &CallI) -> X<()> {
        let base = st.frames.last().unwrap().base as usize;
        macro_rules! a { ($i:expr) => { st.regs[base + c.args[$i].0 as usize] } }
        macro_rules! ret { ($v:expr) => {{ let v_ = $v; if c.dn > 0 { st.regs[base + c.d as usize] = v_; } }} }
        macro_rules! con { ($i:expr) => {{ let s_ = a!($i); self.concretize(st, s_, 64)? }} }
        match b {
            B::Nop => {}
            B::RetZeros => { for k in 0..c.dn as usize { st.regs[base + c.d as usize + k] = Z; } }
            B::Ret0 => ret!(Z), B::Ret1 => ret!(cs(1)), B::RetNeg1 => ret!(cs(if c.dw.first() == Some(&32) { 0xffff_ffff } else { u64::MAX })),
            B::RetArg0 | B::Expect | B::ThreadLocalAddr => { for k in 0..c.dn as usize { st.regs[base + c.d as usize + k] = st.regs[base + c.args[0].0 as usize + k]; } }
            B::Errno => ret!(cs(self.errno_addr)),
            B::Intr(k) => return self.intrinsic(st, k, c),
            B::WithOvf(k) => {
                use crate::builtins::Ovf::*;
                let w = c.argw[0];
                if c.lanes > 1 { return err("vector with.overflow"); }
                let rp = unsafe { st.regs.as_mut_ptr().add(base) };
                if w > 64 {
                    let x = self.wide(rp, c.args[0].0, w); let y = self.wide(rp, c.args[1].0, w);
                    let w8 = w as u8;
                    let (r, o) = match k {
                        UAdd => { let r = self.cx.bin(Op::Add, x, y); let o = self.cx.ult(r, x); (r, o) }
                        USub => { let r = self.cx.bin(Op::Sub, x, y); let o = self.cx.ult(x, y); (r, o) }
                        SAdd | SSub => {
                            let r = self.cx.bin(if k == SAdd { Op::Add } else { Op::Sub }, x, y);
                            let sx = self.cx.extract(x, w8 - 1, 1); let sy = self.cx.extract(y, w8 - 1, 1); let sr = self.cx.extract(r, w8 - 1, 1);
                            let same = self.cx.eq(sx, sy); let diff = { let t = self.cx.eq(sx, sr); self.cx.not(t) };
                            let cnd = if k == SAdd { same } else { self.cx.not(same) };
                            let o = self.cx.bin(Op::And, cnd, diff); (r, o)
                        }
                        UMul | SMul => match (self.cx.isc(x), self.cx.isc(y)) {
                            (Some(p), Some(q)) => if k == UMul { let (r, o) = p.overflowing_mul(q); let o2 = o || (r & !mask(w8)) != 0; (self.cx.cst(r, w8), self.cx.cst(o2 as u128, 1)) } else { let (r, o) = sx(p, w8).overflowing_mul(sx(q, w8)); (self.cx.cst(r as u128, w8), self.cx.cst((o || sx(r as u128, w8) != r) as u128, 1)) },
                            _ => return err("symbolic wide multiplication overflow"),
                        },
                    };
                    self.wide_out(rp, c.d, w, r);
                    st.regs[base + c.d as usize + ((w as usize + 63) / 64)] = self.mk(o);
                    return Ok(());
                }
                let w8 = w as u8;
                let (x, y) = (a!(0), a!(1));
                if x.e | y.e == 0 {
                    let (r, o) = match k {
                        UAdd => { let r = x.v as u128 + y.v as u128; (r as u64 & m64(w8), r > m64(w8) as u128) }
                        USub => (x.v.wrapping_sub(y.v) & m64(w8), x.v < y.v),
                        UMul => { let r = x.v as u128 * y.v as u128; (r as u64 & m64(w8), r > m64(w8) as u128) }
                        SAdd | SSub | SMul => { let (p, q) = (s64(x.v, w8) as i128, s64(y.v, w8) as i128); let r = match k { SAdd => p + q, SSub => p - q, _ => p * q }; let t = r as u64 & m64(w8); (t, s64(t, w8) as i128 != r) }
                    };
                    st.regs[base + c.d as usize] = cs(r); st.regs[base + c.d as usize + 1] = cs(o as u64);
                } else {
                    let (xe, ye) = (self.ex(x, w8), self.ex(y, w8));
                    let (r, o) = match k {
                        UAdd => { let r = self.cx.bin(Op::Add, xe, ye); let o = self.cx.ult(r, xe); (r, o) }
                        USub => { let r = self.cx.bin(Op::Sub, xe, ye); let o = self.cx.ult(xe, ye); (r, o) }
                        UMul => { let (p, q) = (self.cx.zext(xe, w8 * 2), self.cx.zext(ye, w8 * 2)); let r = self.cx.bin(Op::Mul, p, q); let h = self.cx.extract(r, w8, w8); let z = self.cx.cst(0, w8); let n = self.cx.eq(h, z); let lo = self.cx.bin(Op::Mul, xe, ye); (lo, self.cx.not(n)) }
                        SMul => { let (p, q) = (self.cx.sext(xe, w8 * 2), self.cx.sext(ye, w8 * 2)); let r = self.cx.bin(Op::Mul, p, q); let lo = self.cx.bin(Op::Mul, xe, ye); let s = self.cx.sext(lo, w8 * 2); let n = self.cx.eq(s, r); (lo, self.cx.not(n)) }
                        SAdd | SSub => {
                            let (p, q) = (self.cx.sext(xe, w8 + 1), self.cx.sext(ye, w8 + 1));
                            let op = if k == SAdd { Op::Add } else { Op::Sub };
                            let r = self.cx.bin(op, p, q); let lo = self.cx.bin(op, xe, ye); let s = self.cx.sext(lo, w8 + 1); let n = self.cx.eq(s, r); (lo, self.cx.not(n))
                        }
                    };
                    st.regs[base + c.d as usize] = self.mk(r); st.regs[base + c.d as usize + 1] = self.mk(o);
                }
            }
            B::Reduce(k) => {
                use crate::builtins::Red::*;
                let w = c.argw[0] as u8; let n = c.args[0].1;
                if c.argw[0] > 64 { return err("wide reduce"); }
                let mut acc = self.ex(a!(0), w);
                for i in 1..n {
                    let x = st.regs[base + (c.args[0].0 + i) as usize]; let x = self.ex(x, w);
                    acc = match k { Or => self.cx.bin(Op::Or, acc, x), And => self.cx.bin(Op::And, acc, x), Xor => self.cx.bin(Op::Xor, acc, x), Add => self.cx.bin(Op::Add, acc, x), Mul => self.cx.bin(Op::Mul, acc, x),
                        UMax => { let q = self.cx.ult(acc, x); self.cx.ite(q, x, acc) } UMin => { let q = self.cx.ult(acc, x); self.cx.ite(q, acc, x) } SMax => { let q = self.cx.slt(acc, x); self.cx.ite(q, x, acc) } SMin => { let q = self.cx.slt(acc, x); self.cx.ite(q, acc, x) } };
                }
                ret!(self.mk(acc));
            }
            B::Memcpy | B::MemcpyLibc => {
                let n = con!(2);
                if n > 0 { let d = con!(0); let s = con!(1); let (bytes, sy) = self.read_bytes(st, s, n as usize)?; self.write_bytes(st, d, &bytes, sy.as_deref())?; }
                if b == B::MemcpyLibc { let r = a!(0); ret!(r); }
            }
            B::Memset | B::MemsetLibc => {
                let n = con!(2) as usize;
                if n > 0 {
                    let d = con!(0); let v = a!(1);
                    if v.e == 0 { self.write_bytes(st, d, &vec![v.v as u8; n], None)?; } else { let e = self.ex(v, 8); let s = self.mk(e); if s.e == 0 { self.write_bytes(st, d, &vec![s.v as u8; n], None)?; } else { self.write_bytes(st, d, &vec![0; n], Some(&vec![s.e; n]))?; } }
                }
                if b == B::MemsetLibc { let r = a!(0); ret!(r); }
            }
            B::Memcmp => {
                let n = con!(2) as usize;
                if n == 0 { ret!(Z); return Ok(()); }
                let p = con!(0); let q = con!(1);
                let (pb, ps) = self.read_bytes(st, p, n)?; let (qb, qs) = self.read_bytes(st, q, n)?;
                if ps.is_none() && qs.is_none() {
                    let r: i32 = match pb.cmp(&qb) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 };
                    ret!(cs(r as u32 as u64));
                } else {
                    let bcmp = c.name.as_ref() == "bcmp";
                    let z = self.cx.cst(0, 32); let one = self.cx.cst(1, 32); let neg = self.cx.cst(u128::MAX, 32);
                    let mut alleq = self.cx.cst(1, 1); let mut acc = z;
                    for i in (0..n).rev() {
                        let x = match &ps { Some(s) if s[i] != 0 => s[i], _ => self.cx.cst(pb[i] as u128, 8) };
                        let y = match &qs { Some(s) if s[i] != 0 => s[i], _ => self.cx.cst(qb[i] as u128, 8) };
                        let e = self.cx.eq(x, y);
                        if bcmp { alleq = self.cx.bin(Op::And, e, alleq); }
                        else { let l = self.cx.ult(x, y); let d = self.cx.ite(l, neg, one); acc = self.cx.ite(e, acc, d); }
                    }
                    let r = if bcmp { self.cx.ite(alleq, z, one) } else { acc };
                    ret!(self.mk(r));
                }
            }
            B::Strlen => { let p = con!(0); let mut n = 0; loop { let b = self.load(st, p + n, 1)?; if self.concretize(st, b, 8)? == 0 { break; } n += 1; } ret!(cs(n)); }
            B::MemchrC => { return err("memchr (libc)"); }
            B::IsConst => ret!(Z),
            B::ObjectSize => { let mx = a!(1); ret!(cs(if mx.v & 1 == 1 { 0 } else { u64::MAX })); }
            B::LoadRel => { let p = con!(0); let o = con!(1); let v = self.load(st, p.wrapping_add(o), 4)?; let v = self.concretize(st, v, 32)?; ret!(cs(p.wrapping_add(v as i32 as i64 as u64))); }
            B::Trap | B::Abort => return Err(Stop::End(End::Abort(format!("{} called", c.name)))),
            B::Exit => return Err(Stop::End(End::Exit)),
            B::AllocFail => return Err(Stop::End(End::Panic("allocation failure / capacity overflow".into()))),
            B::Panic => { let m = self.panic_msg(st, c); return Err(Stop::End(End::Panic(m))); }
            B::Backtrace => ret!(cs(5)),
            B::PsadBw => {
                // sum of absolute differences of 8-byte groups
                for g in 0..2usize { let mut acc = self.cx.cst(0, 64); for i in 0..8usize { let x = st.regs[base + c.args[0].0 as usize + g * 8 + i]; let y = st.regs[base + c.args[1].0 as usize + g * 8 + i]; let (x, y) = (self.ex(x, 8), self.ex(y, 8)); let l = self.cx.ult(x, y); let p = self.cx.bin(Op::Sub, y, x); let q = self.cx.bin(Op::Sub, x, y); let d = self.cx.ite(l, p, q); let d = self.cx.zext(d, 64); acc = self.cx.bin(Op::Add, acc, d); } st.regs[base + c.d as usize + g] = self.mk(acc); }
            }
            B::Pmovmskb => { let mut acc: Option<E> = None; for i in 0..16usize { let x = st.regs[base + c.args[0].0 as usize + i]; let x = self.ex(x, 8); let s = self.cx.extract(x, 7, 1); acc = Some(match acc { None => s, Some(a) => self.cx.concat(s, a) }); } let e = self.cx.zext(acc.unwrap(), 32); ret!(self.mk(e)); }
            B::PshufB | B::PackUs | B::MaskedLoad => return err(format!("unsupported intrinsic {}", c.name)),
            B::RustAlloc | B::RustAllocZeroed => { let n = con!(0); let al = con!(1); let p = self.alloc(st, n, al)?; ret!(cs(p)); }
            B::RustDealloc | B::Free => { let p = con!(0); if p != 0 { self.free(st, p)?; } }
            B::RustRealloc => {
                let p = con!(0); let old = con!(1); let n = con!(3);
                let np = self.alloc(st, n, 16)?;
                let k = old.min(n) as usize;
                let (d, s) = self.read_bytes(st, p, k)?; self.write_bytes(st, np, &d, s.as_deref())?;
                self.free(st, p)?; ret!(cs(np));
            }
            B::Malloc => { let n = con!(0); let p = self.alloc(st, n, 16)?; ret!(cs(p)); }
            B::Calloc => { let n = con!(0); let k = con!(1); let p = self.alloc(st, n * k, 16)?; ret!(cs(p)); }
            B::Realloc => {
                let p = con!(0); let n = con!(1);
                let np = self.alloc(st, n, 16)?;
                if p != 0 { let (id, _) = self.locate(st, p, 0)?; let old = self.oref(st, id).d.len(); let k = old.min(n as usize); let (d, s) = self.read_bytes(st, p, k)?; self.write_bytes(st, np, &d, s.as_deref())?; self.free(st, p)?; }
                ret!(cs(np));
            }
            B::PosixMemalign => { let pp = con!(0); let n = con!(2); let p = self.alloc(st, n, 16)?; self.store(st, pp, 8, cs(p))?; ret!(Z); }
            B::ClockGettime => { let p = con!(1); let ck = st.clock; self.store(st, p, 8, cs(ck / 1_000_000_000))?; self.store(st, p + 8, 8, cs(ck % 1_000_000_000))?; ret!(Z); }
            // a key that is never used: destructors of thread locals do not run
            B::KeyCreate => { let p = con!(0); self.store(st, p, 4, cs(1))?; ret!(Z); }
            B::Dlsym => {
                let p = con!(1); let mut n = 0; let mut name = vec![];
                loop { let b = self.load(st, p + n, 1)?; let c = self.concretize(st, b, 8)? as u8; if c == 0 { break; } name.push(c); n += 1; }
                let a = if name == b"getrandom" { match self.m.syms.get("getrandom") { Some(crate::ll::Sym::F(f)) => FUNC_BASE + (*f as u64) * 16, _ => 0 } } else { 0 };
                ret!(cs(a));
            }
            B::GetrandomFill => { let p = con!(0); let n = con!(1) as usize; self.write_bytes(st, p, &vec![0x5a; n], None)?; ret!(cs(0)); }
            B::Getrandom => { let p = con!(0); let n = con!(1) as usize; self.write_bytes(st, p, &vec![0x5a; n], None)?; ret!(cs(n as u64)); }
            B::Syscall => {
                let nr = con!(0);
                match nr {
                    318 => { let p = con!(1); let n = con!(2) as usize; self.write_bytes(st, p, &vec![0x5a; n], None)?; ret!(cs(n as u64)); }
                    202 => { let op = con!(2) & 0x7f; if op == 0 || op == 9 { return err("futex wait: the only thread would block forever"); } ret!(Z); }
                    186 => ret!(cs(1)),
                    _ => { let ea = self.errno_addr; self.store(st, ea, 4, cs(38))?; ret!(cs(u64::MAX)); }
                }
            }
            B::Getenv => ret!(Z),
            B::Write => { let p = con!(1); let n = con!(2); if self.cfg.verbose { let s = self.cstr_bytes(st, p, n)?; eprintln!("[write] {}", s); } ret!(cs(n)); }
            B::Writev => { let v = con!(1); let k = con!(2); let mut t = 0; for i in 0..k { let p = self.load(st, v + i * 16, 8)?; let n = self.load(st, v + i * 16 + 8, 8)?; let n = self.concretize(st, n, 64)?; if self.cfg.verbose && p.e == 0 { let s = self.cstr_bytes(st, p.v, n)?; eprintln!("[write] {}", s); } t += n; } ret!(cs(t)); }
            B::Sysconf => { let k = con!(0); ret!(cs(match k { 30 => 4096, 84 | 83 => 1, _ => u64::MAX })); }
            B::Xgetbv => ret!(Z),
            // ---- harness primitives
            B::SymIsEngine => ret!(cs(1)),
            B::SymInt => {
                let w = con!(0) as u8; let p = con!(1); let n = con!(2);
                let name = self.cstr_bytes(st, p, n)?;
                let e = self.fresh(&name, w);
                st.inputs.push((Rc::from(name.as_str()), InKind::Int(e, w)));
                let z = self.cx.zext(e, 64);
                ret!(S { e: z, v: 0 });
            }
            B::SymBytes => {
                let p = con!(0); let n = con!(1) as usize; let np = con!(2); let nn = con!(3);
                let name = self.cstr_bytes(st, np, nn)?;
                let es: Vec<E> = (0..n).map(|k| self.fresh(&format!("{}[{}]", name, k), 8)).collect();
                if n > 0 { self.write_bytes(st, p, &vec![0; n], Some(&es))?; }
                st.inputs.push((Rc::from(name.as_str()), InKind::Bytes(Rc::from(es))));
            }
            B::SymAssume => {
                let s = a!(0); 
                if s.e == 0 { if s.v & 1 == 0 { return Err(Stop::End(End::Assume)); } return Ok(()); }
                let e = self.ex(s, 1);
                match st.known.get(&e) { Some(true) => return Ok(()), Some(false) => return Err(Stop::End(End::Assume)), None => {} }
                if self.cx.isc(e).is_none() { match self.side(st, e, true)? { None => return Err(Stop::End(End::Assume)), Some(m) => self.add(st, e, true, m) } }
            }
            B::SymAssert => {
                let s = a!(0); let p = con!(1); let n = con!(2);
                self.st.asserts += 1;
                if s.e == 0 { if s.v & 1 == 0 { let msg = self.cstr_bytes(st, p, n)?; let m = st.model.clone(); self.violate(st, "assert", &msg, &m); return Err(Stop::End(End::Violation)); } return Ok(()); }
                self.st.asserts_sym += 1;
                let e = self.ex(s, 1);
                if let Some(k) = self.cx.isc(e) { if k == 1 { return Ok(()); } }
                let msg = self.cstr_bytes(st, p, n)?;
                let ne = self.cx.not(e);
                if let Some(m) = self.feasible(st, ne)? { self.violate(st, "assert", &msg, &m); }
                match self.side(st, e, true)? { None => return Err(Stop::End(End::Violation)), Some(m) => self.add(st, e, true, m) }
            }
            B::SymFail => { let p = con!(0); let n = con!(1); let msg = self.cstr_bytes(st, p, n)?; let m = st.model.clone(); self.violate(st, "assert", &msg, &m); return Err(Stop::End(End::Violation)); }
            B::SymReach => { let p = con!(0); let n = con!(1); let msg = self.cstr_bytes(st, p, n)?; *self.reach.entry(msg).or_insert(0) += 1; }
            B::SymConcretize => { let s = a!(0); let v = self.concretize(st, s, 64)?; ret!(cs(v)); }
            B::SymIsSym => { let s = a!(0); ret!(cs((s.e != 0) as u64)); }
            B::SymOut => {
                let p = con!(0); let n = con!(1) as usize; let np = con!(2); let nn = con!(3);
                let name = self.cstr_bytes(st, np, nn)?;
                let (d, s) = self.read_bytes(st, p, n)?;
                let v: Vec<S> = (0..n).map(|i| match &s { Some(s) if s[i] != 0 => S { e: s[i], v: 0 }, _ => cs(d[i] as u64) }).collect();
                st.outs.push((Rc::from(name.as_str()), Rc::from(v)));
            }
            B::SymParam => {
                let p = con!(0); let n = con!(1); let d = con!(2); let name = self.cstr_bytes(st, p, n)?;
                let v = self.cfg.params.iter().find(|x| x.0 == name).map(|x| x.1).unwrap_or(d);
                ret!(cs(v));
            }
            B::SymAllowPanic => { let v = con!(0); st.allow_panic = v & 1 == 1; }
            B::SymClock => { let v = con!(0); st.clock = v; }
            B::Libm1(k) => {
                let x = f64::from_bits(con!(0));
                let r = match k { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round(), 4 => x.exp(), 5 => x.ln(), 6 => x.log2(), 7 => x.log10(), 8 => x.sin(), 9 => x.cos(), 10 => x.sqrt(), 11 => x.round_ties_even(), 12 => x.exp2(), 13 => x.tan(), _ => x.cbrt() };
                ret!(cs(r.to_bits()));
            }
            B::Libm2(k) => {
                let x = f64::from_bits(con!(0)); let y = f64::from_bits(con!(1));
                let r = match k { 0 => x.powf(y), 1 => x % y, 2 => x.atan2(y), 3 => x.max(y), 4 => x.min(y), _ => x.hypot(y) };
                ret!(cs(r.to_bits()));
            }
        }
        Ok(())
    }
    fn fresh(&mut self, name: &str, w: u8) -> E { let e = self.cx.var(name, w); self.vars.push(e); debug_assert_eq!(self.vars.len(), self.cx.vars.len()); e }
    fn panic_msg(&mut self, st: &mut State, c: &CallI) -> String {
        let base = st.frames.last().unwrap().base as usize;
        let mut out = String::new();
        // message for panic(&str, loc)
        if c.name.ends_with("5panic") && c.args.len() >= 2 {
            let (p, n) = (st.regs[base + c.args[0].0 as usize], st.regs[base + c.args[1].0 as usize]);
            if p.e == 0 && n.e == 0 && n.v < 4096 { if let Ok(s) = self.cstr_bytes(st, p.v, n.v) { out.push_str(&s); out.push_str(" at "); } }
        }
        for k in (0..c.args.len()).rev() {
            let l = st.regs[base + c.args[k].0 as usize];
            if l.e != 0 || l.v < 1 << 20 { continue; }
            let (id, fp, fl, ln, cl) = (l.v >> 20, self.load(st, l.v, 8), self.load(st, l.v + 8, 8), self.load(st, l.v + 16, 4), self.load(st, l.v + 20, 4));
            if id >= HEAP0 { continue; }
            if let (Ok(fp), Ok(fl), Ok(ln), Ok(cl)) = (fp, fl, ln, cl) {
                if fp.e == 0 && fl.e == 0 && fl.v < 1024 { if let Ok(s) = self.cstr_bytes(st, fp.v, fl.v) { if s.ends_with(".rs") || s.ends_with('\0') || s.contains(".rs") { out.push_str(&format!("{}:{}:{}", s.trim_end_matches('\0'), ln.v, cl.v)); break; } } }
            }
        }
        if out.is_empty() { out = c.name.to_string(); }
        // innermost named frames of the code under test
        let mut names = vec![];
        for f in st.frames.iter().rev() { let n: &str = &f.f.name; if !n.contains("4core9panicking") { names.push(n.to_string()); if names.len() == 1 { break; } } }
        format!("{} [{}]", out, names.join(" < "))
    }
    fn intrinsic(&mut self, st: &mut State, k: crate::builtins::Intr, c: &CallI) -> X<()> {
        use crate::builtins::Intr::*;
        let base = st.frames.last().unwrap().base as usize;
        let rp = unsafe { st.regs.as_mut_ptr().add(base) };
        let w = c.argw[0];
        if w > 128 { return err("intrinsic width"); }
        let spl = (w as u32 + 63) / 64; // slots per lane
        let lanes = c.args[0].1 / spl.max(1);
        let dwl = (c.dn / lanes.max(1)).max(1);
        for i in 0..lanes {
            let arg = |s: &mut Self, n: usize| -> E { let ww = c.argw[n]; s.wide(rp, c.args[n].0 + i * ((ww as u32 + 63) / 64), ww) };
            let w8 = w as u8;
            let x = arg(self, 0);
            let r: E = match k {
                UMax | UMin | SMax | SMin => { let y = arg(self, 1); let l = if matches!(k, UMax | UMin) { self.cx.ult(x, y) } else { self.cx.slt(x, y) }; if matches!(k, UMax | SMax) { self.cx.ite(l, y, x) } else { self.cx.ite(l, x, y) } }
                Abs => { let z = self.cx.cst(0, w8); let n = self.cx.slt(x, z); let g = self.cx.bin(Op::Sub, z, x); self.cx.ite(n, g, x) }
                CtPop => { if let Some(v) = self.cx.isc(x) { self.cx.cst(v.count_ones() as u128, w8) } else { let mut acc = self.cx.cst(0, w8); for b in 0..w8 { let t = self.cx.extract(x, b, 1); let t = self.cx.zext(t, w8); acc = self.cx.bin(Op::Add, acc, t); } acc } }
                CtLz => { if let Some(v) = self.cx.isc(x) { self.cx.cst((v.leading_zeros() - (128 - w8 as u32)) as u128, w8) } else { let mut acc = self.cx.cst(w8 as u128, w8); for b in 0..w8 { let t = self.cx.extract(x, b, 1); let kx = self.cx.cst((w8 - 1 - b) as u128, w8); acc = self.cx.ite(t, kx, acc); } acc } }
                CtTz => { if let Some(v) = self.cx.isc(x) { self.cx.cst(if v == 0 { w8 as u128 } else { v.trailing_zeros() as u128 }, w8) } else { let mut acc = self.cx.cst(w8 as u128, w8); for b in (0..w8).rev() { let t = self.cx.extract(x, b, 1); let kx = self.cx.cst(b as u128, w8); acc = self.cx.ite(t, kx, acc); } acc } }
                BSwap => { let n = w8 / 8; let mut acc = self.cx.extract(x, w8 - 8, 8); for b in 1..n { let t = self.cx.extract(x, w8 - 8 - b * 8, 8); acc = self.cx.concat(t, acc); } acc }
                BitRev => { let mut acc = self.cx.extract(x, w8 - 1, 1); for b in 1..w8 { let t = self.cx.extract(x, w8 - 1 - b, 1); acc = self.cx.concat(t, acc); } acc }
                FShl | FShr => {
                    let y = arg(self, 1); let s = arg(self, 2);
                    let wc = self.cx.cst(w as u128, w8); let sm = self.cx.bin(Op::URem, s, wc);
                    let inv = self.cx.bin(Op::Sub, wc, sm);
                    let z = self.cx.cst(0, w8); let isz = self.cx.eq(sm, z);
                    if k == FShl { let h = self.cx.bin(Op::Shl, x, sm); let l = self.cx.bin(Op::LShr, y, inv); let o = self.cx.bin(Op::Or, h, l); self.cx.ite(isz, x, o) }
                    else { let l = self.cx.bin(Op::LShr, y, sm); let h = self.cx.bin(Op::Shl, x, inv); let o = self.cx.bin(Op::Or, h, l); self.cx.ite(isz, y, o) }
                }
                UAddSat => { let y = arg(self, 1); let r = self.cx.bin(Op::Add, x, y); let o = self.cx.ult(r, x); let m = self.cx.cst(u128::MAX, w8); self.cx.ite(o, m, r) }
                USubSat => { let y = arg(self, 1); let r = self.cx.bin(Op::Sub, x, y); let o = self.cx.ult(x, y); let z = self.cx.cst(0, w8); self.cx.ite(o, z, r) }
                SAddSat | SSubSat => {
                    let y = arg(self, 1); let op = if k == SAddSat { Op::Add } else { Op::Sub };
                    let (p, q) = (self.cx.sext(x, w8 + 1), self.cx.sext(y, w8 + 1)); let r = self.cx.bin(op, p, q); let lo = self.cx.extract(r, 0, w8); let s = self.cx.sext(lo, w8 + 1); let ok = self.cx.eq(s, r);
                    let neg = self.cx.extract(r, w8, 1); let mn = self.cx.cst(1u128 << (w8 - 1), w8); let mx = self.cx.cst((1u128 << (w8 - 1)) - 1, w8); let sat = self.cx.ite(neg, mn, mx); self.cx.ite(ok, lo, sat)
                }
                UShlSat => return err("ushl.sat"),
                UCmp | SCmp => { let y = arg(self, 1); let rw = c.dw[0]; let (l, g) = if k == UCmp { (self.cx.ult(x, y), self.cx.ult(y, x)) } else { (self.cx.slt(x, y), self.cx.slt(y, x)) }; let m1 = self.cx.cst(u128::MAX, rw); let p1 = self.cx.cst(1, rw); let z = self.cx.cst(0, rw); let t = self.cx.ite(g, p1, z); self.cx.ite(l, m1, t) }
                FAbs => { let m = self.cx.cst((1u128 << (w8 - 1)) - 1, w8); self.cx.bin(Op::And, x, m) }
                CopySign => { let y = arg(self, 1); let m = self.cx.cst((1u128 << (w8 - 1)) - 1, w8); let sm = self.cx.cst(1u128 << (w8 - 1), w8); let p = self.cx.bin(Op::And, x, m); let q = self.cx.bin(Op::And, y, sm); self.cx.bin(Op::Or, p, q) }
                FpToSiSat | FpToUiSat => {
                    let dw = c.dw[0];
                    if let Some(v) = self.cx.isc(x) { let r = fold_fc(if k == FpToSiSat { Op::FpToSi } else { Op::FpToUi }, dw, w8, v); self.cx.cst(r, dw) }
                    else {
                        let conv = self.cx.fconv(if k == FpToSiSat { Op::FpToSi } else { Op::FpToUi }, x, dw);
                        let nan = self.cx.fbin(Op::FUno, x, x); let z = self.cx.cst(0, dw);
                        let (lo, hi, lov, hiv) = if k == FpToSiSat { (-(2f64.powi(dw as i32 - 1)), 2f64.powi(dw as i32 - 1), 1u128 << (dw - 1), (1u128 << (dw - 1)) - 1) } else { (0.0, 2f64.powi(dw as i32), 0, mask(dw)) };
                        let bits = |f: f64| if w8 == 64 { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 };
                        let loe = self.cx.cst(bits(lo), w8); let hie = self.cx.cst(bits(hi), w8);
                        let below = self.cx.fbin(Op::FLt, x, loe); let above = self.cx.fbin(Op::FLe, hie, x);
                        let lovc = self.cx.cst(lov, dw); let hivc = self.cx.cst(hiv, dw);
                        let t = self.cx.ite(above, hivc, conv); let t = self.cx.ite(below, lovc, t); self.cx.ite(nan, z, t)
                    }
                }
                FClass => {
                    let m = arg(self, 1); let m = match self.cx.isc(m) { Some(m) => m, None => return err("fpclass") };
                    let (eb, mb) = if w8 == 64 { (11u8, 52u8) } else { (8, 23) };
                    let ex = self.cx.extract(x, mb, eb); let ma = self.cx.extract(x, 0, mb); let sg = self.cx.extract(x, w8 - 1, 1);
                    let ez = self.cx.cst(0, eb); let em = self.cx.cst(u128::MAX, eb); let mz = self.cx.cst(0, mb);
                    let e0 = self.cx.eq(ex, ez); let e1 = self.cx.eq(ex, em); let m0 = self.cx.eq(ma, mz); let nm0 = self.cx.not(m0); let ns = self.cx.not(sg);
                    let ne0 = self.cx.not(e0); let ne1 = self.cx.not(e1); let nrm = self.cx.bin(Op::And, ne0, ne1);
                    let q = self.cx.extract(x, mb - 1, 1); let nq = self.cx.not(q);
                    let nan = self.cx.bin(Op::And, e1, nm0); let inf = self.cx.bin(Op::And, e1, m0); let sub = self.cx.bin(Op::And, e0, nm0); let zer = self.cx.bin(Op::And, e0, m0);
                    let parts = [(nan, nq), (nan, q), (inf, sg), (nrm, sg), (sub, sg), (zer, sg), (zer, ns), (sub, ns), (nrm, ns), (inf, ns)];
                    let mut acc = self.cx.cst(0, 1);
                    for (b, (p, q)) in parts.iter().enumerate() { if m >> b & 1 == 1 { let t = self.cx.bin(Op::And, *p, *q); acc = self.cx.bin(Op::Or, acc, t); } }
                    acc
                }
                FMinNum | FMaxNum => { let y = arg(self, 1); let l = self.cx.fbin(Op::FLt, x, y); let nx = self.cx.fbin(Op::FUno, x, x); let ny = self.cx.fbin(Op::FUno, y, y); let t = if k == FMinNum { self.cx.ite(l, x, y) } else { self.cx.ite(l, y, x) }; let t = self.cx.ite(ny, x, t); self.cx.ite(nx, y, t) }
                _ => {
                    // concrete only
                    let mut v = [0f64; 3];
                    for n in 0..c.args.len().min(3) {
                        let e = arg(self, n); let wv = self.cx.w(e);
                        let s = self.mk(e);
                        let cv = self.concretize(st, s, wv)?;
                        v[n] = if k == Powi && n == 1 { cv as u32 as i32 as f64 } else if wv == 64 { f64::from_bits(cv) } else { f32::from_bits(cv as u32) as f64 };
                    }
                    let x = v[0];
                    if w8 == 32 && matches!(k, Fma) { let r = (v[0] as f32).mul_add(v[1] as f32, v[2] as f32); self.cx.cst(r.to_bits() as u128, 32) } else {
                    let r = match k { Floor => x.floor(), Ceil => x.ceil(), FTrunc => x.trunc(), Round => x.round(), RoundEven | Rint => x.round_ties_even(), Sqrt => x.sqrt(), Fma => v[0].mul_add(v[1], v[2]), Pow => x.powf(v[1]), Powi => x.powi(v[1] as i32), Exp => x.exp(), Exp2 => x.exp2(), Log => x.ln(), Log2 => x.log2(), Log10 => x.log10(), Sin => x.sin(), Cos => x.cos(),
                        FMinimum => if x.is_nan() || v[1].is_nan() { f64::NAN } else { x.min(v[1]) }, FMaximum => if x.is_nan() || v[1].is_nan() { f64::NAN } else { x.max(v[1]) }, _ => return err(format!("intrinsic {:?}", k)) };
                    let b = if w8 == 64 { r.to_bits() as u128 } else { (r as f32).to_bits() as u128 };
                    self.cx.cst(b, w8)
                    }
                }
            };
            let rw = self.cx.w(r) as u16;
            self.wide_out(rp, c.d + i * dwl, rw, r);
        }
        Ok(())
    }
}
