//! Symbolic interpreter: one `State` per path, forked at every branch whose two sides the solver finds feasible.
use crate::expr::{fold, Arena, Op, E};
use crate::ir::*;
use crate::solver::{Shared, Solver};
use rustc_hash::FxHashMap;
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    A(Rc<Vec<V>>),
    W(Rc<u128>),
}

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Option<Vec<E>>, // E(0) = concrete byte
    size: usize,
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    pc: u32,
    base: u32,
    obj: u32,
}

#[derive(Clone)]
pub struct State {
    regs: Vec<V>,
    frames: Vec<Frame>,
    objs: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    gmod: Vec<(u32, Rc<Obj>)>,
    cons: Vec<E>,
    pub model: Vec<u8>,
    pub nsym: u32,
    /// variables whose value is forced to model[v] by an equality constraint
    fixed: u128,
    pinned: Vec<(E, u64)>,
    pub trace: Vec<(u64, bool)>,
    forced: VecDeque<(u64, bool)>,
    pub outs: Vec<V>,
    pub covers: Vec<u32>,
    pub knowns: Vec<u32>,
    pub steps: u64,
    pub inconclusive: bool,
    pub note: Vec<V>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Pruned,
    Fail(u64),
    Panic(String),
    Hang,
    Unsupported(String),
}

pub const HEAP_BASE: u32 = 0x100_0000;

pub struct Env<'m> {
    pub m: &'m Module,
    pub intercept: Vec<u8>, // per function: see Ext
    pub ext: Vec<Ext>,
    pub intr_cache: (),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    None,
    Sym, Assume, Fail, Cover, Known, Out, Concretize, Choice, Note, IsSym,
    Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Bcmp, Strlen, Abort, Panic, Zero, Errno, Syscall, Write, Unsupported,
}

impl<'m> Env<'m> {
    pub fn new(m: &'m Module) -> Self {
        let ext = m
            .funcs
            .iter()
            .map(|f| {
                let p = f.pretty.as_str();
                match f.name.as_str() {
                    "vp_sym" => Ext::Sym,
                    "vp_assume" => Ext::Assume,
                    "vp_fail" => Ext::Fail,
                    "vp_cover" => Ext::Cover,
                    "vp_known" => Ext::Known,
                    "vp_out" => Ext::Out,
                    "vp_concretize" => Ext::Concretize,
                    "vp_choice" => Ext::Choice,
                    "vp_note" => Ext::Note,
                    "vp_is_symbolic" => Ext::IsSym,
                    "malloc" => Ext::Malloc,
                    "calloc" => Ext::Calloc,
                    "realloc" => Ext::Realloc,
                    "free" => Ext::Free,
                    "posix_memalign" => Ext::PosixMemalign,
                    "memcmp" => Ext::Memcmp,
                    "bcmp" => Ext::Bcmp,
                    "strlen" => Ext::Strlen,
                    "abort" => Ext::Abort,
                    "getenv" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "__cxa_thread_atexit_impl" => Ext::Zero,
                    "__errno_location" => Ext::Errno,
                    "syscall" | "getrandom" => Ext::Syscall,
                    "write" | "writev" => Ext::Write,
                    _ if p.starts_with("core::panicking::") || p.contains("rust_begin_unwind") || p.starts_with("core::slice::index::slice_") || p.starts_with("core::option::unwrap_failed") || p.starts_with("core::option::expect_failed") || p.starts_with("core::result::unwrap_failed") || p.starts_with("core::str::slice_error_fail") || p.starts_with("alloc::raw_vec::capacity_overflow") || p.starts_with("alloc::alloc::handle_alloc_error") || p.starts_with("core::cell::panic_already") || p.starts_with("alloc::raw_vec::handle_error") || p.starts_with("std::panicking::") => Ext::Panic,
                    _ if !f.defined => Ext::Unsupported,
                    _ => Ext::None,
                }
            })
            .collect();
        Env { m, intercept: vec![], ext, intr_cache: () }
    }
}

pub struct Machine<'m, 's> {
    pub env: &'m Env<'m>,
    pub ar: Arena,
    pub sol: Solver<'s>,
    globals: Vec<Rc<Obj>>,
    pub pending: Vec<State>,
    inst_dec: Vec<(u64, bool)>,
    pub fn_seen: Vec<bool>,
    pub blk_seen: Vec<Vec<u64>>,
    pub max_steps: u64,
    pub forks: u64,
    pub total_steps: u64,
    pub backtrace: String,
}

enum Stop {
    End(End),
}
type X<T> = Result<T, Stop>;
fn end<T>(e: End) -> X<T> {
    Err(Stop::End(e))
}
fn unsup<T>(s: impl Into<String>) -> X<T> {
    end(End::Unsupported(s.into()))
}

#[inline]
fn sxw(v: u64, w: u32) -> u64 {
    if w >= 64 || w == 0 { v } else { (((v << (64 - w)) as i64) >> (64 - w)) as u64 }
}

impl<'m, 's> Machine<'m, 's> {
    pub fn new(env: &'m Env<'m>, sh: &'s Shared) -> Self {
        let globals = env.m.globals.iter().map(|g| Rc::new(Obj { size: g.data.len(), data: g.data.clone(), sym: None })).collect();
        Machine {
            env,
            ar: Arena::new(),
            sol: Solver::new(sh),
            globals,
            pending: vec![],
            inst_dec: vec![],
            fn_seen: vec![false; env.m.funcs.len()],
            blk_seen: env.m.funcs.iter().map(|f| vec![0; f.code.len() / 64 + 1]).collect(),
            max_steps: 200_000_000,
            forks: 0,
            total_steps: 0,
            backtrace: String::new(),
        }
    }

    pub fn reset_arena(&mut self) {
        self.ar = Arena::new();
        self.sol.reset();
    }

    pub fn start(&mut self, func: u32, args: &[u64], forced: Vec<(u64, bool)>, model: Vec<u8>) -> State {
        let f = &self.env.m.funcs[func as usize];
        let mut st = State {
            regs: vec![V::C(0); f.nregs as usize],
            frames: vec![],
            objs: Vec::with_capacity(256),
            free: vec![],
            gmod: vec![],
            cons: vec![],
            model,
            nsym: 0,
            fixed: 0,
            pinned: vec![],
            trace: vec![],
            forced: forced.into(),
            outs: vec![],
            covers: vec![],
            knowns: vec![],
            steps: 0,
            inconclusive: false,
            note: vec![],
        };
        if st.model.len() < 128 {
            st.model.resize(128, 0);
        }
        for (i, a) in args.iter().enumerate() {
            st.regs[i] = V::C(*a);
        }
        let obj = if f.frame_size > 0 { (self.alloc(&mut st, f.frame_size as usize) >> 32) as u32 } else { 0 };
        st.frames.push(Frame { func, pc: 0, base: 0, obj });
        st
    }

    fn alloc(&mut self, st: &mut State, size: usize) -> u64 {
        let o = Rc::new(Obj { data: vec![0; size], sym: None, size });
        let id = match st.free.pop() {
            Some(i) => {
                st.objs[i as usize] = Some(o);
                i
            }
            None => {
                st.objs.push(Some(o));
                st.objs.len() as u32 - 1
            }
        };
        ((HEAP_BASE + id) as u64) << 32
    }
    fn dealloc(&mut self, st: &mut State, addr: u64) -> X<()> {
        if addr == 0 {
            return Ok(());
        }
        let id = (addr >> 32) as u32;
        if id < HEAP_BASE || addr & 0xffff_ffff != 0 {
            return end(End::Panic(format!("free of invalid pointer {:#x}", addr)));
        }
        let i = id - HEAP_BASE;
        if st.objs.get(i as usize).map_or(true, |o| o.is_none()) {
            return end(End::Panic("double free".into()));
        }
        st.objs[i as usize] = None;
        st.free.push(i);
        Ok(())
    }

    #[inline]
    fn obj<'a>(&'a self, st: &'a State, id: u32) -> Option<&'a Obj> {
        if id >= HEAP_BASE {
            match st.objs.get((id - HEAP_BASE) as usize) {
                Some(Some(o)) => Some(o),
                _ => None,
            }
        } else if id >= 1 && (id as usize) <= self.globals.len() {
            if !self.env.m.globals[id as usize - 1].constant {
                for (g, o) in &st.gmod {
                    if *g == id {
                        return Some(o);
                    }
                }
            }
            Some(&self.globals[id as usize - 1])
        } else {
            None
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id >= HEAP_BASE {
            match st.objs.get_mut((id - HEAP_BASE) as usize) {
                Some(Some(o)) => Some(Rc::make_mut(o)),
                _ => None,
            }
        } else if id >= 1 && (id as usize) <= self.globals.len() && !self.env.m.globals[id as usize - 1].constant {
            let k = match st.gmod.iter().position(|(g, _)| *g == id) {
                Some(k) => k,
                None => {
                    st.gmod.push((id, self.globals[id as usize - 1].clone()));
                    st.gmod.len() - 1
                }
            };
            Some(Rc::make_mut(&mut st.gmod[k].1))
        } else {
            None
        }
    }

    fn bad_access<T>(&self, addr: u64, n: usize, what: &str) -> X<T> {
        end(End::Panic(format!("memory error: {} of {} bytes at {:#x}", what, n, addr)))
    }

    #[inline]
    fn load_int(&mut self, st: &State, addr: u64, bytes: u32, w: u32) -> X<V> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let n = bytes as usize;
        let o = match self.obj(st, id) {
            Some(o) if off + n <= o.size => o,
            _ => return self.bad_access(addr, n, "load"),
        };
        if let Some(sym) = &o.sym {
            if sym[off..off + n].iter().any(|e| e.0 != 0) {
                // symbolic
                let bs: Vec<(E, u8)> = (0..n).map(|i| (sym[off + i], o.data[off + i])).collect();
                let mut acc: Option<E> = None;
                for (e, b) in bs.iter() {
                    let x = if e.0 != 0 { *e } else { self.ar.konst(*b as u64, 8) };
                    acc = Some(match acc {
                        None => x,
                        Some(l) => self.ar.concat(x, l),
                    });
                }
                let mut e = acc.unwrap();
                if w < 8 * bytes {
                    e = self.ar.extract(e, 0, w);
                }
                return Ok(self.v(e));
            }
        }
        let d = &o.data[off..off + n];
        let x = match n {
            1 => d[0] as u64,
            2 => u16::from_le_bytes([d[0], d[1]]) as u64,
            4 => u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u64,
            8 => u64::from_le_bytes(d.try_into().unwrap()),
            _ => {
                let mut x = 0u64;
                for i in (0..n).rev() {
                    x = x << 8 | d[i] as u64;
                }
                x
            }
        };
        Ok(V::C(x & mask(w)))
    }

    #[inline]
    fn store_int(&mut self, st: &mut State, addr: u64, bytes: u32, w: u32, v: &V) -> X<()> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let n = bytes as usize;
        match v {
            V::C(x) => {
                let o = match self.obj_mut(st, id) {
                    Some(o) if off + n <= o.size => o,
                    _ => return self.bad_access(addr, n, "store"),
                };
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(E(0));
                }
            }
            V::S(e) => {
                let e = if w < 8 * bytes { self.ar.zext(*e, 8 * bytes) } else { *e };
                let bs: Vec<E> = (0..n).map(|i| self.ar.extract(e, 8 * i as u32, 8)).collect();
                let cs: Vec<Option<u64>> = bs.iter().map(|b| self.ar.as_const(*b)).collect();
                let o = match self.obj_mut(st, id) {
                    Some(o) if off + n <= o.size => o,
                    _ => return self.bad_access(addr, n, "store"),
                };
                let sz = o.size;
                let s = o.sym.get_or_insert_with(|| vec![E(0); sz]);
                for i in 0..n {
                    match cs[i] {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            s[off + i] = E(0);
                        }
                        None => s[off + i] = bs[i],
                    }
                }
            }
            _ => return unsup("store of aggregate as int"),
        }
        Ok(())
    }

    fn load_ty(&mut self, st: &mut State, addr: u64, ty: &Ty) -> X<V> {
        match ty {
            Ty::I(w) if *w > 64 => {
                let id = (addr >> 32) as u32;
                let off = (addr & 0xffff_ffff) as usize;
                let n = (*w as usize + 7) / 8;
                let o = match self.obj(st, id) {
                    Some(o) if off + n <= o.size => o,
                    _ => return self.bad_access(addr, n, "load"),
                };
                if let Some(s) = &o.sym {
                    if s[off..off + n].iter().any(|e| e.0 != 0) {
                        return unsup("symbolic wide load");
                    }
                }
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                Ok(V::W(Rc::new(u128::from_le_bytes(b))))
            }
            t if t.is_scalar() => self.load_int(st, addr, (t.width() + 7) / 8, t.width()),
            Ty::Struct(_, ts) => {
                let mut v = Vec::with_capacity(ts.len());
                for i in 0..ts.len() {
                    let (o, t) = ty.field_off(i);
                    v.push(self.load_ty(st, addr + o, &t.clone())?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                if let Ty::I(w) = **t {
                    if w < 8 {
                        return unsup("sub-byte vector load");
                    }
                }
                let s = t.size_align().0;
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load_ty(st, addr + i * s, t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            t => unsup(format!("load {:?}", t)),
        }
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> X<()> {
        match (ty, v) {
            (Ty::I(w), V::W(x)) => {
                self.store_int(st, addr, 8, 64, &V::C(**x as u64))?;
                let hi = (*w + 7) / 8 - 8;
                self.store_int(st, addr + 8, hi, hi * 8, &V::C((**x >> 64) as u64))
            }
            (t, _) if t.is_scalar() => self.store_int(st, addr, (t.width() + 7) / 8, t.width(), v),
            (Ty::Struct(_, ts), V::A(vs)) => {
                for i in 0..ts.len() {
                    let (o, t) = ty.field_off(i);
                    self.store_ty(st, addr + o, t, &vs[i])?;
                }
                Ok(())
            }
            (Ty::Arr(n, t), V::A(vs)) | (Ty::Vec(n, t), V::A(vs)) => {
                if let Ty::I(w) = **t {
                    if w < 8 {
                        return unsup("sub-byte vector store");
                    }
                }
                let s = t.size_align().0;
                for i in 0..*n {
                    self.store_ty(st, addr + i * s, t, &vs[i as usize])?;
                }
                Ok(())
            }
            _ => unsup(format!("store {:?}", ty)),
        }
    }

    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = ((src >> 32) as u32, (src & 0xffff_ffff) as usize);
        let (data, sym) = match self.obj(st, si) {
            Some(o) if so + n <= o.size => {
                let sym = match &o.sym {
                    Some(s) if s[so..so + n].iter().any(|e| e.0 != 0) => Some(s[so..so + n].to_vec()),
                    _ => None,
                };
                let mut buf = [0u8; 256];
                if n <= 256 {
                    buf[..n].copy_from_slice(&o.data[so..so + n]);
                    (Err(buf), sym)
                } else {
                    (Ok(o.data[so..so + n].to_vec()), sym)
                }
            }
            _ => return self.bad_access(src, n, "copy from"),
        };
        let (di, dof) = ((dst >> 32) as u32, (dst & 0xffff_ffff) as usize);
        let o = match self.obj_mut(st, di) {
            Some(o) if dof + n <= o.size => o,
            _ => return self.bad_access(dst, n, "copy to"),
        };
        match &data {
            Ok(v) => o.data[dof..dof + n].copy_from_slice(v),
            Err(b) => o.data[dof..dof + n].copy_from_slice(&b[..n]),
        }
        match sym {
            Some(s) => {
                let sz = o.size;
                let os = o.sym.get_or_insert_with(|| vec![E(0); sz]);
                os[dof..dof + n].copy_from_slice(&s);
            }
            None => {
                if let Some(os) = &mut o.sym {
                    os[dof..dof + n].fill(E(0));
                }
            }
        }
        Ok(())
    }

    #[inline]
    fn v(&self, e: E) -> V {
        match self.ar.as_const(e) {
            Some(k) => V::C(k),
            None => V::S(e),
        }
    }
    #[inline]
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(k) => self.ar.konst(*k, w),
            V::S(e) => *e,
            _ => panic!("aggregate used as scalar"),
        }
    }

    // ---------------------------------------------------------------- decisions

    fn slice(&self, st: &State, vars: u128) -> Vec<E> {
        let mut m = vars;
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !used[i] {
                    let v = self.ar.vars(*c);
                    if v & m != 0 {
                        used[i] = true;
                        if v & !m != 0 {
                            m |= v;
                        }
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        st.cons.iter().zip(&used).filter(|(_, u)| **u).map(|(c, _)| *c).collect()
    }
    /// is `c` satisfiable together with the path condition? On yes returns a model
    fn sat(&mut self, st: &mut State, c: E) -> Option<Vec<u8>> {
        if let Some(k) = self.ar.as_const(c) {
            return if k != 0 { Some(st.model.clone()) } else { None };
        }
        let mut q = self.slice(st, self.ar.vars(c));
        q.push(c);
        let mut m = st.model.clone();
        match self.sol.check(&mut self.ar, &q, &mut m) {
            Some(true) => Some(m),
            Some(false) => None,
            None => {
                st.inconclusive = true;
                None
            }
        }
    }
    fn add(&mut self, st: &mut State, c: E) {
        if self.ar.as_const(c).is_some() || st.cons.contains(&c) {
            return;
        }
        let n = *self.ar.nd(c);
        if n.op == Op::And && n.w == 1 {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if n.op == Op::Eq {
            if self.ar.nd(n.a).op == Op::Var && self.ar.as_const(n.b).is_some() {
                st.fixed |= 1u128 << self.ar.nd(n.a).k;
            }
        }
        st.cons.push(c);
    }

    fn fork(&mut self, st: &State, choice: u64, model: Vec<u8>) {
        // the forked state re-executes the current instruction with forced decisions
        let mut o = st.clone();
        let k = self.inst_dec.len();
        o.trace.truncate(o.trace.len() - k);
        o.forced.clear();
        o.forced.extend(self.inst_dec.iter().copied());
        o.forced.push_back((choice, false));
        o.model = model;
        self.forks += 1;
        self.pending.push(o);
    }
    fn record(&mut self, st: &mut State, d: (u64, bool)) {
        st.trace.push(d);
        self.inst_dec.push(d);
    }

    /// decide a width-1 condition for the current path
    fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok(k != 0);
        }
        if self.ar.vars(c) & !st.fixed == 0 {
            return Ok(self.ar.eval(c, &st.model) != 0);
        }
        if let Some((k, implied)) = st.forced.pop_front() {
            self.record(st, (k, implied));
            if !implied {
                let x = if k != 0 { c } else { self.ar.not(c) };
                self.add(st, x);
            }
            return Ok(k != 0);
        }
        let cur = self.ar.eval(c, &st.model) != 0;
        let opp = if cur { self.ar.not(c) } else { c };
        match self.sat(st, opp) {
            None => {
                self.record(st, (cur as u64, true));
                Ok(cur)
            }
            Some(m) => {
                self.fork(st, !cur as u64, m);
                self.record(st, (cur as u64, false));
                let x = if cur { c } else { self.ar.not(c) };
                self.add(st, x);
                Ok(cur)
            }
        }
    }

    /// choose one of several mutually exclusive, exhaustive conditions
    fn decide_n(&mut self, st: &mut State, cs: &[E]) -> X<usize> {
        let all = cs.iter().fold(0u128, |m, c| m | self.ar.vars(*c));
        if all & !st.fixed == 0 {
            for (i, c) in cs.iter().enumerate() {
                if self.ar.eval(*c, &st.model) != 0 {
                    return Ok(i);
                }
            }
        }
        if let Some((k, implied)) = st.forced.pop_front() {
            self.record(st, (k, implied));
            if !implied {
                self.add(st, cs[k as usize]);
            }
            return Ok(k as usize);
        }
        let mut cur = None;
        for (i, c) in cs.iter().enumerate() {
            if self.ar.eval(*c, &st.model) != 0 {
                cur = Some(i);
                break;
            }
        }
        let cur = match cur { Some(c) => c, None => return unsup("decide_n: no case holds in model") };
        let mut others = vec![];
        for (i, c) in cs.iter().enumerate() {
            if i != cur {
                if let Some(m) = self.sat(st, *c) {
                    others.push((i, m));
                }
            }
        }
        if others.is_empty() {
            self.record(st, (cur as u64, true));
            return Ok(cur);
        }
        for (i, m) in others.into_iter().rev() {
            self.fork(st, i as u64, m);
        }
        self.record(st, (cur as u64, false));
        self.add(st, cs[cur]);
        Ok(cur)
    }

    /// fork over all feasible values of e (solver-enumerated)
    fn concretize(&mut self, st: &mut State, e: E, limit: usize) -> X<u64> {
        if let Some(k) = self.ar.as_const(e) {
            return Ok(k);
        }
        if self.ar.vars(e) & !st.fixed == 0 {
            return Ok(self.ar.eval(e, &st.model));
        }
        if let Some((_, k)) = st.pinned.iter().find(|(x, _)| *x == e) {
            return Ok(*k);
        }
        let w = self.ar.w(e);
        if let Some((k, implied)) = st.forced.pop_front() {
            self.record(st, (k, implied));
            let kk = self.ar.konst(k, w);
            let c = self.ar.bin(Op::Eq, e, kk);
            if !implied {
                self.add(st, c);
            }
            st.pinned.push((e, k));
            return Ok(k);
        }
        let cur = self.ar.eval(e, &st.model);
        let kc = self.ar.konst(cur, w);
        let eqc = self.ar.bin(Op::Eq, e, kc);
        let mut seen = vec![];
        let mut excl = self.ar.not(eqc);
        loop {
            match self.sat(st, excl) {
                None => break,
                Some(m) => {
                    let v = self.ar.eval(e, &m);
                    let k = self.ar.konst(v, w);
                    let c = self.ar.bin(Op::Eq, e, k);
                    let nc = self.ar.not(c);
                    excl = self.ar.bin(Op::And, excl, nc);
                    seen.push((v, m));
                    if seen.len() > limit {
                        return unsup(format!("concretize: more than {} values", limit));
                    }
                }
            }
        }
        if seen.is_empty() {
            self.record(st, (cur, true));
            st.pinned.push((e, cur));
            return Ok(cur);
        }
        seen.sort_by_key(|x| x.0);
        for (v, m) in seen.into_iter().rev() {
            self.fork(st, v, m);
        }
        self.record(st, (cur, false));
        self.add(st, eqc);
        st.pinned.push((e, cur));
        Ok(cur)
    }
    fn conc(&mut self, st: &mut State, v: &V) -> X<u64> {
        match v {
            V::C(k) => Ok(*k),
            V::S(e) => self.concretize(st, *e, 512),
            _ => unsup("concretize aggregate"),
        }
    }
    fn cond(&mut self, st: &mut State, v: &V) -> X<bool> {
        match v {
            V::C(k) => Ok(*k & 1 != 0),
            V::S(e) => self.decide(st, *e),
            _ => unsup("cond aggregate"),
        }
    }

    /// Load through a symbolic address. Tries an if-then-else over the reachable cells, else forks on the address.
    fn load_sym(&mut self, st: &mut State, a: E, bytes: u32, w: u32) -> X<V> {
        let n = *self.ar.nd(a);
        let (x, base) = match (n.op, self.ar.as_const(n.b)) {
            (Op::Add, Some(k)) => (n.a, k),
            _ => (a, 0),
        };
        let vars = self.ar.vars(x);
        if base >> 32 != 0 && vars.count_ones() <= 2 && self.ar.vars(a) & !st.fixed != 0 {
            // reachable values of x over the byte domains of its variables
            let vs: Vec<usize> = (0..128).filter(|i| vars >> i & 1 == 1).collect();
            // restrict by the constraints on those variables alone
            let cons: Vec<E> = st.cons.iter().copied().filter(|c| self.ar.vars(*c) & !vars == 0).collect();
            let mut vals: Vec<u64> = vec![];
            let mut m = st.model.clone();
            let mut singles: Vec<Vec<u8>> = vec![];
            for v in &vs {
                let sc: Vec<E> = cons.iter().copied().filter(|c| self.ar.vars(*c) == 1u128 << v).collect();
                let mut d = vec![];
                for b in 0..=255u8 {
                    m[*v] = b;
                    if sc.iter().all(|c| self.ar.eval(*c, &m) != 0) {
                        d.push(b);
                    }
                }
                singles.push(d);
            }
            if vs.len() == 1 {
                for b in &singles[0] {
                    m[vs[0]] = *b;
                    vals.push(self.ar.eval(x, &m));
                }
            } else {
                for b in &singles[0] {
                    m[vs[0]] = *b;
                    for b2 in &singles[1] {
                        m[vs[1]] = *b2;
                        if cons.iter().all(|c| self.ar.eval(*c, &m) != 0) {
                            vals.push(self.ar.eval(x, &m));
                        }
                    }
                }
            }
            vals.sort_unstable();
            vals.dedup();
            if vals.len() <= 4096 {
                // read every cell
                let mut cells: Vec<(u64, V)> = Vec::with_capacity(vals.len());
                let mut ok = true;
                for v in &vals {
                    let addr = base.wrapping_add(*v);
                    match self.load_int(st, addr, bytes, w) {
                        Ok(c) => cells.push((*v, c)),
                        Err(_) => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok && !cells.is_empty() {
                    let e = self.table_ite(x, &cells, w);
                    return Ok(self.v(e));
                }
            }
        }
        let k = self.concretize(st, a, 512)?;
        self.load_int(st, k, bytes, w)
    }

    /// expression for a finite function of x given as sorted (value, result) pairs
    fn table_ite(&mut self, x: E, cells: &[(u64, V)], w: u32) -> E {
        let xw = self.ar.w(x);
        // runs: constant or x+k
        #[derive(Clone, Copy)]
        enum Run { K(E), Aff(u64) }
        let mut runs: Vec<(u64, Run)> = vec![]; // (first x value, run)
        let mut i = 0;
        while i < cells.len() {
            let start = cells[i].0;
            let r = self.e(&cells[i].1.clone(), w);
            // constant run
            let mut j = i + 1;
            while j < cells.len() {
                let rj = self.e(&cells[j].1.clone(), w);
                if rj != r { break; }
                j += 1;
            }
            // affine run
            let mut k = i + 1;
            if let V::C(c0) = cells[i].1 {
                let d = c0.wrapping_sub(cells[i].0) & mask(w);
                while k < cells.len() {
                    match cells[k].1 {
                        V::C(c) if c == cells[k].0.wrapping_add(d) & mask(w) => k += 1,
                        _ => break,
                    }
                }
                if k - i >= 3 && k > j {
                    runs.push((start, Run::Aff(d)));
                    i = k;
                    continue;
                }
            }
            runs.push((start, Run::K(r)));
            i = j;
        }
        let xx = if xw >= w { self.ar.extract(x, 0, w) } else { self.ar.zext(x, w) };
        fn build(s: &mut Arena, x: E, xx: E, xw: u32, w: u32, runs: &[(u64, Run)]) -> E {
            if runs.len() == 1 {
                return match runs[0].1 {
                    Run::K(e) => e,
                    Run::Aff(d) => {
                        let k = s.konst(d, w);
                        s.bin(Op::Add, xx, k)
                    }
                };
            }
            let mid = runs.len() / 2;
            let l = build(s, x, xx, xw, w, &runs[..mid]);
            let r = build(s, x, xx, xw, w, &runs[mid..]);
            let k = s.konst(runs[mid].0, xw);
            let c = s.bin(Op::Ult, x, k);
            s.ite(c, l, r)
        }
        build(&mut self.ar, x, xx, xw, w, &runs)
    }

    // ---------------------------------------------------------------- values

    fn cv(&self, c: &Cv) -> V {
        match c {
            Cv::I(x) => V::C(*x),
            Cv::W(x) => V::W(Rc::new(*x)),
            Cv::Agg(v) => V::A(Rc::new(v.iter().map(|x| self.cv(x)).collect())),
        }
    }
    #[inline]
    fn get(&self, st: &State, base: u32, o: Opd) -> V {
        match o {
            Opd::R(r) => st.regs[(base + r) as usize].clone(),
            Opd::C(k) => V::C(k),
            Opd::K(k) => self.cv(&self.env.m.consts[k as usize]),
        }
    }

    fn binop(&mut self, st: &mut State, op: BinOp, w: u32, a: &V, b: &V) -> X<V> {
        match (a, b) {
            (V::C(x), V::C(y)) => Ok(V::C(self.bin_c(op, w, *x, *y)?)),
            (V::A(x), V::A(y)) => {
                let mut v = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.binop(st, op, w, p, q)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            (V::W(_), _) | (_, V::W(_)) => {
                let g = |v: &V| match v { V::W(x) => Ok(**x), V::C(x) => Ok(*x as u128), _ => Err(()) };
                let (x, y) = match (g(a), g(b)) { (Ok(x), Ok(y)) => (x, y), _ => return unsup("symbolic wide arithmetic") };
                let m = if w >= 128 { !0u128 } else { (1u128 << w) - 1 };
                let r = match op {
                    BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::Shl => x.checked_shl(y as u32).unwrap_or(0), BinOp::LShr => x.checked_shr(y as u32).unwrap_or(0),
                    BinOp::UDiv => x / y, BinOp::URem => x % y,
                    _ => return unsup("wide op"),
                };
                Ok(V::W(Rc::new(r & m)))
            }
            _ => {
                if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem) {
                    let x = self.conc(st, a)?;
                    let y = self.conc(st, b)?;
                    return Ok(V::C(self.bin_c(op, w, x, y)?));
                }
                let x = self.e(a, w);
                let y = self.e(b, w);
                let o = match op {
                    BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv,
                    BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
                    BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor,
                    _ => unreachable!(),
                };
                if w == 1 && matches!(o, Op::Add | Op::Sub) {
                    let r = self.ar.bin(Op::Xor, x, y);
                    return Ok(self.v(r));
                }
                if w == 1 && o == Op::Mul {
                    let r = self.ar.bin(Op::And, x, y);
                    return Ok(self.v(r));
                }
                if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                    // Rust guards division by zero; a zero divisor here is a genuine trap
                    let z = self.ar.konst(0, w);
                    let isz = self.ar.bin(Op::Eq, y, z);
                    if self.decide(st, isz)? {
                        return end(End::Panic("division by zero".into()));
                    }
                }
                let r = self.ar.bin(o, x, y);
                Ok(self.v(r))
            }
        }
    }
    fn bin_c(&mut self, op: BinOp, w: u32, x: u64, y: u64) -> X<u64> {
        Ok(match op {
            BinOp::Add => x.wrapping_add(y) & mask(w),
            BinOp::Sub => x.wrapping_sub(y) & mask(w),
            BinOp::Mul => x.wrapping_mul(y) & mask(w),
            BinOp::And => x & y,
            BinOp::Or => x | y,
            BinOp::Xor => x ^ y,
            BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem if y == 0 => return end(End::Panic("division by zero".into())),
            BinOp::UDiv => fold(Op::UDiv, w, w, x, y),
            BinOp::SDiv => fold(Op::SDiv, w, w, x, y),
            BinOp::URem => fold(Op::URem, w, w, x, y),
            BinOp::SRem => fold(Op::SRem, w, w, x, y),
            BinOp::Shl => fold(Op::Shl, w, w, x, y),
            BinOp::LShr => fold(Op::LShr, w, w, x, y),
            BinOp::AShr => fold(Op::AShr, w, w, x, y),
            _ => {
                let f = |a: f64, b: f64| match op { BinOp::FAdd => a + b, BinOp::FSub => a - b, BinOp::FMul => a * b, BinOp::FDiv => a / b, _ => a % b };
                if w == 64 {
                    f(f64::from_bits(x), f64::from_bits(y)).to_bits()
                } else {
                    let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op { BinOp::FAdd => a + b, BinOp::FSub => a - b, BinOp::FMul => a * b, BinOp::FDiv => a / b, _ => a % b }).to_bits() as u64
                }
            }
        })
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> X<V> {
        match (a, b) {
            (V::C(x), V::C(y)) => {
                let (sx, sy) = (sxw(*x, w) as i64, sxw(*y, w) as i64);
                Ok(V::C(match p {
                    Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                    Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy,
                } as u64))
            }
            (V::A(x), V::A(y)) => {
                let mut v = Vec::with_capacity(x.len());
                for (q, r) in x.iter().zip(y.iter()) {
                    v.push(self.icmp(p, w, q, r)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            (V::W(_), _) | (_, V::W(_)) => {
                let g = |v: &V| match v { V::W(x) => Some(**x), V::C(x) => Some(*x as u128), _ => None };
                let (x, y) = match (g(a), g(b)) { (Some(x), Some(y)) => (x, y), _ => return unsup("symbolic wide compare") };
                let s = 128 - w;
                let (sx, sy) = ((x << s) as i128, (y << s) as i128);
                Ok(V::C(match p {
                    Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                    Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy,
                } as u64))
            }
            _ => {
                let x = self.e(a, w);
                let y = self.e(b, w);
                let ar = &mut self.ar;
                let r = match p {
                    Pred::Eq => ar.bin(Op::Eq, x, y),
                    Pred::Ne => { let e = ar.bin(Op::Eq, x, y); ar.not(e) }
                    Pred::Ult => ar.bin(Op::Ult, x, y),
                    Pred::Ule => ar.bin(Op::Ule, x, y),
                    Pred::Ugt => ar.bin(Op::Ult, y, x),
                    Pred::Uge => ar.bin(Op::Ule, y, x),
                    Pred::Slt => ar.bin(Op::Slt, x, y),
                    Pred::Sle => ar.bin(Op::Sle, x, y),
                    Pred::Sgt => ar.bin(Op::Slt, y, x),
                    Pred::Sge => ar.bin(Op::Sle, y, x),
                };
                Ok(self.v(r))
            }
        }
    }
    fn cast(&mut self, st: &mut State, c: Cast, a: &V, from: u32, to: u32, tyf: u32, tyt: u32) -> X<V> {
        if let V::A(x) = a {
            if c == Cast::Bit {
                let (f, t) = (&self.env.m.tys[tyf as usize], &self.env.m.tys[tyt as usize]);
                if let (Ty::Vec(_, _), Ty::I(w)) = (f, t) {
                    // pack lanes
                    if *w <= 64 {
                        if x.iter().all(|v| matches!(v, V::C(_))) {
                            let mut r = 0u64;
                            for (i, v) in x.iter().enumerate() {
                                if let V::C(k) = v { r |= (k & mask(from)) << (i as u32 * from) }
                            }
                            return Ok(V::C(r & mask(*w)));
                        }
                        let w = *w;
                        let mut acc: Option<E> = None;
                        for v in x.iter() {
                            let e = self.e(v, from);
                            acc = Some(match acc { None => e, Some(l) => self.ar.concat(e, l) });
                        }
                        let e = acc.unwrap();
                        debug_assert_eq!(self.ar.w(e), w);
                        return Ok(self.v(e));
                    }
                    if x.iter().all(|v| matches!(v, V::C(_))) {
                        let mut r = 0u128;
                        for (i, v) in x.iter().enumerate() {
                            if let V::C(k) = v { r |= ((k & mask(from)) as u128) << (i as u32 * from) }
                        }
                        return Ok(V::W(Rc::new(r)));
                    }
                }
                if f == t { return Ok(a.clone()); }
                return unsup("vector bitcast");
            }
            let x = x.clone();
            let mut v = Vec::with_capacity(x.len());
            for q in x.iter() {
                v.push(self.cast(st, c, q, from, to, tyf, tyt)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        if let V::W(x) = a {
            let x = **x;
            return Ok(match c {
                Cast::Trunc if to <= 64 => V::C(x as u64 & mask(to)),
                Cast::Trunc => V::W(Rc::new(x & ((1u128 << to) - 1))),
                Cast::Zext => V::W(Rc::new(x)),
                Cast::Bit => V::W(Rc::new(x)),
                _ => return unsup("wide cast"),
            });
        }
        match c {
            Cast::Zext | Cast::Sext if to > 64 => match a {
                V::C(k) => {
                    let r = if c == Cast::Zext { *k as u128 } else { sxw(*k, from) as i64 as i128 as u128 };
                    Ok(V::W(Rc::new(if to >= 128 { r } else { r & ((1u128 << to) - 1) })))
                }
                V::S(e) => { let k = self.concretize(st, *e, 512)?; Ok(V::W(Rc::new(if c == Cast::Zext { k as u128 } else { sxw(k, from) as i64 as i128 as u128 }))) }
                _ => unsup("wide ext"),
            },
            Cast::Zext => match a {
                V::C(k) => Ok(V::C(*k)),
                _ => { let e = self.e(a, from); let r = self.ar.zext(e, to); Ok(self.v(r)) }
            },
            Cast::Sext => match a {
                V::C(k) => Ok(V::C(sxw(*k, from) & mask(to))),
                _ => { let e = self.e(a, from); let r = self.ar.sext(e, to); Ok(self.v(r)) }
            },
            Cast::Trunc => match a {
                V::C(k) => Ok(V::C(*k & mask(to))),
                _ => { let e = self.e(a, from); let r = self.ar.extract(e, 0, to); Ok(self.v(r)) }
            },
            Cast::Bit => {
                let t = &self.env.m.tys[tyt as usize];
                if let (V::C(k), Ty::Vec(n, et)) = (a, t) {
                    let ew = et.width();
                    return Ok(V::A(Rc::new((0..*n).map(|i| V::C(k >> (i as u32 * ew) & mask(ew))).collect())));
                }
                Ok(a.clone())
            }
            _ => {
                let k = self.conc(st, a)?;
                let fv = if from == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
                let r = match c {
                    Cast::UiToFp => if to == 64 { (k as f64).to_bits() } else { (k as f32).to_bits() as u64 },
                    Cast::SiToFp => if to == 64 { (sxw(k, from) as i64 as f64).to_bits() } else { (sxw(k, from) as i64 as f32).to_bits() as u64 },
                    Cast::FpToUi => fv as u64 & mask(to),
                    Cast::FpToSi => fv as i64 as u64 & mask(to),
                    Cast::FpExt => fv.to_bits(),
                    Cast::FpTrunc => (fv as f32).to_bits() as u64,
                    _ => unreachable!(),
                };
                Ok(V::C(r))
            }
        }
    }
    fn fcmp(&mut self, p: &str, w: u32, x: u64, y: u64) -> u64 {
        let (a, b) = if w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
        let un = a.is_nan() || b.is_nan();
        (match p {
            "oeq" => !un && a == b, "ogt" => !un && a > b, "oge" => !un && a >= b, "olt" => !un && a < b, "ole" => !un && a <= b, "one" => !un && a != b,
            "ord" => !un, "uno" => un, "ueq" => un || a == b, "ugt" => un || a > b, "uge" => un || a >= b, "ult" => un || a < b, "ule" => un || a <= b, "une" => un || a != b,
            "true" => true, _ => false,
        }) as u64
    }
    fn sel(&mut self, st: &mut State, c: &V, a: V, b: V) -> X<V> {
        match c {
            V::C(k) => Ok(if k & 1 != 0 { a } else { b }),
            V::S(e) => {
                match (&a, &b) {
                    (V::C(x), V::C(y)) if x == y => return Ok(a),
                    (V::S(_), _) | (_, V::S(_)) => {
                        let w = match (&a, &b) { (V::S(x), _) => self.ar.w(*x), (_, V::S(y)) => self.ar.w(*y), _ => 0 };
                        if matches!(a, V::C(_) | V::S(_)) && matches!(b, V::C(_) | V::S(_)) {
                            let x = self.e(&a, w);
                            let y = self.e(&b, w);
                            let r = self.ar.ite(*e, x, y);
                            return Ok(self.v(r));
                        }
                    }
                    _ => {}
                }
                unsup("select of mixed values")
            }
            V::A(cs) => match (&a, &b) {
                (V::A(x), V::A(y)) => {
                    let mut v = vec![];
                    for i in 0..cs.len() {
                        if let V::C(k) = cs[i] { v.push(if k & 1 != 0 { x[i].clone() } else { y[i].clone() }) } else { return unsup("vector select"); }
                    }
                    Ok(V::A(Rc::new(v)))
                }
                _ => unsup("vector select"),
            },
            _ => { let _ = st; unsup("select cond") }
        }
    }

    fn path_get(v: &V, path: &[u32]) -> V {
        let mut cur = v.clone();
        for p in path {
            cur = match cur { V::A(x) => x[*p as usize].clone(), o => o };
        }
        cur
    }
    fn path_set(v: &V, path: &[u32], x: V) -> V {
        if path.is_empty() {
            return x;
        }
        match v {
            V::A(a) => {
                let mut n = (**a).clone();
                n[path[0] as usize] = Self::path_set(&n[path[0] as usize], &path[1..], x);
                V::A(Rc::new(n))
            }
            _ => x,
        }
    }

    // ---------------------------------------------------------------- run

    pub fn bt(&self, st: &State) -> String {
        let mut s = vec![];
        for f in st.frames.iter().rev() {
            let n = &self.env.m.funcs[f.func as usize].pretty;
            s.push(n.clone());
            if s.len() >= 14 {
                break;
            }
        }
        s.join(" < ")
    }

    pub fn run(&mut self, st: &mut State) -> End {
        let s0 = st.steps;
        let r = match self.go(st) {
            Err(Stop::End(e)) => e,
            Ok(()) => End::Ok,
        };
        self.total_steps += st.steps - s0;
        if !matches!(r, End::Ok | End::Pruned) {
            self.backtrace = self.bt(st);
        }
        r
    }

    #[inline]
    fn take_edge(&self, st: &mut State, base: u32, e: &Edge) -> u32 {
        match e.copies.len() {
            0 => {}
            1 => {
                let v = self.get(st, base, e.copies[0].1);
                st.regs[(base + e.copies[0].0) as usize] = v;
            }
            _ => {
                let vs: Vec<V> = e.copies.iter().map(|c| self.get(st, base, c.1)).collect();
                for (c, v) in e.copies.iter().zip(vs) {
                    st.regs[(base + c.0) as usize] = v;
                }
            }
        }
        e.target
    }

    fn go(&mut self, st: &mut State) -> X<()> {
        let env = self.env;
        'frame: loop {
            let fr = st.frames.last().unwrap();
            let func = &env.m.funcs[fr.func as usize];
            let fidx = fr.func as usize;
            let base = fr.base;
            let fobj = fr.obj;
            let mut pc = fr.pc;
            if !self.fn_seen[fidx] {
                self.fn_seen[fidx] = true;
            }
            let code = &func.code[..];
            macro_rules! set { ($d:expr, $v:expr) => { st.regs[(base + $d) as usize] = $v }; }
            loop {
                self.blk_seen[fidx][(pc >> 6) as usize] |= 1 << (pc & 63);
                st.steps += 1;
                if st.steps > self.max_steps {
                    st.frames.last_mut().unwrap().pc = pc;
                    return end(End::Hang);
                }
                self.inst_dec.clear();
                st.frames.last_mut().unwrap().pc = pc;
                match &code[pc as usize] {
                    Inst::Nop => {}
                    Inst::Bin { op, w, d, a, b } => {
                        let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                        let r = self.binop(st, *op, *w, &x, &y)?;
                        set!(*d, r);
                    }
                    Inst::Icmp { p, w, d, a, b } => {
                        let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                        let r = self.icmp(*p, *w, &x, &y)?;
                        set!(*d, r);
                    }
                    Inst::Fcmp { p, w, d, a, b } => {
                        let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                        let x = self.conc(st, &x)?;
                        let y = self.conc(st, &y)?;
                        let r = self.fcmp(p, *w, x, y);
                        set!(*d, V::C(r));
                    }
                    Inst::FNeg { w, d, a } => {
                        let x = self.get(st, base, *a);
                        let x = self.conc(st, &x)?;
                        set!(*d, V::C(x ^ (1 << (w - 1))));
                    }
                    Inst::Cast { c, d, a, from, to, tyf, tyt } => {
                        let x = self.get(st, base, *a);
                        let r = self.cast(st, *c, &x, *from, *to, *tyf, *tyt)?;
                        set!(*d, r);
                    }
                    Inst::Gep { d, base: b, off, idx } => {
                        let p = self.get(st, base, *b);
                        let mut acc = match &p {
                            V::C(k) => V::C(k.wrapping_add(*off)),
                            V::S(e) => { let k = self.ar.konst(*off, 64); let r = self.ar.bin(Op::Add, *e, k); self.v(r) }
                            _ => return unsup("gep base"),
                        };
                        for (o, iw, sc) in idx.iter() {
                            let i = self.get(st, base, *o);
                            acc = match (&acc, &i) {
                                (V::C(k), V::C(i)) => V::C(k.wrapping_add(sxw(*i, *iw).wrapping_mul(*sc))),
                                _ => {
                                    let e = self.e(&i, *iw);
                                    let e = self.ar.sext(e, 64);
                                    let s = self.ar.konst(*sc, 64);
                                    let m = if sc.is_power_of_two() { let sh = self.ar.konst(sc.trailing_zeros() as u64, 64); self.ar.bin(Op::Shl, e, sh) } else { self.ar.bin(Op::Mul, e, s) };
                                    let a = self.e(&acc, 64);
                                    let r = self.ar.bin(Op::Add, a, m);
                                    self.v(r)
                                }
                            };
                        }
                        set!(*d, acc);
                    }
                    Inst::Load { d, p, ty, bytes, w } => {
                        let a = self.get(st, base, *p);
                        let r = match &a {
                            V::C(addr) if *bytes > 0 && *w <= 64 => self.load_int(st, *addr, *bytes, *w)?,
                            V::S(e) if *bytes > 0 && *w <= 64 => self.load_sym(st, *e, *bytes, *w)?,
                            _ => {
                                let addr = self.conc(st, &a)?;
                                let t = env.m.tys[*ty as usize].clone();
                                self.load_ty(st, addr, &t)?
                            }
                        };
                        set!(*d, r);
                    }
                    Inst::Store { v, p, ty, bytes, w } => {
                        let x = self.get(st, base, *v);
                        let a = self.get(st, base, *p);
                        let addr = self.conc(st, &a)?;
                        if *bytes > 0 && *w <= 64 {
                            self.store_int(st, addr, *bytes, *w, &x)?;
                        } else {
                            let t = env.m.tys[*ty as usize].clone();
                            self.store_ty(st, addr, &t, &x)?;
                        }
                    }
                    Inst::Alloca { d, off } => {
                        set!(*d, V::C(((fobj as u64) << 32) + *off as u64));
                    }
                    Inst::Select { d, c, a, b, w } => {
                        let cv = self.get(st, base, *c);
                        let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                        let r = match (&cv, &x, &y) {
                            (V::C(k), _, _) => if k & 1 != 0 { x } else { y },
                            (V::S(e), V::C(p), V::C(q)) => {
                                if p == q { x } else {
                                    let w = *w;
                                    let (p, q) = (self.ar.konst(*p, w), self.ar.konst(*q, w));
                                    let r = self.ar.ite(*e, p, q);
                                    self.v(r)
                                }
                            }
                            (V::S(_), V::A(_), _) | (V::S(_), V::W(_), _) | (V::S(_), _, V::A(_)) => if self.cond(st, &cv)? { x } else { y },
                            _ => self.sel(st, &cv, x, y)?,
                        };
                        set!(*d, r);
                    }
                    Inst::Mov { d, a } => {
                        let x = self.get(st, base, *a);
                        set!(*d, x);
                    }
                    Inst::Extract { d, a, path } => {
                        let x = self.get(st, base, *a);
                        set!(*d, Self::path_get(&x, path));
                    }
                    Inst::Insert { d, a, v, path } => {
                        let x = self.get(st, base, *a);
                        let y = self.get(st, base, *v);
                        set!(*d, Self::path_set(&x, path, y));
                    }
                    Inst::ExtractElt { d, a, i } => {
                        let x = self.get(st, base, *a);
                        let i = self.get(st, base, *i);
                        let i = self.conc(st, &i)?;
                        set!(*d, Self::path_get(&x, &[i as u32]));
                    }
                    Inst::InsertElt { d, a, v, i } => {
                        let x = self.get(st, base, *a);
                        let y = self.get(st, base, *v);
                        let i = self.get(st, base, *i);
                        let i = self.conc(st, &i)?;
                        set!(*d, Self::path_set(&x, &[i as u32], y));
                    }
                    Inst::Shuffle { d, a, b, mask } => {
                        let x = self.get(st, base, *a);
                        let y = self.get(st, base, *b);
                        let (x, y) = match (x, y) { (V::A(x), V::A(y)) => (x, y), _ => return unsup("shuffle") };
                        let v = mask.iter().map(|m| { let m = *m as usize; if m < x.len() { x[m].clone() } else { y[m - x.len()].clone() } }).collect();
                        set!(*d, V::A(Rc::new(v)));
                    }
                    Inst::CmpXchg { d, p, cmp, new, bytes, w } => {
                        let a = self.get(st, base, *p);
                        let addr = self.conc(st, &a)?;
                        let old = self.load_int(st, addr, *bytes, *w)?;
                        let c = self.get(st, base, *cmp);
                        let eq = self.icmp(Pred::Eq, *w, &old, &c)?;
                        let ok = self.cond(st, &eq)?;
                        if ok {
                            let n = self.get(st, base, *new);
                            self.store_int(st, addr, *bytes, *w, &n)?;
                        }
                        set!(*d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
                    }
                    Inst::AtomicRmw { d, op, p, v, bytes, w } => {
                        let a = self.get(st, base, *p);
                        let addr = self.conc(st, &a)?;
                        let old = self.load_int(st, addr, *bytes, *w)?;
                        let x = self.get(st, base, *v);
                        let n = match &**op {
                            "add" => self.binop(st, BinOp::Add, *w, &old, &x)?,
                            "sub" => self.binop(st, BinOp::Sub, *w, &old, &x)?,
                            "and" => self.binop(st, BinOp::And, *w, &old, &x)?,
                            "or" => self.binop(st, BinOp::Or, *w, &old, &x)?,
                            "xchg" => x,
                            o => return unsup(format!("atomicrmw {}", o)),
                        };
                        self.store_int(st, addr, *bytes, *w, &n)?;
                        set!(*d, old);
                    }
                    Inst::Br(e) => {
                        pc = self.take_edge(st, base, e);
                        continue;
                    }
                    Inst::CondBr { c, t, f } => {
                        let cv = self.get(st, base, *c);
                        let b = match cv { V::C(k) => k & 1 != 0, _ => self.cond(st, &cv)? };
                        pc = self.take_edge(st, base, if b { t } else { f });
                        continue;
                    }
                    Inst::Switch { v, w, cases, edges, map } => {
                        let x = self.get(st, base, *v);
                        let ei = match x {
                            V::C(k) => map.get(&k).copied().unwrap_or(0) as usize,
                            V::S(e) => {
                                // one condition per distinct successor
                                let f = self.ar.konst(0, 1);
                                let mut cs: Vec<E> = vec![f; edges.len()];
                                let mut any = f;
                                // contiguous case ranges to one successor become range checks
                                let mut sorted: Vec<(u64, u32)> = cases.to_vec();
                                sorted.sort_unstable();
                                let mut i = 0;
                                while i < sorted.len() {
                                    let (lo, ed) = sorted[i];
                                    let mut j = i;
                                    while j + 1 < sorted.len() && sorted[j + 1].1 == ed && sorted[j + 1].0 == sorted[j].0 + 1 { j += 1; }
                                    let hi = sorted[j].0;
                                    let c = if lo == hi {
                                        let k = self.ar.konst(lo, *w);
                                        self.ar.bin(Op::Eq, e, k)
                                    } else {
                                        let (kl, kh) = (self.ar.konst(lo, *w), self.ar.konst(hi, *w));
                                        let p = self.ar.bin(Op::Ule, kl, e);
                                        let q = self.ar.bin(Op::Ule, e, kh);
                                        self.ar.bin(Op::And, p, q)
                                    };
                                    if ed != 0 { any = self.ar.bin(Op::Or, any, c); }
                                    cs[ed as usize] = self.ar.bin(Op::Or, cs[ed as usize], c);
                                    i = j + 1;
                                }
                                cs[0] = self.ar.not(any);
                                self.decide_n(st, &cs)?
                            }
                            _ => return unsup("switch"),
                        };
                        pc = self.take_edge(st, base, &edges[ei]);
                        continue;
                    }
                    Inst::Ret(v) => {
                        let r = v.map(|o| self.get(st, base, o));
                        let fr = st.frames.pop().unwrap();
                        if fr.obj != 0 {
                            self.dealloc(st, (fr.obj as u64) << 32)?;
                        }
                        st.regs.truncate(fr.base as usize);
                        if st.frames.is_empty() {
                            return Ok(());
                        }
                        let caller = st.frames.last().unwrap().clone();
                        let cf = &env.m.funcs[caller.func as usize];
                        if let Inst::Call { d, cont, .. } = &cf.code[caller.pc as usize] {
                            if let (Some(d), Some(r)) = (d, r) {
                                st.regs[(caller.base + d) as usize] = r;
                            }
                            let npc = match cont {
                                Some(e) => self.take_edge(st, caller.base, e),
                                None => caller.pc + 1,
                            };
                            st.frames.last_mut().unwrap().pc = npc;
                        } else {
                            return unsup("return to non-call");
                        }
                        continue 'frame;
                    }
                    Inst::Unreachable => return end(End::Panic("unreachable executed".into())),
                    Inst::Unsupported(s) => return unsup(format!("{} in {}", s, func.pretty)),
                    Inst::Call { d, callee, args, cont, rw } => {
                        let fi = match callee {
                            Callee::Fn(i) => *i,
                            Callee::Ind(o) => {
                                let p = self.get(st, base, *o);
                                let a = self.conc(st, &p)?;
                                let id = a >> 32;
                                if id < FUNC_BASE || (id - FUNC_BASE) as usize >= env.m.funcs.len() || a & 0xffff_ffff != 0 {
                                    return end(End::Panic(format!("indirect call to {:#x}", a)));
                                }
                                (id - FUNC_BASE) as u32
                            }
                            Callee::Intr(n) => {
                                let av: Vec<V> = args.iter().map(|o| self.get(st, base, *o)).collect();
                                let r = self.intrinsic(st, n, &av, *rw)?;
                                if let (Some(d), Some(r)) = (d, r) {
                                    set!(*d, r);
                                }
                                match cont {
                                    Some(e) => pc = self.take_edge(st, base, e),
                                    None => pc += 1,
                                }
                                continue;
                            }
                            Callee::Asm => {
                                // only empty black-box asm appears in this code base
                                pc += 1;
                                continue;
                            }
                        };
                        let ext = env.ext[fi as usize];
                        if ext != Ext::None {
                            let av: Vec<V> = args.iter().map(|o| self.get(st, base, *o)).collect();
                            let r = self.external(st, ext, fi, &av)?;
                            if let (Some(d), Some(r)) = (d, r) {
                                set!(*d, r);
                            }
                            match cont {
                                Some(e) => pc = self.take_edge(st, base, e),
                                None => pc += 1,
                            }
                            continue;
                        }
                        let f = &env.m.funcs[fi as usize];
                        let nb = st.regs.len() as u32;
                        if st.frames.len() > 3000 {
                            return end(End::Panic("stack overflow (3000 frames)".into()));
                        }
                        st.regs.resize((nb + f.nregs) as usize, V::C(0));
                        for (i, o) in args.iter().enumerate() {
                            if (i as u32) < f.nparams {
                                let v = self.get(st, base, *o);
                                st.regs[nb as usize + i] = v;
                            }
                        }
                        let obj = if f.frame_size > 0 { (self.alloc(st, f.frame_size as usize) >> 32) as u32 } else { 0 };
                        st.frames.push(Frame { func: fi, pc: 0, base: nb, obj });
                        continue 'frame;
                    }
                }
                pc += 1;
            }
        }
    }

    fn external(&mut self, st: &mut State, x: Ext, fi: u32, a: &[V]) -> X<Option<V>> {
        Ok(Some(match x {
            Ext::Sym => {
                if st.nsym >= 128 {
                    return unsup("more than 128 symbolic bytes");
                }
                let e = self.ar.var(st.nsym);
                st.nsym += 1;
                V::S(e)
            }
            Ext::Choice => {
                // symbolic selector in 0..n, decided immediately
                let n = self.conc(st, &a[0])?;
                if st.nsym >= 128 {
                    return unsup("more than 128 symbolic bytes");
                }
                if n > 256 || n == 0 {
                    return unsup("choice range");
                }
                let id = st.nsym;
                let e = self.ar.var(id);
                let k = if st.fixed >> id & 1 == 1 {
                    st.model[id as usize] as u64
                } else if let Some((k, implied)) = st.forced.pop_front() {
                    self.record(st, (k, implied));
                    st.model[id as usize] = k as u8;
                    k
                } else {
                    // fresh unconstrained selector: every value below n is feasible
                    for v in (1..n).rev() {
                        let mut m = st.model.clone();
                        m[id as usize] = v as u8;
                        self.fork(st, v, m);
                    }
                    st.model[id as usize] = 0;
                    self.record(st, (0, n == 1));
                    0
                };
                let kk = self.ar.konst(k, 8);
                let c = self.ar.bin(Op::Eq, e, kk);
                self.add(st, c);
                st.nsym += 1;
                V::C(k)
            }
            Ext::Concretize => V::C(self.conc(st, &a[0])?),
            Ext::IsSym => V::C(1),
            Ext::Assume => {
                let c = match &a[0] {
                    V::C(k) => {
                        if k & 1 == 0 {
                            return end(End::Pruned);
                        }
                        return Ok(None);
                    }
                    V::S(e) => {
                        let w = self.ar.w(*e);
                        if w == 1 { *e } else { let z = self.ar.konst(0, w); let q = self.ar.bin(Op::Eq, *e, z); self.ar.not(q) }
                    }
                    _ => return unsup("assume"),
                };
                if self.ar.as_const(c) == Some(0) {
                    return end(End::Pruned);
                }
                if self.ar.eval(c, &st.model) != 0 {
                    self.add(st, c);
                } else {
                    match self.sat(st, c) {
                        Some(m) => {
                            st.model = m;
                            self.add(st, c);
                        }
                        None => return end(End::Pruned),
                    }
                }
                return Ok(None);
            }
            Ext::Fail => {
                let k = self.conc(st, &a[0])?;
                return end(End::Fail(k));
            }
            Ext::Cover => {
                let k = self.conc(st, &a[0])? as u32;
                if !st.covers.contains(&k) {
                    st.covers.push(k);
                }
                return Ok(None);
            }
            Ext::Known => {
                let k = self.conc(st, &a[0])? as u32;
                if !st.knowns.contains(&k) {
                    st.knowns.push(k);
                }
                return Ok(None);
            }
            Ext::Out => {
                st.outs.push(a[0].clone());
                return Ok(None);
            }
            Ext::Note => return Ok(None),
            Ext::Malloc => {
                let n = self.conc(st, &a[0])?;
                if n > 1 << 28 {
                    return end(End::Panic(format!("allocation of {} bytes", n)));
                }
                V::C(self.alloc(st, n as usize))
            }
            Ext::Calloc => {
                let n = self.conc(st, &a[0])?.wrapping_mul(self.conc(st, &a[1])?);
                if n > 1 << 28 {
                    return end(End::Panic(format!("allocation of {} bytes", n)));
                }
                V::C(self.alloc(st, n as usize))
            }
            Ext::PosixMemalign => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                let q = self.alloc(st, n as usize);
                self.store_int(st, p, 8, 64, &V::C(q))?;
                V::C(0)
            }
            Ext::Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])? as usize;
                if p == 0 {
                    return Ok(Some(V::C(self.alloc(st, n))));
                }
                if n > 1 << 28 {
                    return end(End::Panic(format!("allocation of {} bytes", n)));
                }
                let id = (p >> 32) as u32;
                if id < HEAP_BASE || p & 0xffff_ffff != 0 {
                    return end(End::Panic("realloc of invalid pointer".into()));
                }
                match self.obj_mut(st, id) {
                    Some(o) => {
                        o.data.resize(n, 0);
                        if let Some(s) = &mut o.sym {
                            s.resize(n, E(0));
                        }
                        o.size = n;
                    }
                    None => return end(End::Panic("realloc after free".into())),
                }
                V::C(p)
            }
            Ext::Free => {
                let p = self.conc(st, &a[0])?;
                self.dealloc(st, p)?;
                return Ok(None);
            }
            Ext::Memcmp | Ext::Bcmp => {
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let mut l = Vec::with_capacity(n as usize);
                for i in 0..n {
                    l.push((self.load_int(st, p + i, 1, 8)?, self.load_int(st, q + i, 1, 8)?));
                }
                if l.iter().all(|(x, y)| matches!((x, y), (V::C(_), V::C(_)))) {
                    let mut r = 0u64;
                    for (x, y) in &l {
                        if let (V::C(x), V::C(y)) = (x, y) {
                            if x != y {
                                r = if x < y { 0xffff_ffff } else { 1 };
                                break;
                            }
                        }
                    }
                    return Ok(Some(V::C(r)));
                }
                if x == Ext::Bcmp {
                    let mut all = self.ar.konst(1, 1);
                    for (x, y) in &l {
                        let (p, q) = (self.e(x, 8), self.e(y, 8));
                        let c = self.ar.bin(Op::Eq, p, q);
                        all = self.ar.bin(Op::And, all, c);
                        if self.ar.as_const(all) == Some(0) { break; }
                    }
                    let (z, o) = (self.ar.konst(0, 32), self.ar.konst(1, 32));
                    let r = self.ar.ite(all, z, o);
                    self.v(r)
                } else {
                    let mut r = self.ar.konst(0, 32);
                    for (x, y) in l.iter().rev() {
                        let (p, q) = (self.e(x, 8), self.e(y, 8));
                        let eq = self.ar.bin(Op::Eq, p, q);
                        let lt = self.ar.bin(Op::Ult, p, q);
                        let (m, o) = (self.ar.konst(0xffff_ffff, 32), self.ar.konst(1, 32));
                        let d = self.ar.ite(lt, m, o);
                        r = self.ar.ite(eq, r, d);
                    }
                    self.v(r)
                }
            }
            Ext::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    match self.load_int(st, p + n, 1, 8)? {
                        V::C(0) => break,
                        V::C(_) => n += 1,
                        _ => return unsup("strlen of symbolic data"),
                    }
                }
                V::C(n)
            }
            Ext::Abort => return end(End::Panic("abort".into())),
            Ext::Panic => {
                // message, when it is a plain &'static str
                let mut msg = self.env.m.funcs[fi as usize].pretty.clone();
                if let (Some(V::C(p)), Some(V::C(n))) = (a.first(), a.get(1)) {
                    if *n < 4000 && (p >> 32) != 0 {
                        let mut s = vec![];
                        for i in 0..*n {
                            if let Ok(V::C(b)) = self.load_int(st, p + i, 1, 8) { s.push(b as u8) } else { break }
                        }
                        if s.len() as u64 == *n { msg = format!("{}: {}", msg, String::from_utf8_lossy(&s)) }
                    }
                }
                return end(End::Panic(msg));
            }
            Ext::Zero => V::C(0),
            Ext::Errno => {
                let id = match st.gmod.iter().find(|(g, _)| *g == u32::MAX) { Some(_) => return unsup("errno"), None => self.alloc(st, 8) };
                V::C(id)
            }
            Ext::Syscall => V::C(mask(64)),
            Ext::Write => a.get(2).cloned().unwrap_or(V::C(0)),
            Ext::Unsupported | Ext::None => return unsup(format!("external function {}", self.env.m.funcs[fi as usize].name)),
        }))
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[V], rw: u32) -> X<Option<V>> {
        let n = &n[5..];
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let d = self.conc(st, &a[0])?;
            let s = self.conc(st, &a[1])?;
            let k = self.conc(st, &a[2])?;
            self.copy(st, d, s, k as usize)?;
            return Ok(None);
        }
        if n.starts_with("memset") {
            let d = self.conc(st, &a[0])?;
            let k = self.conc(st, &a[2])?;
            if let V::C(b) = a[1] {
                if k > 0 {
                    let (id, off) = ((d >> 32) as u32, (d & 0xffff_ffff) as usize);
                    match self.obj_mut(st, id) {
                        Some(o) if off + k as usize <= o.size => {
                            o.data[off..off + k as usize].fill(b as u8);
                            if let Some(s) = &mut o.sym {
                                s[off..off + k as usize].fill(E(0));
                            }
                        }
                        _ => return self.bad_access(d, k as usize, "memset"),
                    }
                }
            } else {
                for i in 0..k {
                    self.store_int(st, d + i, 1, 8, &a[1])?;
                }
            }
            return Ok(None);
        }
        if n.starts_with("threadlocal.address") || n.starts_with("expect") || n.starts_with("launder") || n.starts_with("ptrmask") {
            return Ok(Some(a[0].clone()));
        }
        if n.starts_with("is.constant") {
            return Ok(Some(V::C(0)));
        }
        if n.starts_with("trap") || n.starts_with("debugtrap") {
            return end(End::Panic("trap".into()));
        }
        let w = n.rsplit('.').next().and_then(|s| s.strip_prefix('i')).and_then(|s| s.parse::<u32>().ok()).unwrap_or(0);
        if let Some(x) = a.iter().find_map(|v| if let V::A(x) = v { Some(x.len()) } else { None }) {
            // lane-wise for vectors: <n>.vNiW
            let base = n.split(".v").next().unwrap();
            let ew = n.rsplit('i').next().and_then(|s| s.parse::<u32>().ok()).unwrap_or(0);
            if n.starts_with("vector.reduce") {
                let lanes = match &a[a.len() - 1] { V::A(v) => v.clone(), _ => return unsup(n) };
                let mut acc = lanes[0].clone();
                for l in &lanes[1..] {
                    let op = if base.ends_with(".or") { BinOp::Or } else if base.ends_with(".and") { BinOp::And } else if base.ends_with(".add") { BinOp::Add } else if base.ends_with(".xor") { BinOp::Xor } else { return unsup(n) };
                    acc = self.binop(st, op, ew, &acc, l)?;
                }
                return Ok(Some(acc));
            }
            let name = format!("llvm.{}.i{}", base, ew);
            let mut out = vec![];
            for i in 0..x {
                let av: Vec<V> = a.iter().map(|v| if let V::A(l) = v { l[i].clone() } else { v.clone() }).collect();
                out.push(self.intrinsic(st, &name, &av, ew)?.unwrap());
            }
            return Ok(Some(V::A(Rc::new(out))));
        }
        if a.iter().any(|v| matches!(v, V::W(_))) {
            let g = |v: &V| match v { V::W(x) => **x, V::C(x) => *x as u128, _ => 0 };
            let (x, y) = (g(&a[0]), if a.len() > 1 { g(&a[1]) } else { 0 });
            let name = n.split(".i").next().unwrap();
            return Ok(Some(match name {
                "umax" => V::W(Rc::new(x.max(y))),
                "umin" => V::W(Rc::new(x.min(y))),
                "ctlz" => V::W(Rc::new((x.leading_zeros() - (128 - w)) as u128)),
                "cttz" => V::W(Rc::new(x.trailing_zeros().min(w) as u128)),
                _ => return unsup(format!("wide intrinsic {}", n)),
            }));
        }
        let name = n.split(".i").next().unwrap();
        let allc = a.iter().all(|v| matches!(v, V::C(_)));
        let c = |i: usize| if let V::C(k) = a[i] { k } else { 0 };
        let _ = rw;
        match name {
            "umax" | "umin" | "smax" | "smin" => {
                let p = match name { "umax" => Pred::Ugt, "umin" => Pred::Ult, "smax" => Pred::Sgt, _ => Pred::Slt };
                let cc = self.icmp(p, w, &a[0], &a[1])?;
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let ce = self.e(&cc, 1);
                let r = self.ar.ite(ce, x, y);
                return Ok(Some(self.v(r)));
            }
            "usub.sat" => {
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let lt = self.ar.bin(Op::Ult, x, y);
                let d = self.ar.bin(Op::Sub, x, y);
                let z = self.ar.konst(0, w);
                let r = self.ar.ite(lt, z, d);
                return Ok(Some(self.v(r)));
            }
            "uadd.sat" => {
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let s = self.ar.bin(Op::Add, x, y);
                let ov = self.ar.bin(Op::Ult, s, x);
                let m = self.ar.konst(!0, w);
                let r = self.ar.ite(ov, m, s);
                return Ok(Some(self.v(r)));
            }
            "uadd.with.overflow" | "usub.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" => {
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let add = name.contains("add");
                let s = self.ar.bin(if add { Op::Add } else { Op::Sub }, x, y);
                let ov = if name.starts_with('u') {
                    if add { self.ar.bin(Op::Ult, s, x) } else { self.ar.bin(Op::Ult, x, y) }
                } else {
                    let z = self.ar.konst(0, w);
                    let yn = self.ar.bin(Op::Slt, y, z);
                    let lt = if add { self.ar.bin(Op::Slt, s, x) } else { self.ar.bin(Op::Slt, x, s) };
                    self.ar.bin(Op::Xor, yn, lt)
                };
                return Ok(Some(V::A(Rc::new(vec![self.v(s), self.v(ov)]))));
            }
            "umul.with.overflow" | "smul.with.overflow" => {
                if !allc {
                    let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                    let (mx, my) = (self.ar.nd(x).max, self.ar.nd(y).max);
                    if name == "umul.with.overflow" && mx.checked_mul(my).map_or(false, |p| p <= mask(w)) {
                        let r = self.ar.bin(Op::Mul, x, y);
                        return Ok(Some(V::A(Rc::new(vec![self.v(r), V::C(0)]))));
                    }
                    if name == "umul.with.overflow" && self.ar.as_const(y).is_some() {
                        let k = self.ar.as_const(y).unwrap();
                        let lim = self.ar.konst(if k == 0 { mask(w) } else { mask(w) / k }, w);
                        let ov = self.ar.bin(Op::Ult, lim, x);
                        let r = self.ar.bin(Op::Mul, x, y);
                        return Ok(Some(V::A(Rc::new(vec![self.v(r), self.v(ov)]))));
                    }
                }
                let x = self.conc(st, &a[0])?;
                let y = self.conc(st, &a[1])?;
                if name.starts_with('u') {
                    let p = x as u128 * y as u128;
                    return Ok(Some(V::A(Rc::new(vec![V::C(p as u64 & mask(w)), V::C((p > mask(w) as u128) as u64)]))));
                }
                let p = (sxw(x, w) as i64 as i128) * (sxw(y, w) as i64 as i128);
                let r = p as u64 & mask(w);
                return Ok(Some(V::A(Rc::new(vec![V::C(r), V::C((sxw(r, w) as i64 as i128 != p) as u64)]))));
            }
            "abs" => {
                let x = self.e(&a[0], w);
                let z = self.ar.konst(0, w);
                let neg = self.ar.bin(Op::Slt, x, z);
                let m = self.ar.bin(Op::Sub, z, x);
                let r = self.ar.ite(neg, m, x);
                return Ok(Some(self.v(r)));
            }
            "fshl" | "fshr" => {
                let k = self.conc(st, &a[2])? % w as u64;
                if k == 0 {
                    return Ok(Some(a[if name == "fshl" { 0 } else { 1 }].clone()));
                }
                let sl = if name == "fshl" { k } else { w as u64 - k };
                let l = self.binop(st, BinOp::Shl, w, &a[0], &V::C(sl))?;
                let r = self.binop(st, BinOp::LShr, w, &a[1], &V::C(w as u64 - sl))?;
                return Ok(Some(self.binop(st, BinOp::Or, w, &l, &r)?));
            }
            "ucmp" | "scmp" => {
                // name is ucmp.iR.iW
                let (lt, gt) = if name == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &a[0], &a[1])?;
                let g = self.icmp(gt, w, &a[0], &a[1])?;
                let rwid = rw;
                let (le, ge) = (self.e(&l, 1), self.e(&g, 1));
                let (m1, one, z) = (self.ar.konst(!0, rwid), self.ar.konst(1, rwid), self.ar.konst(0, rwid));
                let i = self.ar.ite(ge, one, z);
                let r = self.ar.ite(le, m1, i);
                return Ok(Some(self.v(r)));
            }
            _ => {}
        }
        if allc {
            let x = c(0);
            let r = match name {
                "ctlz" => (x.leading_zeros() - (64 - w)) as u64,
                "cttz" => (x.trailing_zeros().min(w)) as u64,
                "ctpop" => x.count_ones() as u64,
                "bswap" => x.swap_bytes() >> (64 - w),
                "bitreverse" => x.reverse_bits() >> (64 - w),
                _ => match n {
                    "fabs.f64" => x & !(1 << 63),
                    "floor.f64" => f64::from_bits(x).floor().to_bits(),
                    "ceil.f64" => f64::from_bits(x).ceil().to_bits(),
                    "trunc.f64" => f64::from_bits(x).trunc().to_bits(),
                    "copysign.f64" => f64::from_bits(x).copysign(f64::from_bits(c(1))).to_bits(),
                    "fptosi.sat.i64.f64" => f64::from_bits(x) as i64 as u64,
                    "fptoui.sat.i64.f64" => f64::from_bits(x) as u64,
                    _ => return unsup(format!("intrinsic {}", n)),
                },
            };
            return Ok(Some(V::C(r & mask(rw))));
        }
        match name {
            "bswap" => {
                let x = self.e(&a[0], w);
                let mut acc: Option<E> = None;
                for i in (0..w / 8).rev() {
                    let b = self.ar.extract(x, i * 8, 8);
                    acc = Some(match acc { None => b, Some(l) => self.ar.concat(b, l) });
                }
                return Ok(Some(self.v(acc.unwrap())));
            }
            "ctlz" | "cttz" | "ctpop" => {
                let x = self.e(&a[0], w);
                let mut r = self.ar.konst(if name == "ctpop" { 0 } else { w as u64 }, w);
                for i in 0..w {
                    let i = if name == "cttz" { w - 1 - i } else { i };
                    let b = self.ar.extract(x, i, 1);
                    if name == "ctpop" {
                        let z = self.ar.zext(b, w);
                        r = self.ar.bin(Op::Add, r, z);
                    } else {
                        let k = self.ar.konst(if name == "ctlz" { (w - 1 - i) as u64 } else { i as u64 }, w);
                        r = self.ar.ite(b, k, r);
                    }
                }
                return Ok(Some(self.v(r)));
            }
            _ => {}
        }
        unsup(format!("symbolic intrinsic {}", n))
    }

    pub fn _unused(&self) {}
    pub fn digest(&mut self, st: &State) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for v in st.outs.clone() {
            let x = match v {
                V::C(k) => k,
                V::S(e) => self.ar.eval(e, &st.model),
                _ => 0,
            };
            for b in x.to_le_bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        }
        h
    }
}


impl State {
    pub fn forced_iter(&self) -> Vec<(u64, bool)> {
        self.forced.iter().copied().collect()
    }
}
