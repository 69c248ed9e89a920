//! Z3 back end: every feasibility and assertion query that the cache cannot answer is decided here.
use crate::expr::{Arena, Op, E};
use rustc_hash::FxHashMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const i8, v: *const i8);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_bv_sort(c: P, n: u32) -> P;
    fn Z3_mk_int_symbol(c: P, i: i32) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: u32, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: u32, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: u32, lo: u32, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: u32);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: u32);
    fn Z3_mk_string_symbol(c: P, s: *const i8) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const i8;
}

#[derive(Clone)]
pub enum Ans {
    Unsat,
    Sat(Box<[u8]>),
    Unknown,
}

pub struct Shared {
    shards: Vec<Mutex<FxHashMap<u128, Ans>>>,
    pub q_z3: AtomicU64,
    pub q_hit: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_unknown: AtomicU64,
    pub ns: AtomicU64,
    pub dump: Mutex<Vec<(String, bool)>>,
}
impl Shared {
    pub fn new() -> Self {
        Shared {
            shards: (0..256).map(|_| Mutex::new(FxHashMap::default())).collect(),
            q_z3: AtomicU64::new(0), q_hit: AtomicU64::new(0), q_unsat: AtomicU64::new(0), q_unknown: AtomicU64::new(0), ns: AtomicU64::new(0),
            dump: Mutex::new(vec![]),
        }
    }
}

pub struct Solver<'s> {
    ctx: P,
    sol: P,
    ast: Vec<P>,
    sh: &'s Shared,
    order: Vec<u8>,
    memo: FxHashMap<u32, u128>,
    made: usize,
    pub dump_every: u64,
}

impl<'s> Solver<'s> {
    pub fn new(sh: &'s Shared) -> Self {
        let mut s = Solver { ctx: std::ptr::null_mut(), sol: std::ptr::null_mut(), ast: vec![], sh, order: vec![], memo: FxHashMap::default(), made: 0, dump_every: 0 };
        s.init();
        s
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, b"model\0".as_ptr() as _, b"true\0".as_ptr() as _);
            self.ctx = Z3_mk_context(cfg);
            self.sol = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.sol);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, b"timeout\0".as_ptr() as _), 20000);
            Z3_solver_set_params(self.ctx, self.sol, p);
        }
        self.ast.clear();
        self.made = 0;
    }
    /// must be called whenever the arena is replaced
    pub fn reset(&mut self) {
        unsafe { Z3_del_context(self.ctx) };
        self.init();
    }
    fn b2bv(&self, x: P) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, 1);
            Z3_mk_ite(self.ctx, x, Z3_mk_unsigned_int64(self.ctx, 1, s), Z3_mk_unsigned_int64(self.ctx, 0, s))
        }
    }
    fn enc(&mut self, ar: &Arena, e: E) -> P {
        let i = e.0 as usize;
        if self.ast.len() < ar.n.len() {
            self.ast.resize(ar.n.len(), std::ptr::null_mut());
        }
        if !self.ast[i].is_null() {
            return self.ast[i];
        }
        let n = ar.n[i];
        let c = self.ctx;
        self.made += 1;
        let r = unsafe {
            match n.op {
                Op::Const => if n.w == 1 { if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { Z3_mk_unsigned_int64(c, n.k, Z3_mk_bv_sort(c, n.w as u32)) },
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as i32), Z3_mk_bv_sort(c, 8)),
                Op::Not => { let a = self.enc(ar, n.a); Z3_mk_not(c, a) }
                Op::ZExt | Op::SExt | Op::Extract => {
                    let mut a = self.enc(ar, n.a);
                    let mut aw = ar.w(n.a);
                    if aw == 1 { a = self.b2bv(a); aw = 1; }
                    match n.op {
                        Op::ZExt => Z3_mk_zero_ext(c, n.w as u32 - aw, a),
                        Op::SExt => Z3_mk_sign_ext(c, n.w as u32 - aw, a),
                        _ => {
                            let x = Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, a);
                            if n.w == 1 { Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) } else { x }
                        }
                    }
                }
                Op::Ite => { let a = self.enc(ar, n.a); let b = self.enc(ar, n.b); let d = self.enc(ar, n.c); Z3_mk_ite(c, a, b, d) }
                Op::Concat => {
                    let mut a = self.enc(ar, n.a);
                    let mut b = self.enc(ar, n.b);
                    if ar.w(n.a) == 1 { a = self.b2bv(a) }
                    if ar.w(n.b) == 1 { b = self.b2bv(b) }
                    Z3_mk_concat(c, a, b)
                }
                _ => {
                    let a = self.enc(ar, n.a);
                    let b = self.enc(ar, n.b);
                    let bools = ar.w(n.a) == 1;
                    let ab = [a, b];
                    match n.op {
                        Op::And if bools => Z3_mk_and(c, 2, ab.as_ptr()),
                        Op::Or if bools => Z3_mk_or(c, 2, ab.as_ptr()),
                        Op::Xor if bools => Z3_mk_xor(c, a, b),
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult if bools => { let na = Z3_mk_not(c, a); Z3_mk_and(c, 2, [na, b].as_ptr()) }
                        Op::Ule if bools => { let na = Z3_mk_not(c, a); Z3_mk_or(c, 2, [na, b].as_ptr()) }
                        _ if bools => panic!("bool op {:?}", n.op),
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        Op::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.ast[i] = r;
        r
    }

    /// Decide satisfiability of the conjunction. On Sat `model` is updated for the variables of the query.
    pub fn check(&mut self, ar: &mut Arena, es: &[E], model: &mut [u8]) -> Option<bool> {
        let mut order = std::mem::take(&mut self.order);
        let mut memo = std::mem::take(&mut self.memo);
        let key = ar.canon(es, &mut order, &mut memo);
        let shard = &self.sh.shards[(key as usize) & 255];
        let hit = shard.lock().unwrap().get(&key).cloned();
        let ans = match hit {
            Some(a) => {
                self.sh.q_hit.fetch_add(1, Relaxed);
                a
            }
            None => {
                let a = self.z3(ar, es, &order);
                shard.lock().unwrap().insert(key, a.clone());
                a
            }
        };
        let r = match ans {
            Ans::Unsat => Some(false),
            Ans::Unknown => None,
            Ans::Sat(v) => {
                for (i, b) in order.iter().enumerate() {
                    model[*b as usize] = v[i];
                }
                Some(true)
            }
        };
        self.order = order;
        self.memo = memo;
        r
    }
    fn z3(&mut self, ar: &Arena, es: &[E], order: &[u8]) -> Ans {
        if self.made > 400_000 {
            self.reset();
        }
        let t = std::time::Instant::now();
        let n = self.sh.q_z3.fetch_add(1, Relaxed);
        let r = unsafe {
            Z3_solver_push(self.ctx, self.sol);
            for e in es {
                let a = self.enc(ar, *e);
                Z3_solver_assert(self.ctx, self.sol, a);
            }
            let r = Z3_solver_check(self.ctx, self.sol);
            if self.dump_every > 0 && n % self.dump_every == 0 && r != 0 {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.sol)).to_string_lossy().into_owned();
                self.sh.dump.lock().unwrap().push((s, r == 1));
            }
            let ans = match r {
                -1 => {
                    self.sh.q_unsat.fetch_add(1, Relaxed);
                    Ans::Unsat
                }
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.sol);
                    Z3_model_inc_ref(self.ctx, m);
                    let s8 = Z3_mk_bv_sort(self.ctx, 8);
                    let mut out = vec![0u8; order.len()];
                    for (i, v) in order.iter().enumerate() {
                        let t = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, *v as i32), s8);
                        let mut r: P = std::ptr::null_mut();
                        let mut x = 0u64;
                        if Z3_model_eval(self.ctx, m, t, true, &mut r) && Z3_get_numeral_uint64(self.ctx, r, &mut x) {
                            out[i] = x as u8;
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Ans::Sat(out.into_boxed_slice())
                }
                _ => {
                    self.sh.q_unknown.fetch_add(1, Relaxed);
                    Ans::Unknown
                }
            };
            Z3_solver_pop(self.ctx, self.sol, 1);
            ans
        };
        self.sh.ns.fetch_add(t.elapsed().as_nanos() as u64, Relaxed);
        r
    }
}
