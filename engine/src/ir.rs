//! Textual LLVM IR -> compact instruction form.
//! The module is whatever `rustc -C lto=fat -C save-temps` produced from /repo's current source plus the harness.
use rustc_hash::FxHashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(bool, Vec<Ty>),
    Other,
}

impl Ty {
    pub fn size_align(&self) -> (u64, u64) {
        match self {
            Ty::Void | Ty::Other => (0, 1),
            Ty::I(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16).max(1);
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr | Ty::F64 => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Arr(n, t) => {
                let (s, a) = t.size_align();
                (s * n, a)
            }
            Ty::Vec(n, t) => {
                let s = match &**t {
                    Ty::I(w) => (n * *w as u64 + 7) / 8,
                    o => o.size_align().0 * n,
                };
                (s, s.next_power_of_two().max(1))
            }
            Ty::Struct(packed, ts) => {
                let mut off = 0;
                let mut al = 1;
                for t in ts {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((off + al - 1) / al * al, al)
            }
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Struct(packed, ts) => {
                let mut off = 0;
                for (k, t) in ts.iter().enumerate() {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    if k == i {
                        return (off, t);
                    }
                    off += s;
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size_align().0 * i as u64, t),
            _ => panic!("field_off of {:?}", self),
        }
    }
    /// scalar bit width (pointers and floats are 64/32 bit integers to us)
    pub fn width(&self) -> u32 {
        match self {
            Ty::I(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::I(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

/// Constant value tree
#[derive(Clone, Debug, PartialEq)]
pub enum Cv {
    I(u64),
    W(u128),
    Agg(Vec<Cv>),
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Zext, Sext, Trunc, Bit, FpTrunc, FpExt, UiToFp, SiToFp, FpToUi, FpToSi }

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub copies: Vec<(u32, Opd)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Intr(Box<str>),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Nop,
    Bin { op: BinOp, w: u32, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u32, d: u32, a: Opd, b: Opd },
    Fcmp { p: Box<str>, w: u32, d: u32, a: Opd, b: Opd },
    FNeg { w: u32, d: u32, a: Opd },
    Cast { c: Cast, d: u32, a: Opd, from: u32, to: u32, tyf: u32, tyt: u32 },
    Gep { d: u32, base: Opd, off: u64, idx: Box<[(Opd, u32, u64)]> },
    Load { d: u32, p: Opd, ty: u32, bytes: u32, w: u32 },
    Store { v: Opd, p: Opd, ty: u32, bytes: u32, w: u32 },
    Alloca { d: u32, off: u32 },
    Select { d: u32, c: Opd, a: Opd, b: Opd, w: u32 },
    Mov { d: u32, a: Opd },
    Extract { d: u32, a: Opd, path: Box<[u32]> },
    Insert { d: u32, a: Opd, v: Opd, path: Box<[u32]> },
    ExtractElt { d: u32, a: Opd, i: Opd },
    InsertElt { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, mask: Box<[u32]> },
    Call { d: Option<u32>, callee: Callee, args: Box<[Opd]>, cont: Option<Box<Edge>>, rw: u32 },
    CmpXchg { d: u32, p: Opd, cmp: Opd, new: Opd, bytes: u32, w: u32 },
    AtomicRmw { d: u32, op: Box<str>, p: Opd, v: Opd, bytes: u32, w: u32 },
    Br(Box<Edge>),
    CondBr { c: Opd, t: Box<Edge>, f: Box<Edge> },
    Switch { v: Opd, w: u32, cases: Box<[(u64, u32)]>, edges: Box<[Edge]>, map: Box<FxHashMap<u64, u32>> },
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(Box<str>),
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<Inst>,
    pub frame_size: u32,
    pub defined: bool,
    pub varargs: bool,
    /// first pc of every basic block
    pub blocks: Vec<u32>,
}

pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub consts: Vec<Cv>,
    pub tys: Vec<Ty>,
    pub fn_by_name: FxHashMap<String, u32>,
    pub nglob_ids: u32,
}

/// address of function i: object id FUNC_BASE+i
pub const FUNC_BASE: u64 = 0x4000_0000;
pub fn fn_addr(i: u32) -> u64 {
    (FUNC_BASE + i as u64) << 32
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),
    L(String),
    G(String),
    S(Vec<u8>),
    Q(String),
    P(char),
    Meta,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(24);
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                // comment to end of line
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1
                    }
                    name = String::from_utf8_lossy(&unescape(&b[st..j])).into_owned();
                    i = j + 1;
                } else {
                    let st = i;
                    while i < b.len() && is_word(b[i]) {
                        i += 1
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(T::Q(String::from_utf8_lossy(&b[st..j]).into_owned()));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(T::S(unescape(&b[st..j])));
                i = j + 1;
            }
            b'!' => {
                // metadata attachment: the rest of the logical line is metadata, unless it is an inline "metadata !x" arg
                i += 1;
                while i < b.len() && (is_word(b[i])) {
                    i += 1
                }
                out.push(T::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && is_word(b[i]) {
                    i += 1
                }
            }
            _ if is_word(c) => {
                let st = i;
                while i < b.len() && is_word(b[i]) {
                    i += 1
                }
                out.push(T::W(s[st..i].to_string()));
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct P<'a> {
    t: &'a [T],
    i: usize,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Option<&T> {
        self.i += 1;
        self.t.get(self.i - 1)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, self.peek()))
        }
    }
    fn word(&mut self) -> R<String> {
        match self.next() {
            Some(T::W(w)) => Ok(w.clone()),
            x => Err(format!("expected word, got {:?}", x)),
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next().cloned() {
            Some(T::W(w)) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "half" | "fp128" => Ty::Other,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::I(w[1..].parse().unwrap()),
                _ => return Err(format!("type {}", w)),
            },
            Some(T::P('[')) => {
                let n = self.word()?.parse::<u64>().map_err(|e| e.to_string())?;
                if !self.eat_w("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.exp(']')?;
                Ty::Arr(n, Box::new(t))
            }
            Some(T::P('{')) => {
                let mut v = vec![];
                if !self.eat_p('}') {
                    loop {
                        v.push(self.ty()?);
                        if self.eat_p('}') {
                            break;
                        }
                        self.exp(',')?;
                    }
                }
                Ty::Struct(false, v)
            }
            Some(T::P('<')) => {
                if self.eat_p('{') {
                    let mut v = vec![];
                    if !self.eat_p('}') {
                        loop {
                            v.push(self.ty()?);
                            if self.eat_p('}') {
                                break;
                            }
                            self.exp(',')?;
                        }
                    }
                    self.exp('>')?;
                    Ty::Struct(true, v)
                } else {
                    let n = self.word()?.parse::<u64>().map_err(|e| e.to_string())?;
                    if !self.eat_w("x") {
                        return Err("x".into());
                    }
                    let t = self.ty()?;
                    self.exp('>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            x => return Err(format!("type tok {:?}", x)),
        };
        Ok(t)
    }
    /// skip parameter / call-site attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    let w = w.as_str();
                    match w {
                        "align" => {
                            self.i += 1;
                            if self.eat_p('(') {
                                self.skip_paren();
                            } else {
                                self.i += 1;
                            }
                        }
                        "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext" | "inreg" | "returned" | "nocapture" | "immarg" | "dead_on_unwind" | "writable" | "dead_on_return" | "nest" | "swiftself" | "allocptr" | "allocalign" | "noext" | "nonlazybind" | "nosync" => self.i += 1,
                        "range" | "sret" | "byval" | "dereferenceable" | "dereferenceable_or_null" | "captures" | "initializes" | "elementtype" | "memory" | "nofpclass" => {
                            self.i += 1;
                            if self.eat_p('(') {
                                self.skip_paren();
                            }
                        }
                        _ => return,
                    }
                }
                Some(T::Q(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn skip_paren(&mut self) {
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Some(T::P('(')) => d += 1,
                Some(T::P(')')) => d -= 1,
                None => return,
                _ => {}
            }
        }
    }
    fn skip_flags(&mut self) {
        while let Some(T::W(w)) = self.peek() {
            match w.as_str() {
                "inbounds" | "nuw" | "nsw" | "nusw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" => self.i += 1,
                "inrange" => {
                    self.i += 1;
                    if self.eat_p('(') {
                        self.skip_paren()
                    }
                }
                _ => return,
            }
        }
    }
}

pub struct Loader {
    pub m: Module,
    gaddr: FxHashMap<String, u64>,
    tyidx: FxHashMap<String, u32>,
}

fn sext(v: u64, w: u32) -> u64 {
    if w >= 64 || w == 0 {
        v
    } else {
        (((v << (64 - w)) as i64) >> (64 - w)) as u64
    }
}
pub fn mask(w: u32) -> u64 {
    if w >= 64 { !0 } else { (1u64 << w) - 1 }
}

impl Loader {
    fn zero(&self, t: &Ty) -> Cv {
        match t {
            Ty::Arr(n, t) | Ty::Vec(n, t) => Cv::Agg((0..*n).map(|_| self.zero(t)).collect()),
            Ty::Struct(_, ts) => Cv::Agg(ts.iter().map(|t| self.zero(t)).collect()),
            Ty::I(w) if *w > 64 => Cv::W(0),
            _ => Cv::I(0),
        }
    }

    fn konst(&self, p: &mut P, t: &Ty) -> R<Cv> {
        let tok = p.next().cloned();
        match tok {
            Some(T::W(w)) => match w.as_str() {
                "true" => Ok(Cv::I(1)),
                "false" => Ok(Cv::I(0)),
                "null" | "none" => Ok(Cv::I(0)),
                "undef" | "poison" | "zeroinitializer" => Ok(self.zero(t)),
                "splat" => {
                    p.exp('(')?;
                    let et = p.ty()?;
                    let v = self.konst(p, &et)?;
                    p.exp(')')?;
                    let n = match t { Ty::Vec(n, _) => *n, _ => return Err("splat".into()) };
                    Ok(Cv::Agg((0..n).map(|_| v.clone()).collect()))
                }
                "getelementptr" => {
                    p.skip_flags();
                    p.exp('(')?;
                    let bt = p.ty()?;
                    p.exp(',')?;
                    let pt = p.ty()?;
                    p.skip_flags();
                    let b = self.konst(p, &pt)?;
                    let mut addr = match b { Cv::I(x) => x, _ => return Err("gep base".into()) };
                    let mut cur = bt;
                    let mut first = true;
                    while p.eat_p(',') {
                        p.skip_flags();
                        let it = p.ty()?;
                        let iv = match self.konst(p, &it)? { Cv::I(x) => sext(x, it.width()), _ => return Err("gep idx".into()) };
                        if first {
                            addr = addr.wrapping_add(cur.size_align().0.wrapping_mul(iv));
                            first = false;
                        } else {
                            let (o, nt) = match &cur {
                                Ty::Struct(..) => { let (o, t) = cur.field_off(iv as usize); (o, t.clone()) }
                                Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size_align().0.wrapping_mul(iv), (**t).clone()),
                                _ => return Err("gep path".into()),
                            };
                            addr = addr.wrapping_add(o);
                            cur = nt;
                        }
                    }
                    p.exp(')')?;
                    Ok(Cv::I(addr))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "ptrtoaddr" => {
                    p.exp('(')?;
                    let ft = p.ty()?;
                    let v = self.konst(p, &ft)?;
                    if !p.eat_w("to") {
                        return Err("to".into());
                    }
                    let tt = p.ty()?;
                    p.exp(')')?;
                    match v { Cv::I(x) => Ok(Cv::I(x & mask(tt.width()))), v => Ok(v) }
                }
                "sub" | "add" | "xor" | "mul" => {
                    p.skip_flags();
                    p.exp('(')?;
                    let t1 = p.ty()?;
                    let a = self.konst(p, &t1)?;
                    p.exp(',')?;
                    let t2 = p.ty()?;
                    let b = self.konst(p, &t2)?;
                    p.exp(')')?;
                    match (a, b) {
                        (Cv::I(a), Cv::I(b)) => Ok(Cv::I(mask(t1.width()) & match w.as_str() {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        })),
                        _ => Err("const arith".into()),
                    }
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(p, t),
                _ => {
                    // number
                    match t {
                        Ty::I(wd) => {
                            if let Ok(v) = w.parse::<i128>() {
                                if *wd > 64 { Ok(Cv::W(v as u128)) } else { Ok(Cv::I(v as u64 & mask(*wd))) }
                            } else if let Ok(v) = w.parse::<u128>() {
                                Ok(Cv::W(v))
                            } else {
                                Err(format!("int const {}", w))
                            }
                        }
                        Ty::F64 | Ty::F32 => {
                            let bits = if let Some(h) = w.strip_prefix("0x") {
                                u64::from_str_radix(h, 16).map_err(|e| e.to_string())?
                            } else {
                                // 1.000000e+00 ; sign handling: lexer keeps '-' and '.' but '+' splits
                                let mut s = w.clone();
                                if p.is_p('+') {
                                    p.i += 1;
                                    s.push('+');
                                    s.push_str(&p.word()?);
                                }
                                s.parse::<f64>().map_err(|e| format!("{} {}", s, e))?.to_bits()
                            };
                            if *t == Ty::F32 { Ok(Cv::I((f64::from_bits(bits) as f32).to_bits() as u64)) } else { Ok(Cv::I(bits)) }
                        }
                        _ => Err(format!("const {} of {:?}", w, t)),
                    }
                }
            },
            Some(T::G(n)) => self.gaddr.get(&n).copied().map(Cv::I).ok_or(format!("unknown global {}", n)),
            Some(T::S(b)) => Ok(Cv::Agg(b.iter().map(|x| Cv::I(*x as u64)).collect())),
            Some(T::P('{')) => {
                let mut v = vec![];
                if !p.eat_p('}') {
                    loop {
                        let t = p.ty()?;
                        v.push(self.konst(p, &t)?);
                        if p.eat_p('}') { break; }
                        p.exp(',')?;
                    }
                }
                Ok(Cv::Agg(v))
            }
            Some(T::P('[')) => {
                let mut v = vec![];
                if !p.eat_p(']') {
                    loop {
                        let t = p.ty()?;
                        v.push(self.konst(p, &t)?);
                        if p.eat_p(']') { break; }
                        p.exp(',')?;
                    }
                }
                Ok(Cv::Agg(v))
            }
            Some(T::P('<')) => {
                let st = p.eat_p('{');
                let mut v = vec![];
                loop {
                    if st && p.eat_p('}') { p.exp('>')?; break; }
                    if !st && p.eat_p('>') { break; }
                    let t = p.ty()?;
                    v.push(self.konst(p, &t)?);
                    p.eat_p(',');
                }
                Ok(Cv::Agg(v))
            }
            x => Err(format!("const tok {:?}", x)),
        }
    }

    fn emit(&self, t: &Ty, v: &Cv, out: &mut [u8]) {
        match (t, v) {
            (Ty::Struct(..), Cv::Agg(vs)) => {
                for (i, v) in vs.iter().enumerate() {
                    let (o, ft) = t.field_off(i);
                    self.emit(ft, v, &mut out[o as usize..]);
                }
            }
            (Ty::Arr(_, et), Cv::Agg(vs)) | (Ty::Vec(_, et), Cv::Agg(vs)) => {
                let s = et.size_align().0 as usize;
                for (i, v) in vs.iter().enumerate() {
                    self.emit(et, v, &mut out[i * s..]);
                }
            }
            (_, Cv::I(x)) => {
                let n = (t.width() as usize + 7) / 8;
                let b = x.to_le_bytes();
                for i in 0..n.min(8) {
                    out[i] = b[i];
                }
            }
            (_, Cv::W(x)) => {
                let n = (t.width() as usize + 7) / 8;
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            _ => panic!("emit {:?} {:?}", t, v),
        }
    }
}

pub fn load(text: &str) -> Module {
    let mut ld = Loader {
        m: Module { funcs: vec![], globals: vec![], consts: vec![], tys: vec![], fn_by_name: FxHashMap::default(), nglob_ids: 1 },
        gaddr: FxHashMap::default(),
        tyidx: FxHashMap::default(),
    };
    // pass 1: split
    let mut globals: Vec<&str> = vec![];
    let mut funcs: Vec<(&str, Vec<&str>)> = vec![];
    let mut decls: Vec<&str> = vec![];
    let mut lines = text.lines();
    while let Some(l) = lines.next() {
        if l.starts_with('@') {
            globals.push(l);
        } else if l.starts_with("define ") {
            let mut body = vec![];
            for b in lines.by_ref() {
                if b == "}" {
                    break;
                }
                body.push(b);
            }
            funcs.push((l, body));
        } else if l.starts_with("declare ") {
            decls.push(l);
        }
    }
    // function names
    let fname = |l: &str| -> String {
        let at = l.find(" @").unwrap() + 2;
        let r = &l[at..];
        if let Some(s) = r.strip_prefix('"') { s[..s.find('"').unwrap()].to_string() } else { r[..r.find('(').unwrap()].to_string() }
    };
    for (l, _) in &funcs {
        let n = fname(l);
        let i = ld.m.funcs.len() as u32;
        ld.gaddr.insert(n.clone(), fn_addr(i));
        ld.m.fn_by_name.insert(n.clone(), i);
        ld.m.funcs.push(Func { pretty: format!("{:#}", rustc_demangle::demangle(&n)), name: n, nparams: 0, nregs: 0, code: vec![], frame_size: 0, defined: true, varargs: false, blocks: vec![] });
    }
    for l in &decls {
        let n = fname(l);
        let i = ld.m.funcs.len() as u32;
        ld.gaddr.insert(n.clone(), fn_addr(i));
        ld.m.fn_by_name.insert(n.clone(), i);
        ld.m.funcs.push(Func { pretty: n.clone(), name: n, nparams: 0, nregs: 0, code: vec![], frame_size: 0, defined: false, varargs: false, blocks: vec![] });
    }
    // globals: assign ids first
    let mut gdefs: Vec<(String, Vec<T>, usize, bool)> = vec![];
    let mut aliases: Vec<(String, Vec<T>, usize)> = vec![];
    for l in &globals {
        let toks = lex(l);
        let name = match &toks[0] { T::G(n) => n.clone(), _ => panic!() };
        let mut k = None;
        let mut alias = None;
        let mut external = false;
        for (i, t) in toks.iter().enumerate() {
            if let T::W(w) = t {
                if w == "external" || w == "extern_weak" { external = true; }
                if w == "global" || w == "constant" { k = Some((i, w == "constant")); break; }
                if w == "alias" { alias = Some(i); break; }
            }
        }
        if let Some(i) = alias {
            aliases.push((name, toks, i));
            continue;
        }
        let (i, c) = k.unwrap_or_else(|| panic!("global {}", l));
        let id = ld.m.nglob_ids;
        ld.m.nglob_ids += 1;
        ld.gaddr.insert(name.clone(), (id as u64) << 32);
        gdefs.push((name, toks, if external { usize::MAX } else { i + 1 }, c));
    }
    for (name, toks, i) in aliases {
        let mut p = P { t: &toks, i: i + 1 };
        let _ = p.ty();
        let _ = p.eat_p(',');
        let _ = p.ty();
        if let Ok(Cv::I(a)) = ld.konst(&mut p, &Ty::Ptr) {
            ld.gaddr.insert(name, a);
        }
    }
    for (name, toks, i, c) in gdefs {
        if i == usize::MAX {
            ld.m.globals.push(Global { name, data: vec![0; 64], constant: false });
            continue;
        }
        let mut p = P { t: &toks, i };
        let t = p.ty().unwrap_or_else(|e| panic!("{} {}", name, e));
        let v = ld.konst(&mut p, &t).unwrap_or_else(|e| panic!("{} {}", name, e));
        let mut data = vec![0; t.size_align().0 as usize];
        ld.emit(&t, &v, &mut data);
        ld.m.globals.push(Global { name, data, constant: c });
    }
    for (i, (l, body)) in funcs.iter().enumerate() {
        match ld.func(l, body) {
            Ok((np, nr, code, fs, va, blocks)) => {
                let f = &mut ld.m.funcs[i];
                f.nparams = np;
                f.nregs = nr;
                f.code = code;
                f.frame_size = fs;
                f.varargs = va;
                f.blocks = blocks;
            }
            Err(e) => {
                let f = &mut ld.m.funcs[i];
                f.code = vec![Inst::Unsupported(e.into_boxed_str())];
                f.nregs = 64;
                f.blocks = vec![0];
            }
        }
    }
    ld.m
}

struct Fx {
    regs: FxHashMap<String, u32>,
    n: u32,
    frame: u32,
}
impl Fx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.n;
        self.n += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
}

impl Loader {
    fn tyi(&mut self, t: &Ty) -> u32 {
        let k = format!("{:?}", t);
        if let Some(i) = self.tyidx.get(&k) {
            return *i;
        }
        let i = self.m.tys.len() as u32;
        self.m.tys.push(t.clone());
        self.tyidx.insert(k, i);
        i
    }
    fn opd(&mut self, p: &mut P, t: &Ty, fx: &mut Fx) -> R<Opd> {
        if let Some(T::L(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            return Ok(Opd::R(fx.reg(&n)));
        }
        match self.konst(p, t)? {
            Cv::I(x) => Ok(Opd::C(x)),
            k => {
                let i = self.m.consts.len() as u32;
                self.m.consts.push(k);
                Ok(Opd::K(i))
            }
        }
    }
    fn tyopd(&mut self, p: &mut P, fx: &mut Fx) -> R<(Ty, Opd)> {
        let t = p.ty()?;
        p.attrs();
        let o = self.opd(p, &t, fx)?;
        Ok((t, o))
    }

    #[allow(clippy::type_complexity)]
    fn func(&mut self, head: &str, body: &[&str]) -> R<(u32, u32, Vec<Inst>, u32, bool, Vec<u32>)> {
        let toks = lex(head);
        let mut gi = 0;
        while !matches!(toks[gi], T::G(_)) {
            gi += 1;
        }
        let mut fx = Fx { regs: FxHashMap::default(), n: 0, frame: 0 };
        let mut p = P { t: &toks, i: gi + 1 };
        p.exp('(')?;
        let mut np = 0;
        let mut va = false;
        if !p.eat_p(')') {
            loop {
                if p.is_w("...") {
                    p.i += 1;
                    va = true;
                } else {
                    let _t = p.ty()?;
                    p.attrs();
                    match p.next() {
                        Some(T::L(n)) => {
                            let n = n.clone();
                            fx.reg(&n);
                        }
                        x => return Err(format!("param {:?}", x)),
                    }
                    np += 1;
                }
                if p.eat_p(')') {
                    break;
                }
                p.exp(',')?;
            }
        }
        // join logical lines, split in blocks
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut started = false;
        for l in body {
            if l.is_empty() {
                continue;
            }
            if !l.starts_with(' ') {
                let e = l.find(':').ok_or("label")?;
                let mut nm = l[..e].to_string();
                if nm.starts_with('"') {
                    nm = nm.trim_matches('"').to_string();
                }
                blocks.push((nm, vec![]));
                started = true;
                continue;
            }
            if !started {
                // entry block is numbered after the params if unnamed
                blocks.push((format!("{}", np), vec![]));
                started = true;
            }
            let cont = l.starts_with("   ") || l.starts_with("  ]");
            let cur = &mut blocks.last_mut().unwrap().1;
            if l.trim_start().starts_with('#') && l.contains("dbg_") {
                continue;
            }
            if cont {
                let s = cur.last_mut().ok_or("cont")?;
                s.push('\n');
                s.push_str(l);
            } else {
                cur.push(l.to_string());
            }
        }
        // phis
        type Phi = (u32, Vec<(Opd, String)>);
        let mut phis: FxHashMap<String, Vec<Phi>> = FxHashMap::default();
        for (bn, ls) in &blocks {
            for l in ls {
                let toks = lex(l);
                if toks.len() > 3 && toks[1] == T::P('=') && toks[2] == T::W("phi".into()) {
                    let d = match &toks[0] { T::L(n) => fx.reg(n), _ => return Err("phi".into()) };
                    let mut p = P { t: &toks, i: 3 };
                    p.skip_flags();
                    let t = p.ty()?;
                    let mut inc = vec![];
                    loop {
                        p.exp('[')?;
                        let o = self.opd(&mut p, &t, &mut fx)?;
                        p.exp(',')?;
                        let b = match p.next() { Some(T::L(n)) => n.clone(), x => return Err(format!("phi blk {:?}", x)) };
                        p.exp(']')?;
                        inc.push((o, b));
                        if !p.eat_p(',') || matches!(p.peek(), Some(T::Meta)) { break; }
                    }
                    phis.entry(bn.clone()).or_default().push((d, inc));
                } else {
                    break;
                }
            }
        }
        let mut bi: FxHashMap<String, u32> = FxHashMap::default();
        for (i, (n, _)) in blocks.iter().enumerate() {
            bi.insert(n.clone(), i as u32);
        }
        let mut code: Vec<Inst> = vec![];
        let mut starts: Vec<u32> = vec![];
        for (bn, ls) in &blocks {
            starts.push(code.len() as u32);
            for l in ls {
                let toks = lex(l);
                let inst = match self.inst(&toks, bn, &mut fx, &phis, &bi) {
                    Ok(Some(i)) => i,
                    Ok(None) => continue,
                    Err(e) => Inst::Unsupported(format!("{}: {}", e, l.trim()).into_boxed_str()),
                };
                code.push(inst);
            }
        }
        // patch block indices -> pcs
        let fix = |e: &mut Edge| e.target = starts[e.target as usize];
        for i in &mut code {
            match i {
                Inst::Br(e) => fix(e),
                Inst::CondBr { t, f, .. } => {
                    fix(t);
                    fix(f)
                }
                Inst::Switch { edges, .. } => edges.iter_mut().for_each(fix),
                Inst::Call { cont: Some(e), .. } => fix(e),
                _ => {}
            }
        }
        Ok((np, fx.n, code, (fx.frame + 15) & !15, va, starts))
    }

    fn edge(&mut self, from: &str, to: &str, phis: &FxHashMap<String, Vec<(u32, Vec<(Opd, String)>)>>, bi: &FxHashMap<String, u32>) -> R<Edge> {
        let mut copies = vec![];
        if let Some(ps) = phis.get(to) {
            for (d, inc) in ps {
                let o = inc.iter().find(|(_, b)| b == from).ok_or_else(|| format!("phi edge {}->{}", from, to))?;
                copies.push((*d, o.0));
            }
        }
        Ok(Edge { target: *bi.get(to).ok_or_else(|| format!("block {}", to))?, copies })
    }

    fn inst(&mut self, toks: &[T], bn: &str, fx: &mut Fx, phis: &FxHashMap<String, Vec<(u32, Vec<(Opd, String)>)>>, bi: &FxHashMap<String, u32>) -> R<Option<Inst>> {
        let mut p = P { t: toks, i: 0 };
        let mut dst = None;
        if let (Some(T::L(n)), Some(T::P('='))) = (toks.first(), toks.get(1)) {
            dst = Some(fx.reg(n));
            p.i = 2;
        }
        let mut op = p.word()?;
        while matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = p.word()?;
        }
        let d = dst.unwrap_or(u32::MAX);
        let label = |p: &mut P| -> R<String> {
            if !p.eat_w("label") {
                return Err("label kw".into());
            }
            match p.next() { Some(T::L(n)) => Ok(n.clone()), x => Err(format!("label {:?}", x)) }
        };
        let bin = |s: &str| -> Option<BinOp> {
            Some(match s {
                "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
                "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, "frem" => BinOp::FRem,
                _ => return None,
            })
        };
        if let Some(b) = bin(&op) {
            p.skip_flags();
            let t = p.ty()?;
            let a = self.opd(&mut p, &t, fx)?;
            p.exp(',')?;
            let c = self.opd(&mut p, &t, fx)?;
            let w = match &t { Ty::Vec(_, e) => e.width(), t => t.width() };
            return Ok(Some(Inst::Bin { op: b, w, d, a, b: c }));
        }
        Ok(Some(match op.as_str() {
            "phi" => return Ok(None),
            "fence" => Inst::Nop,
            "icmp" => {
                p.skip_flags();
                let pr = match p.word()?.as_str() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle,
                    x => return Err(format!("pred {}", x)),
                };
                let t = p.ty()?;
                let a = self.opd(&mut p, &t, fx)?;
                p.exp(',')?;
                let b = self.opd(&mut p, &t, fx)?;
                let w = match &t { Ty::Vec(_, e) => e.width(), t => t.width() };
                Inst::Icmp { p: pr, w, d, a, b }
            }
            "fcmp" => {
                p.skip_flags();
                let pr = p.word()?;
                let t = p.ty()?;
                let a = self.opd(&mut p, &t, fx)?;
                p.exp(',')?;
                let b = self.opd(&mut p, &t, fx)?;
                Inst::Fcmp { p: pr.into_boxed_str(), w: t.width(), d, a, b }
            }
            "fneg" => {
                p.skip_flags();
                let t = p.ty()?;
                let a = self.opd(&mut p, &t, fx)?;
                Inst::FNeg { w: t.width(), d, a }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc" | "fpext" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "ptrtoaddr" => {
                p.skip_flags();
                let t = p.ty()?;
                let a = self.opd(&mut p, &t, fx)?;
                if !p.eat_w("to") {
                    return Err("to".into());
                }
                let t2 = p.ty()?;
                let sc = |t: &Ty| match t { Ty::Vec(_, e) => e.width(), t => t.width() };
                let (f, to) = (sc(&t), sc(&t2));
                let tyf = self.tyi(&t);
                let tyt = self.tyi(&t2);
                let c = match op.as_str() {
                    "zext" => Cast::Zext, "sext" => Cast::Sext, "trunc" => Cast::Trunc,
                    "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi,
                    "bitcast" => Cast::Bit,
                    _ => if f < to { Cast::Zext } else { Cast::Trunc },
                };
                Inst::Cast { c, d, a, from: f, to, tyf, tyt }
            }
            "getelementptr" => {
                p.skip_flags();
                let bt = p.ty()?;
                p.exp(',')?;
                let pt = p.ty()?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let base = self.opd(&mut p, &pt, fx)?;
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = bt;
                let mut first = true;
                while p.is_p(',') {
                    if matches!(p.t.get(p.i + 1), Some(T::Meta)) {
                        break;
                    }
                    p.i += 1;
                    let it = p.ty()?;
                    let o = self.opd(&mut p, &it, fx)?;
                    let scale;
                    if first {
                        scale = cur.size_align().0;
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                let k = match o { Opd::C(k) => k, _ => return Err("gep struct idx".into()) };
                                let (fo, ft) = cur.field_off(k as usize);
                                off = off.wrapping_add(fo);
                                let ft = ft.clone();
                                cur = ft;
                                continue;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                scale = t.size_align().0;
                                cur = *t;
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    match o {
                        Opd::C(k) => off = off.wrapping_add(sext(k, it.width()).wrapping_mul(scale)),
                        o => idx.push((o, it.width(), scale)),
                    }
                }
                Inst::Gep { d, base, off, idx: idx.into_boxed_slice() }
            }
            "load" => {
                p.eat_w("atomic");
                p.skip_flags();
                let t = p.ty()?;
                p.exp(',')?;
                let (_, a) = self.tyopd(&mut p, fx)?;
                let ty = self.tyi(&t);
                Inst::Load { d, p: a, ty, bytes: if t.is_scalar() { (t.width() + 7) / 8 } else { 0 }, w: t.width() }
            }
            "store" => {
                p.eat_w("atomic");
                p.skip_flags();
                let (t, v) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let (_, a) = self.tyopd(&mut p, fx)?;
                let ty = self.tyi(&t);
                Inst::Store { v, p: a, ty, bytes: if t.is_scalar() { (t.width() + 7) / 8 } else { 0 }, w: t.width() }
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = p.ty()?;
                let mut n = 1;
                if p.is_p(',') && matches!(p.t.get(p.i + 1), Some(T::W(w)) if w.starts_with('i')) {
                    p.i += 1;
                    let it = p.ty()?;
                    match self.konst(&mut p, &it)? { Cv::I(k) => n = k, _ => return Err("alloca n".into()) }
                }
                let (s, a) = t.size_align();
                let mut al = a.max(16) as u32;
                // honour explicit alignment
                let mut j = p.i;
                while j + 1 < toks.len() {
                    if toks[j] == T::W("align".into()) {
                        if let T::W(n) = &toks[j + 1] {
                            al = al.max(n.parse().unwrap_or(16));
                        }
                    }
                    j += 1;
                }
                fx.frame = (fx.frame + al - 1) / al * al;
                let off = fx.frame;
                fx.frame += (s * n) as u32;
                Inst::Alloca { d, off }
            }
            "select" => {
                p.skip_flags();
                let (_, c) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let (t, a) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let (_, b) = self.tyopd(&mut p, fx)?;
                Inst::Select { d, c, a, b, w: t.width() }
            }
            "freeze" => {
                let (_, a) = self.tyopd(&mut p, fx)?;
                Inst::Mov { d, a }
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(&mut p, fx)?;
                let mut path = vec![];
                while p.is_p(',') && !matches!(p.t.get(p.i + 1), Some(T::Meta)) {
                    p.i += 1;
                    path.push(p.word()?.parse::<u32>().map_err(|e| e.to_string())?);
                }
                Inst::Extract { d, a, path: path.into_boxed_slice() }
            }
            "insertvalue" => {
                let (_, a) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let (_, v) = self.tyopd(&mut p, fx)?;
                let mut path = vec![];
                while p.is_p(',') && !matches!(p.t.get(p.i + 1), Some(T::Meta)) {
                    p.i += 1;
                    path.push(p.word()?.parse::<u32>().map_err(|e| e.to_string())?);
                }
                Inst::Insert { d, a, v, path: path.into_boxed_slice() }
            }
            "extractelement" => {
                let (_, a) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let (_, i) = self.tyopd(&mut p, fx)?;
                Inst::ExtractElt { d, a, i }
            }
            "insertelement" => {
                let (_, a) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let (_, v) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let (_, i) = self.tyopd(&mut p, fx)?;
                Inst::InsertElt { d, a, v, i }
            }
            "shufflevector" => {
                let (_, a) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let (_, b) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let t = p.ty()?;
                let m = self.konst(&mut p, &t)?;
                let mask = match m { Cv::Agg(v) => v.iter().map(|x| match x { Cv::I(x) => *x as u32, _ => 0 }).collect::<Vec<_>>(), _ => return Err("mask".into()) };
                Inst::Shuffle { d, a, b, mask: mask.into_boxed_slice() }
            }
            "br" => {
                if p.is_w("label") {
                    let l = label(&mut p)?;
                    Inst::Br(Box::new(self.edge(bn, &l, phis, bi)?))
                } else {
                    let (_, c) = self.tyopd(&mut p, fx)?;
                    p.exp(',')?;
                    let a = label(&mut p)?;
                    p.exp(',')?;
                    let b = label(&mut p)?;
                    Inst::CondBr { c, t: Box::new(self.edge(bn, &a, phis, bi)?), f: Box::new(self.edge(bn, &b, phis, bi)?) }
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let def = label(&mut p)?;
                p.exp('[')?;
                let mut edges = vec![self.edge(bn, &def, phis, bi)?];
                let mut names = vec![def];
                let mut cases = vec![];
                let mut map = FxHashMap::default();
                while !p.eat_p(']') {
                    let ct = p.ty()?;
                    let k = match self.konst(&mut p, &ct)? { Cv::I(k) => k, _ => return Err("case".into()) };
                    p.exp(',')?;
                    let l = label(&mut p)?;
                    let ei = match names.iter().position(|x| *x == l) {
                        Some(i) => i,
                        None => {
                            edges.push(self.edge(bn, &l, phis, bi)?);
                            names.push(l);
                            names.len() - 1
                        }
                    };
                    cases.push((k, ei as u32));
                    map.insert(k, ei as u32);
                }
                Inst::Switch { v, w: t.width(), cases: cases.into_boxed_slice(), edges: edges.into_boxed_slice(), map: Box::new(map) }
            }
            "ret" => {
                let t = p.ty()?;
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    p.attrs();
                    Inst::Ret(Some(self.opd(&mut p, &t, fx)?))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" | "landingpad" | "cleanup" => Inst::Unsupported("unwind".into()),
            "call" | "invoke" => {
                // skip calling convention, ret attrs
                loop {
                    match p.peek() {
                        Some(T::W(w)) if matches!(w.as_str(), "fastcc" | "ccc" | "coldcc" | "preserve_mostcc" | "cc10" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") => p.i += 1,
                        _ => {
                            let b = p.i;
                            p.attrs();
                            if p.i == b {
                                break;
                            }
                        }
                    }
                }
                let rt = p.ty()?;
                if p.is_p('(') {
                    // function type (varargs): skip
                    p.i += 1;
                    p.skip_paren();
                }
                let callee = match p.next().cloned() {
                    Some(T::G(n)) => {
                        if n.starts_with("llvm.") {
                            Callee::Intr(n.into_boxed_str())
                        } else {
                            match self.gaddr.get(&n) {
                                Some(a) if (a >> 32) >= FUNC_BASE => Callee::Fn(((a >> 32) - FUNC_BASE) as u32),
                                _ => return Err(format!("callee {}", n)),
                            }
                        }
                    }
                    Some(T::L(n)) => Callee::Ind(Opd::R(fx.reg(&n))),
                    Some(T::W(w)) if w == "asm" => {
                        while matches!(p.peek(), Some(T::W(_)) | Some(T::Q(_)) | Some(T::P(','))) {
                            p.i += 1;
                        }
                        Callee::Asm
                    }
                    x => return Err(format!("callee {:?}", x)),
                };
                p.exp('(')?;
                let mut args = vec![];
                if !p.eat_p(')') {
                    loop {
                        if p.eat_w("metadata") {
                            // metadata argument
                            let mut dep = 0;
                            while let Some(t) = p.peek() {
                                match t {
                                    T::P('(') | T::P('{') => dep += 1,
                                    T::P(')') | T::P('}') => {
                                        if dep == 0 { break; }
                                        dep -= 1
                                    }
                                    T::P(',') if dep == 0 => break,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                        } else {
                            let (_, o) = self.tyopd(&mut p, fx)?;
                            args.push(o);
                        }
                        if p.eat_p(')') {
                            break;
                        }
                        p.exp(',')?;
                    }
                }
                if let Callee::Intr(n) = &callee {
                    let n: &str = n;
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.x86.sse2.pause") {
                        return Ok(None);
                    }
                }
                let mut cont = None;
                if op == "invoke" {
                    while !p.is_w("to") {
                        if p.next().is_none() {
                            return Err("invoke".into());
                        }
                    }
                    p.i += 1;
                    let l = label(&mut p)?;
                    cont = Some(Box::new(self.edge(bn, &l, phis, bi)?));
                }
                Inst::Call { d: dst, callee, args: args.into_boxed_slice(), cont, rw: rt.width() }
            }
            "cmpxchg" => {
                p.eat_w("weak");
                p.skip_flags();
                let (_, a) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let (t, c) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let (_, n) = self.tyopd(&mut p, fx)?;
                Inst::CmpXchg { d, p: a, cmp: c, new: n, bytes: (t.width() + 7) / 8, w: t.width() }
            }
            "atomicrmw" => {
                p.skip_flags();
                let o = p.word()?;
                let (_, a) = self.tyopd(&mut p, fx)?;
                p.exp(',')?;
                let (t, v) = self.tyopd(&mut p, fx)?;
                Inst::AtomicRmw { d, op: o.into_boxed_str(), p: a, v, bytes: (t.width() + 7) / 8, w: t.width() }
            }
            _ => return Err(format!("op {}", op)),
        }))
    }
}
