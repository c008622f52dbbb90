//! Parser for the textual LLVM IR subset rustc produces (LLVM 18..23 syntax).
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => ((*n as u64 * w as u64 + 7) / 8).next_power_of_two(),
                _ => *n as u64 * t.size(),
            },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.size().min(16),
            Ty::Vec(..) => self.size().min(64),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of scalar"),
        }
    }
    /// bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(self, Ty::F32 | Ty::F64)
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..))
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Vec(n, _) => *n as usize,
            Ty::Arr(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Debug)]
pub enum Callee {
    Sym(u32),
    Opd(Opd),
}

#[derive(Debug)]
pub struct CallI {
    pub dst: u32,
    pub callee: Callee,
    pub args: Vec<Opd>,
    pub argtys: Vec<Ty>,
    pub ret: Ty,
    pub normal: Option<u32>,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: Ty, dst: u32, a: Opd, b: Opd },
    ICmp { p: Pred, ty: Ty, dst: u32, a: Opd, b: Opd },
    FCmp { p: String, ty: Ty, dst: u32, a: Opd, b: Opd },
    FNeg { ty: Ty, dst: u32, a: Opd },
    Cast { k: CastK, from: Ty, to: Ty, dst: u32, a: Opd },
    Select { cvec: bool, ty: Ty, dst: u32, c: Opd, a: Opd, b: Opd },
    Load { ty: Ty, dst: u32, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { dst: u32, size: u64, n: Opd },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(u64, Opd, u32)> },
    Call(Box<CallI>),
    Extract { dst: u32, a: Opd, path: Vec<u32> },
    Insert { dst: u32, a: Opd, v: Opd, path: Vec<u32>, ty: Ty },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    InsertElem { dst: u32, ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, ty: Ty, a: Opd, b: Opd, mask: Vec<i32> },
    Copy { dst: u32, a: Opd },
    Rmw { op: RmwOp, ty: Ty, dst: u32, p: Opd, v: Opd },
    CmpXchg { ty: Ty, dst: u32, p: Opd, cmp: Opd, new: Opd },
    Nop,
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { ty: Ty, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Resume,
    LandingPad,
}

pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
    pub name: String,
}

pub struct Code {
    pub name: String,
    pub sym: u32,
    pub nregs: usize,
    pub nparams: usize,
    pub blocks: Vec<Block>,
}

pub const NODST: u32 = u32::MAX;

#[derive(Debug)]
pub enum SymKind {
    Func { range: Option<(usize, usize)>, weak: bool },
    Global { is_const: bool, ext: bool },
    Alias(u32),
}

pub struct Sym {
    pub name: String,
    pub kind: SymKind,
    pub ty: Ty,
    pub init: (usize, usize),
    pub size: u64,
}

pub struct Module {
    pub text: String,
    pub syms: Vec<Sym>,
    pub by_name: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    pub code: RefCell<HashMap<u32, Rc<Code>>>,
    pub addr: Vec<u64>,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Module,
    regs: HashMap<String, u32>,
}

pub fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1] != b'\\' {
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            o.push(h(s[i + 1]) * 16 + h(s[i + 2]));
            i += 3;
        } else if s[i] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> T {
        let a = self.i.saturating_sub(80);
        let b = (self.i + 120).min(self.s.len());
        panic!("IR parse: {m} near: {}", String::from_utf8_lossy(&self.s[a..b]));
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    /// white space including line ends
    fn wsn(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn pk(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(c.as_bytes()) {
            self.i += c.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: &str) {
        if !self.eat(c) {
            self.err::<()>(&format!("expected {c}"));
        }
    }
    fn is_w(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
    }
    /// peek a bare word
    fn word(&mut self) -> String {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && Self::is_w(self.s[j]) {
            j += 1;
        }
        String::from_utf8_lossy(&self.s[self.i..j]).into_owned()
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.pk() == b'"' {
            self.i += 1;
            let st = self.i;
            while self.pk() != b'"' {
                self.i += 1;
            }
            let r = unescape(&self.s[st..self.i]);
            self.i += 1;
            String::from_utf8_lossy(&r).into_owned()
        } else {
            let w = self.word();
            self.i += w.len();
            w
        }
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.pk() {
                b'"' => {
                    self.i += 1;
                    while self.pk() != b'"' {
                        self.i += 1;
                    }
                }
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                0 => self.err("unbalanced"),
                _ => {}
            }
            self.i += 1;
        }
    }
    fn type_start(&mut self) -> bool {
        self.ws();
        match self.pk() {
            b'[' | b'<' | b'{' | b'%' => true,
            _ => {
                let w = self.word();
                w == "ptr"
                    || w == "void"
                    || w == "float"
                    || w == "double"
                    || w == "half"
                    || w == "fp128"
                    || w == "x86_fp80"
                    || w == "metadata"
                    || w == "token"
                    || w == "label"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            self.ws();
            match self.pk() {
                b'"' => {
                    self.i += 1;
                    while self.pk() != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    if self.pk() == b'=' {
                        self.i += 1;
                        self.need("\"");
                        while self.pk() != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                    }
                    continue;
                }
                b'#' => {
                    self.i += 1;
                    let w = self.word();
                    self.i += w.len();
                    continue;
                }
                _ => {}
            }
            if self.type_start() {
                return;
            }
            let w = self.word();
            if w.is_empty() || !w.as_bytes()[0].is_ascii_alphabetic() {
                return;
            }
            if matches!(
                w.as_str(),
                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "c" | "splat" | "asm" | "none"
            ) {
                return;
            }
            self.i += w.len();
            if self.pk() == b'(' {
                self.balanced();
            } else if w == "align" || w == "alignstack" {
                self.ws();
                if self.pk() == b'(' {
                    self.balanced();
                } else {
                    let n = self.word();
                    self.i += n.len();
                }
            }
        }
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        let t = match self.pk() {
            b'[' => {
                self.i += 1;
                let n: u64 = self.num();
                self.need("x");
                let t = self.ty();
                self.need("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.pk() == b'{' {
                    self.i += 1;
                    let f = self.tylist("}");
                    self.need(">");
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n: u64 = self.num();
                    self.need("x");
                    let t = self.ty();
                    self.need(">");
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            b'{' => {
                self.i += 1;
                let f = self.tylist("}");
                Ty::Struct(Rc::new(f), false)
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                self.i += w.len();
                match w.as_str() {
                    "ptr" => {
                        if self.eatw("addrspace") {
                            self.ws();
                            self.balanced();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "token" | "label" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| self.err("type"))),
                    _ => self.err("type"),
                }
            }
        };
        t
    }
    fn tylist(&mut self, end: &str) -> Vec<Ty> {
        let mut v = Vec::new();
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(",") {
                continue;
            }
            self.need(end);
            return v;
        }
    }
    fn num(&mut self) -> u64 {
        let w = self.word();
        self.i += w.len();
        w.parse().unwrap_or_else(|_| self.err("number"))
    }
    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            Ty::Arr(n, t) => Val::A(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Self::zero).collect())),
            _ => Val::C(0),
        }
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        self.ws();
        if self.pk() == b'%' {
            self.i += 1;
            let n = self.name();
            return Opd::R(self.reg(&n));
        }
        Opd::K(self.cst(ty))
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn tyopd(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        let o = self.opd(&t);
        (t, o)
    }
    fn tycst(&mut self) -> (Ty, Val) {
        let t = self.ty();
        let o = self.cst(&t);
        (t, o)
    }
    fn cint(v: &Val) -> u128 {
        match v {
            Val::C(x) => *x,
            _ => panic!("constant expression operand"),
        }
    }
    fn cst(&mut self, ty: &Ty) -> Val {
        self.ws();
        match self.pk() {
            b'+' | b'-' if ty.is_float() && self.s.get(self.i + 1).is_some_and(|c| matches!(c, b'q' | b'i' | b'n' | b's')) => {
                // +inf, -inf, +qnan, +nan(0x..), +snan(0x..)
                let neg = self.pk() == b'-';
                self.i += 1;
                let w = self.word();
                self.i += w.len();
                let mut payload = 0u64;
                if self.eat("(") {
                    let h = self.word();
                    self.i += h.len();
                    payload = u64::from_str_radix(h.trim_start_matches("0x"), 16).unwrap_or_else(|_| self.err("nan payload"));
                    self.need(")");
                }
                let (mant, ebits) = if *ty == Ty::F32 { (23, 8) } else { (52, 11) };
                let exp = ((1u64 << ebits) - 1) << mant;
                let frac = match w.as_str() {
                    "inf" => 0,
                    "qnan" => 1u64 << (mant - 1),
                    "nan" => payload | 1u64 << (mant - 1),
                    "snan" => payload,
                    _ => self.err("float constant"),
                };
                Val::C(((neg as u128) << (mant + ebits)) | (exp | frac) as u128)
            }
            b'@' => {
                self.i += 1;
                let n = self.name();
                let id = match self.m.by_name.get(&n) {
                    Some(&i) => i,
                    None => self.err(&format!("unknown symbol {n}")),
                };
                Val::C(self.m.sym_addr(id) as u128)
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let st = self.i;
                while self.pk() != b'"' {
                    self.i += 1;
                }
                let b = unescape(&self.s[st..self.i]);
                self.i += 1;
                Val::A(Rc::new(b.into_iter().map(|x| Val::C(x as u128)).collect()))
            }
            b'[' => {
                self.i += 1;
                self.cstlist("]")
            }
            b'{' => {
                self.i += 1;
                self.cstlist("}")
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.pk() == b'{' {
                    self.i += 1;
                    let v = self.cstlist("}");
                    self.need(">");
                    v
                } else {
                    self.cstlist(">")
                }
            }
            _ => {
                let w = self.word();
                self.i += w.len();
                match w.as_str() {
                    "true" => Val::C(1),
                    "false" | "null" => Val::C(0),
                    "none" | "zeroinitializer" | "undef" | "poison" => Self::zero(ty),
                    "splat" => {
                        self.need("(");
                        let (_, v) = self.tycst();
                        self.need(")");
                        Val::A(Rc::new((0..ty.count()).map(|_| v.clone()).collect()))
                    }
                    "getelementptr" => {
                        while !{
                            self.ws();
                            self.pk() == b'('
                        } {
                            let w = self.word();
                            self.i += w.len();
                            if w.is_empty() {
                                return self.err("constexpr gep");
                            }
                            if self.pk() == b'(' && w == "inrange" {
                                self.balanced();
                            }
                        }
                        self.need("(");
                        let t = self.ty();
                        self.need(",");
                        let (_, b) = self.tycst();
                        let mut addr = Self::cint(&b) as u64;
                        let mut cur = t;
                        let mut first = true;
                        while self.eat(",") {
                            let (it, iv) = self.tycst();
                            let k = crate::expr::sext(Self::cint(&iv), it.bits()) as i64;
                            if first {
                                addr = addr.wrapping_add((k as u64).wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                addr = addr.wrapping_add(match &cur {
                                    Ty::Struct(..) => cur.field_off(k as usize),
                                    _ => cur.elem(0).size().wrapping_mul(k as u64),
                                });
                                cur = cur.elem(k as usize);
                            }
                        }
                        self.need(")");
                        Val::C(addr as u128)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                        self.need("(");
                        let (from, v) = self.tycst();
                        if !self.eatw("to") {
                            return self.err("to");
                        }
                        let t = self.ty();
                        self.need(")");
                        match v {
                            // entry of a relative lookup table (only read by llvm.load.relative):
                            // difference of object numbers, and a small offset
                            Val::C(x) if w == "trunc" && from == Ty::Int(64) && t == Ty::Int(32) && x as u64 & 0xff_ffff < 256 => {
                                let d = x as u64 as i64;
                                Val::C((((d >> 24) << 8) | (d & 0xff)) as u128 & 0xffff_ffff)
                            }
                            Val::C(x) => Val::C(x & crate::expr::mask(t.bits())),
                            v => v,
                        }
                    }
                    "sub" | "add" | "xor" => {
                        while self.eatw("nuw") || self.eatw("nsw") {}
                        self.need("(");
                        let (t, a) = self.tycst();
                        self.need(",");
                        let (_, b) = self.tycst();
                        self.need(")");
                        let (a, b) = (Self::cint(&a), Self::cint(&b));
                        let r = match w.as_str() {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            _ => a ^ b,
                        };
                        Val::C(r & crate::expr::mask(t.bits()))
                    }
                    _ => {
                        // number; floats
                        if ty.is_float() {
                            let hexs = w.strip_prefix("0x").or_else(|| w.strip_prefix("f0x"));
                            let bits = if let Some(h) = hexs {
                                u64::from_str_radix(h, 16).unwrap_or_else(|_| self.err("float"))
                            } else {
                                // e.g. 1.000000e+00 : '+' is not a word char
                                let mut t = w.clone();
                                if self.pk() == b'+' {
                                    self.i += 1;
                                    let r = self.word();
                                    self.i += r.len();
                                    t.push('+');
                                    t.push_str(&r);
                                }
                                t.parse::<f64>().unwrap_or_else(|_| self.err("float")).to_bits()
                            };
                            if *ty == Ty::F32 {
                                Val::C((f64::from_bits(bits) as f32).to_bits() as u128)
                            } else {
                                Val::C(bits as u128)
                            }
                        } else {
                            let m = crate::expr::mask(ty.bits().max(1));
                            let v = if let Ok(x) = w.parse::<i128>() {
                                x as u128
                            } else if let Ok(x) = w.parse::<u128>() {
                                x
                            } else {
                                return self.err(&format!("constant {w:?}"));
                            };
                            Val::C(v & m)
                        }
                    }
                }
            }
        }
    }
    fn cstlist(&mut self, end: &str) -> Val {
        let mut v = Vec::new();
        if self.eat(end) {
            return Val::A(Rc::new(v));
        }
        loop {
            v.push(self.tycst().1);
            if self.eat(",") {
                continue;
            }
            self.need(end);
            return Val::A(Rc::new(v));
        }
    }
    fn line_end(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
}

impl Module {
    pub fn parse(text: String) -> Module {
        let mut m = Module {
            text,
            syms: Vec::new(),
            by_name: HashMap::new(),
            types: HashMap::new(),
            code: RefCell::new(HashMap::new()),
            addr: Vec::new(),
        };
        let text = std::mem::take(&mut m.text);
        let b = text.as_bytes();
        let mut aliases = Vec::new();
        let mut i = 0;
        while i < b.len() {
            let e = b[i..].iter().position(|&c| c == b'\n').map(|k| i + k).unwrap_or(b.len());
            let line = &b[i..e];
            if line.starts_with(b"%") {
                // named type
                let mut p = P { s: b, i: i + 1, m: &m, regs: HashMap::new() };
                let n = p.name();
                p.need("=");
                p.eatw("type");
                let t = if p.eatw("opaque") { Ty::Other } else { p.ty() };
                m.types.insert(n, t);
            } else if line.starts_with(b"@") {
                let (n, kind, ty, init, alias) = {
                    let mut p = P { s: b, i: i + 1, m: &m, regs: HashMap::new() };
                    let n = p.name();
                    p.need("=");
                    let mut ext = false;
                    let mut alias = false;
                    let is_const;
                    loop {
                        p.ws();
                        let w = p.word();
                        p.i += w.len();
                        if p.pk() == b'(' {
                            p.balanced();
                        }
                        match w.as_str() {
                            "external" | "extern_weak" => ext = true,
                            "global" => {
                                is_const = false;
                                break;
                            }
                            "constant" => {
                                is_const = true;
                                break;
                            }
                            "alias" => {
                                alias = true;
                                is_const = true;
                                break;
                            }
                            "" => p.err("global"),
                            _ => {}
                        }
                    }
                    let ty = p.ty();
                    if alias {
                        p.need(",");
                        p.ty();
                        p.need("@");
                        let t = p.name();
                        (n, SymKind::Alias(0), ty, (0, 0), Some(t))
                    } else {
                        p.ws();
                        (n, SymKind::Global { is_const, ext }, ty, (p.i, e), None)
                    }
                };
                let id = m.syms.len() as u32;
                if let Some(t) = alias {
                    aliases.push((id, t));
                }
                let size = ty.size();
                m.by_name.insert(n.clone(), id);
                m.syms.push(Sym { name: n, kind, ty, init, size });
            } else if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let weak = line[..at].windows(11).any(|w| w == b"extern_weak");
                let n = {
                    let mut p = P { s: b, i: i + at + 1, m: &m, regs: HashMap::new() };
                    p.name()
                };
                let id = m.syms.len() as u32;
                let range = if line.starts_with(b"define ") {
                    // find "\n}\n"
                    let mut k = e;
                    loop {
                        let nl = b[k + 1..].iter().position(|&c| c == b'\n').unwrap() + k + 1;
                        if b[k + 1] == b'}' {
                            k = nl;
                            break;
                        }
                        k = nl;
                    }
                    Some((i, k))
                } else {
                    None
                };
                if let Some((_, k)) = range {
                    i = k;
                } else {
                    i = e;
                }
                m.by_name.insert(n.clone(), id);
                m.syms.push(Sym { name: n, kind: SymKind::Func { range, weak }, ty: Ty::Void, init: (0, 0), size: 0 });
                i += 1;
                continue;
            }
            i = e + 1;
        }
        for (id, t) in aliases {
            let tid = m.by_name[&t];
            m.syms[id as usize].kind = SymKind::Alias(tid);
        }
        m.text = text;
        m
    }
    pub fn sym_addr(&self, id: u32) -> u64 {
        if let SymKind::Alias(t) = self.syms[id as usize].kind {
            return self.sym_addr(t);
        }
        if let SymKind::Func { weak: true, range: None } = self.syms[id as usize].kind {
            return 0;
        }
        self.addr[id as usize]
    }
    pub fn init_val(&self, id: u32) -> Val {
        let s = &self.syms[id as usize];
        let mut p = P { s: &self.text.as_bytes()[..s.init.1], i: s.init.0, m: self, regs: HashMap::new() };
        let ty = s.ty.clone();
        p.cst(&ty)
    }
    pub fn code(&self, id: u32) -> Option<Rc<Code>> {
        if let Some(c) = self.code.borrow().get(&id) {
            return Some(c.clone());
        }
        let range = match self.syms[id as usize].kind {
            SymKind::Func { range: Some(r), .. } => r,
            SymKind::Alias(t) => return self.code(t),
            _ => return None,
        };
        let c = Rc::new(self.parse_func(id, range));
        self.code.borrow_mut().insert(id, c.clone());
        Some(c)
    }
    fn parse_func(&self, id: u32, range: (usize, usize)) -> Code {
        let body = &self.text.as_bytes()[range.0..range.1];
        let mut p = P { s: body, i: 0, m: self, regs: HashMap::new() };
        // header: find '@', name, '('
        let at = body.iter().position(|&c| c == b'@').unwrap();
        p.i = at + 1;
        p.name();
        p.need("(");
        let mut nparams = 0;
        if !p.eat(")") {
            loop {
                p.ws();
                if p.eat("...") {
                    p.need(")");
                    break;
                }
                p.skip_attrs();
                p.ty();
                p.skip_attrs2();
                p.ws();
                if p.pk() == b'%' {
                    p.i += 1;
                    let n = p.name();
                    p.reg(&n);
                } else {
                    let n = format!("{nparams}");
                    p.reg(&n);
                }
                nparams += 1;
                if p.eat(",") {
                    continue;
                }
                p.need(")");
                break;
            }
        }
        // body starts after the first line
        let nl = body.iter().position(|&c| c == b'\n').unwrap();
        p.i = nl + 1;
        // first pass: labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nb = 0u32;
        {
            let mut first = true;
            for line in body[nl + 1..].split(|&c| c == b'\n') {
                if line.is_empty() || line[0] == b'}' || line[0] == b';' {
                    continue;
                }
                if line[0] != b' ' && line[0] != b']' {
                    // label
                    let end = if line[0] == b'"' {
                        line[1..].iter().position(|&c| c == b'"').unwrap() + 2
                    } else {
                        line.iter().position(|&c| c == b':').unwrap()
                    };
                    let raw = &line[..end];
                    let n = if raw[0] == b'"' { unescape(&raw[1..raw.len() - 1]) } else { raw.to_vec() };
                    labels.insert(String::from_utf8_lossy(&n).into_owned(), nb);
                    nb += 1;
                } else if first {
                    nb += 1; // unlabeled entry
                }
                first = false;
            }
        }
        let mut blocks: Vec<Block> = Vec::new();
        let lab = |p: &mut P, labels: &HashMap<String, u32>| -> u32 {
            p.ws();
            if !p.eatw("label") { /* phi form */ }
            p.ws();
            p.need("%");
            let n = p.name();
            labels.get(&n).copied().unwrap_or(0)
        };
        loop {
            // line start
            while p.i < body.len() && body[p.i] == b'\n' {
                p.i += 1;
            }
            if p.i >= body.len() || body[p.i] == b'}' {
                break;
            }
            if body[p.i] == b';' {
                p.line_end();
                continue;
            }
            if body[p.i] != b' ' {
                let n = if body[p.i] == b'"' { p.name() } else {
                    let st = p.i;
                    while p.pk() != b':' {
                        p.i += 1;
                    }
                    String::from_utf8_lossy(&body[st..p.i]).into_owned()
                };
                blocks.push(Block { phis: vec![], insts: vec![], name: n });
                p.line_end();
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Block { phis: vec![], insts: vec![], name: "entry".into() });
            }
            p.ws();
            let mut dst = NODST;
            if p.pk() == b'%' {
                p.i += 1;
                let n = p.name();
                dst = p.reg(&n);
                p.need("=");
            } else if p.pk() == b'#' {
                p.line_end();
                continue;
            }
            let w = p.word();
            p.i += w.len();
            let mut line_done = false;
            let inst = match w.as_str() {
                "phi" => {
                    while p.eatw("nnan") || p.eatw("ninf") || p.eatw("nsz") {}
                    let t = p.ty();
                    let mut v = Vec::new();
                    loop {
                        p.need("[");
                        let o = p.opd(&t);
                        p.need(",");
                        let l = lab(&mut p, &labels);
                        p.need("]");
                        v.push((l, o));
                        if !p.eat(", [") {
                            break;
                        }
                        p.i -= 1;
                    }
                    blocks.last_mut().unwrap().phis.push((dst, t, v));
                    p.line_end();
                    continue;
                }
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    let op = match w.as_str() {
                        "add" => BinOp::Add,
                        "sub" => BinOp::Sub,
                        "mul" => BinOp::Mul,
                        "udiv" => BinOp::UDiv,
                        "sdiv" => BinOp::SDiv,
                        "urem" => BinOp::URem,
                        "srem" => BinOp::SRem,
                        "and" => BinOp::And,
                        "or" => BinOp::Or,
                        "xor" => BinOp::Xor,
                        "shl" => BinOp::Shl,
                        "lshr" => BinOp::LShr,
                        "ashr" => BinOp::AShr,
                        "fadd" => BinOp::FAdd,
                        "fsub" => BinOp::FSub,
                        "fmul" => BinOp::FMul,
                        "fdiv" => BinOp::FDiv,
                        _ => BinOp::FRem,
                    };
                    p.skip_attrs();
                    let (ty, a) = p.tyopd();
                    p.need(",");
                    let b = p.opd(&ty);
                    Inst::Bin { op, ty, dst, a, b }
                }
                "fneg" => {
                    p.skip_attrs();
                    let (ty, a) = p.tyopd();
                    Inst::FNeg { ty, dst, a }
                }
                "icmp" => {
                    p.eatw("samesign");
                    let pr = p.word();
                    p.i += pr.len();
                    let pr = match pr.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => p.err("icmp"),
                    };
                    let (ty, a) = p.tyopd();
                    p.need(",");
                    let b = p.opd(&ty);
                    Inst::ICmp { p: pr, ty, dst, a, b }
                }
                "fcmp" => {
                    let mut pr = p.word();
                    p.i += pr.len();
                    while matches!(pr.as_str(), "fast" | "nnan" | "ninf" | "nsz" | "contract") {
                        pr = p.word();
                        p.i += pr.len();
                    }
                    let (ty, a) = p.tyopd();
                    p.need(",");
                    let b = p.opd(&ty);
                    Inst::FCmp { p: pr, ty, dst, a, b }
                }
                "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                    p.skip_attrs();
                    let (from, a) = p.tyopd();
                    if !p.eatw("to") {
                        p.err::<()>("cast to");
                    }
                    let to = p.ty();
                    let k = match w.as_str() {
                        "trunc" => CastK::Trunc,
                        "zext" => CastK::ZExt,
                        "sext" => CastK::SExt,
                        "fptoui" => CastK::FpToUi,
                        "fptosi" => CastK::FpToSi,
                        "uitofp" => CastK::UiToFp,
                        "sitofp" => CastK::SiToFp,
                        "fpext" => CastK::FpExt,
                        "fptrunc" => CastK::FpTrunc,
                        "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                            if from.bits() > to.bits() {
                                CastK::Trunc
                            } else {
                                CastK::ZExt
                            }
                        }
                        _ => CastK::Bitcast,
                    };
                    Inst::Cast { k, from, to, dst, a }
                }
                "select" => {
                    p.skip_attrs();
                    let (ct, c) = p.tyopd();
                    p.need(",");
                    let (ty, a) = p.tyopd();
                    p.need(",");
                    let (_, b) = p.tyopd();
                    Inst::Select { cvec: ct.is_agg(), ty, dst, c, a, b }
                }
                "load" => {
                    p.skip_attrs();
                    let ty = p.ty();
                    p.need(",");
                    let (_, q) = p.tyopd();
                    Inst::Load { ty, dst, p: q }
                }
                "store" => {
                    p.skip_attrs();
                    let (ty, v) = p.tyopd();
                    p.need(",");
                    let (_, q) = p.tyopd();
                    Inst::Store { ty, v, p: q }
                }
                "alloca" => {
                    let ty = p.ty();
                    let mut n = Opd::K(Val::C(1));
                    if p.eat(",") {
                        p.ws();
                        if p.type_start() {
                            n = p.tyopd().1;
                        }
                    }
                    Inst::Alloca { dst, size: ty.size(), n }
                }
                "getelementptr" => {
                    loop {
                        p.ws();
                        let w = p.word();
                        if matches!(w.as_str(), "inbounds" | "nuw" | "nusw" | "nsw") {
                            p.i += w.len();
                        } else {
                            break;
                        }
                    }
                    let t = p.ty();
                    p.need(",");
                    let (_, base) = p.tyopd();
                    let mut off = 0i64;
                    let mut idx = Vec::new();
                    let mut cur = t;
                    let mut first = true;
                    while {
                        p.ws();
                        p.pk() == b','
                    } {
                        p.i += 1;
                        p.ws();
                        if p.pk() == b'!' {
                            break;
                        }
                        let (it, io) = p.tyopd();
                        let (sz, next) = if first {
                            (cur.size(), None)
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    let k = match &io {
                                        Opd::K(Val::C(k)) => *k as usize,
                                        _ => p.err("struct gep"),
                                    };
                                    off += cur.field_off(k) as i64;
                                    cur = cur.elem(k);
                                    continue;
                                }
                                _ => {
                                    let e = cur.elem(0);
                                    (e.size(), Some(e))
                                }
                            }
                        };
                        match &io {
                            Opd::K(Val::C(k)) => {
                                off = off.wrapping_add((crate::expr::sext(*k, it.bits()) as i64).wrapping_mul(sz as i64))
                            }
                            _ => idx.push((sz, io, it.bits())),
                        }
                        if let Some(n) = next {
                            cur = n;
                        }
                        first = false;
                    }
                    Inst::Gep { dst, base, off, idx }
                }
                "call" | "tail" | "musttail" | "notail" | "invoke" => {
                    if w != "call" && w != "invoke" {
                        p.eatw("call");
                    }
                    let invoke = w == "invoke";
                    p.skip_attrs(); // cc, ret attrs
                    let mut ret = p.ty();
                    p.ws();
                    if p.pk() == b'(' {
                        // function type
                        p.balanced();
                    }
                    if matches!(ret, Ty::Other) {
                        ret = Ty::Void;
                    }
                    p.ws();
                    let callee = if p.pk() == b'@' {
                        p.i += 1;
                        let n = p.name();
                        match self.by_name.get(&n) {
                            Some(&s) => Callee::Sym(s),
                            None => p.err(&format!("callee {n}")),
                        }
                    } else if p.word() == "asm" {
                        // inline asm: treated as an unsupported call at run time, except empty barriers
                        while p.pk() != b'(' {
                            if p.pk() == b'"' {
                                p.i += 1;
                                while p.pk() != b'"' {
                                    p.i += 1;
                                }
                            }
                            p.i += 1;
                        }
                        Callee::Sym(u32::MAX)
                    } else {
                        Callee::Opd(p.opd(&Ty::Ptr))
                    };
                    p.need("(");
                    let mut args = Vec::new();
                    let mut argtys = Vec::new();
                    if !p.eat(")") {
                        loop {
                            p.skip_attrs();
                            if p.word() == "metadata" {
                                // skip metadata operand
                                let mut d = 0;
                                loop {
                                    let c = p.pk();
                                    if c == b'(' {
                                        d += 1
                                    }
                                    if c == b')' {
                                        if d == 0 {
                                            break;
                                        }
                                        d -= 1
                                    }
                                    if c == b',' && d == 0 {
                                        break;
                                    }
                                    p.i += 1;
                                }
                                args.push(Opd::K(Val::C(0)));
                                argtys.push(Ty::Other);
                            } else {
                                let t = p.ty();
                                p.skip_attrs2();
                                let o = p.opd(&t);
                                args.push(o);
                                argtys.push(t);
                            }
                            if p.eat(",") {
                                continue;
                            }
                            p.need(")");
                            break;
                        }
                    }
                    let mut normal = None;
                    if invoke {
                        // skip fn attrs / bundles up to "to label"
                        loop {
                            p.wsn();
                            if p.eatw("to") {
                                break;
                            }
                            if p.pk() == b'[' {
                                while p.pk() != b']' {
                                    p.i += 1;
                                }
                            }
                            p.i += 1;
                            if p.i >= body.len() {
                                p.err::<()>("invoke");
                            }
                        }
                        normal = Some(lab(&mut p, &labels));
                        p.ws();
                        p.eatw("unwind");
                        lab(&mut p, &labels);
                        p.line_end();
                        line_done = true;
                    }
                    Inst::Call(Box::new(CallI { dst, callee, args, argtys, ret, normal }))
                }
                "extractvalue" => {
                    let (_, a) = p.tyopd();
                    let mut path = Vec::new();
                    while p.eat(",") {
                        p.ws();
                        if p.pk() == b'!' {
                            break;
                        }
                        path.push(p.num() as u32);
                    }
                    Inst::Extract { dst, a, path }
                }
                "insertvalue" => {
                    let (ty, a) = p.tyopd();
                    p.need(",");
                    let (_, v) = p.tyopd();
                    let mut path = Vec::new();
                    while p.eat(",") {
                        p.ws();
                        if p.pk() == b'!' {
                            break;
                        }
                        path.push(p.num() as u32);
                    }
                    Inst::Insert { dst, a, v, path, ty }
                }
                "extractelement" => {
                    let (_, a) = p.tyopd();
                    p.need(",");
                    let (_, i) = p.tyopd();
                    Inst::ExtractElem { dst, a, i }
                }
                "insertelement" => {
                    let (ty, a) = p.tyopd();
                    p.need(",");
                    let (_, v) = p.tyopd();
                    p.need(",");
                    let (_, i) = p.tyopd();
                    Inst::InsertElem { dst, ty, a, v, i }
                }
                "shufflevector" => {
                    let (ty, a) = p.tyopd();
                    p.need(",");
                    let (_, b) = p.tyopd();
                    p.need(",");
                    let (mt, mv) = p.tycst();
                    let mask = match mv {
                        Val::A(v) => v.iter().map(|x| P::cint(x) as u32 as i32).collect(),
                        _ => vec![0; mt.count()],
                    };
                    Inst::Shuffle { dst, ty, a, b, mask }
                }
                "freeze" => {
                    let (_, a) = p.tyopd();
                    Inst::Copy { dst, a }
                }
                "atomicrmw" => {
                    p.eatw("volatile");
                    let o = p.word();
                    p.i += o.len();
                    let op = match o.as_str() {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        "umax" => RmwOp::UMax,
                        "umin" => RmwOp::UMin,
                        _ => p.err("rmw"),
                    };
                    let (_, q) = p.tyopd();
                    p.need(",");
                    let (ty, v) = p.tyopd();
                    Inst::Rmw { op, ty, dst, p: q, v }
                }
                "cmpxchg" => {
                    p.eatw("weak");
                    p.eatw("volatile");
                    let (_, q) = p.tyopd();
                    p.need(",");
                    let (ty, cmp) = p.tyopd();
                    p.need(",");
                    let (_, new) = p.tyopd();
                    Inst::CmpXchg { ty, dst, p: q, cmp, new }
                }
                "fence" => Inst::Nop,
                "br" => {
                    p.ws();
                    if p.word() == "label" {
                        Inst::Br(lab(&mut p, &labels))
                    } else {
                        let (_, c) = p.tyopd();
                        p.need(",");
                        let t = lab(&mut p, &labels);
                        p.need(",");
                        let f = lab(&mut p, &labels);
                        Inst::CondBr { c, t, f }
                    }
                }
                "switch" => {
                    let (ty, v) = p.tyopd();
                    p.need(",");
                    let def = lab(&mut p, &labels);
                    p.need("[");
                    let mut cases = Vec::new();
                    loop {
                        p.wsn();
                        if p.eat("]") {
                            break;
                        }
                        let (_, c) = p.tycst();
                        p.need(",");
                        let l = lab(&mut p, &labels);
                        cases.push((P::cint(&c), l));
                    }
                    Inst::Switch { ty, v, def, cases }
                }
                "ret" => {
                    let t = p.ty();
                    if t == Ty::Void {
                        Inst::Ret(None)
                    } else {
                        Inst::Ret(Some(p.opd(&t)))
                    }
                }
                "unreachable" => Inst::Unreachable,
                "resume" => Inst::Resume,
                "landingpad" => {
                    // clauses follow on indented lines
                    p.line_end();
                    loop {
                        let save = p.i;
                        p.wsn();
                        let w = p.word();
                        if w == "cleanup" || w == "catch" || w == "filter" {
                            p.line_end();
                        } else {
                            p.i = save;
                            break;
                        }
                    }
                    line_done = true;
                    Inst::LandingPad
                }
                _ => p.err(&format!("instruction {w}")),
            };
            blocks.last_mut().unwrap().insts.push(inst);
            if !line_done {
                p.line_end();
            }
        }
        let nregs = p.regs.len();
        Code { name: self.syms[id as usize].name.clone(), sym: id, nregs, nparams, blocks }
    }
}

impl<'a> P<'a> {
    /// attributes after a parameter type (before the operand)
    fn skip_attrs2(&mut self) {
        loop {
            self.ws();
            match self.pk() {
                b'%' | b'@' | b'<' | b'{' | b'[' | b',' | b')' => return,
                b'"' => {
                    self.i += 1;
                    while self.pk() != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    if self.pk() == b'=' {
                        self.i += 2;
                        while self.pk() != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                    }
                    continue;
                }
                _ => {}
            }
            let w = self.word();
            if w.is_empty() || !w.as_bytes()[0].is_ascii_alphabetic() {
                return;
            }
            if matches!(
                w.as_str(),
                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "c" | "trunc" | "sub" | "add" | "bitcast" | "none" | "xor" | "ptrtoaddr"
            ) || w.starts_with("f0x")
            {
                return;
            }
            self.i += w.len();
            if self.pk() == b'(' {
                self.balanced();
            } else if w == "align" {
                self.ws();
                let n = self.word();
                self.i += n.len();
            }
        }
    }
}
