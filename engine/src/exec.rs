//! Path-forking symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::time::Instant;

pub const SHIFT: u32 = 24;

#[derive(Clone)]
pub struct Obj {
    pub data: Box<[u8]>,
    pub sym: Option<Box<[E]>>,
    pub ro: bool,
}

impl Obj {
    fn new(n: usize) -> Obj {
        Obj { data: vec![0u8; n].into_boxed_slice(), sym: None, ro: false }
    }
}

#[derive(Clone)]
pub struct Frame {
    code: Rc<Code>,
    regs: Vec<Val>,
    bb: u32,
    ip: u32,
    ret_dst: u32,
    ret_normal: Option<u32>,
    allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    cur: Frame,
    stack: Vec<Rc<Frame>>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    pc: Vec<E>,
    model: Rc<[u8; 128]>,
    fixed: u128,
    known: Rc<HashMap<E, u128>>,
    nvars: usize,
    trace: Vec<u32>, // input events: 0x80000000|choice or var index
    pub notes: Vec<(u32, Val)>,
    reach: u64,
    steps: u64,
    depth: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Infeasible,
    Fail(u32),
    Panic(String),
    Abort(String),
    Hang,
    Oob(String),
    Recursion,
    Unsupported(String),
}

pub struct PathOut {
    pub end: End,
    pub inputs: Vec<(u8, u32)>, // (0 = byte, 1 = choice), value
    pub notes: Vec<(u32, u64)>,
    pub steps: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    NoShim,
    Panic,
    PanicNoLoc,
    Abort,
    RandKeys,
    DebugStr,
    MemCmp,
    Bcmp,
    Strlen,
    MemCpy,
    MemMove,
    MemSet,
    SxU8,
    SxChoose,
    SxAssume,
    SxFail,
    SxNote,
    SxReach,
    SxPick,
    Nop,
    Intr,
    Unsup,
}

pub struct Limits {
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_secs: f64,
    pub max_viol: usize,
    pub mem_mb: u64,
}

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    pub z: Z3,
    konst: Vec<Option<Rc<Obj>>>,
    nk: u64, // number of const ids (konst.len())
    fn_of_addr: HashMap<u64, u32>,
    bi: Vec<Bi>,
    work: VecDeque<State>,
    cache: HashMap<Box<[E]>, Option<Rc<Vec<(u8, u8)>>>>,
    pub cache_hits: u64,
    pub forks: u64,
    pub decisions: u64,
    pub lim: Limits,
    pub executed: HashMap<u32, u64>,
    pub total_steps: u64,
    pub reach: u64,
    pub max_depth: u32,
    pub max_path_steps: u64,
    pub unknown: bool,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub profile: bool,
    pub strict_dbg: bool,
    pub max_nvars: usize,
    debug_target: Option<u32>,
    base_mem: Vec<Option<Rc<Obj>>>,
}

enum Stop {
    End(End),
}

type R<T> = Result<T, Stop>;

fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::End(End::Unsupported(s.into())))
}

fn f64b(v: u128) -> f64 {
    f64::from_bits(v as u64)
}
fn f32b(v: u128) -> f32 {
    f32::from_bits(v as u32)
}

impl Exec {
    pub fn new(mut m: Module, lim: Limits, timeout_ms: u32) -> Exec {
        // Address assignment: constants and functions first, then mutable globals, then dynamic.
        let n = m.syms.len();
        m.addr = vec![0; n];
        let mut id = 1u64;
        let mut order_const = Vec::new();
        for (i, s) in m.syms.iter().enumerate() {
            match s.kind {
                SymKind::Func { .. } => {
                    m.addr[i] = id << SHIFT;
                    id += 1;
                }
                SymKind::Global { is_const: true, .. } => {
                    m.addr[i] = id << SHIFT;
                    order_const.push(i);
                    id += 1;
                }
                _ => {}
            }
        }
        let nk = id;
        let mut order_mut = Vec::new();
        for (i, s) in m.syms.iter().enumerate() {
            if let SymKind::Global { is_const: false, .. } = s.kind {
                m.addr[i] = id << SHIFT;
                order_mut.push(i);
                id += 1;
            }
        }
        let mut fn_of_addr = HashMap::new();
        for (i, s) in m.syms.iter().enumerate() {
            if let SymKind::Func { .. } = s.kind {
                fn_of_addr.insert(m.addr[i], i as u32);
            }
        }
        let bi = m.syms.iter().map(|s| Self::classify(s)).collect();
        let mut ex = Exec {
            m,
            ar: Arena::new(),
            z: Z3::new(timeout_ms),
            konst: vec![None; nk as usize],
            nk,
            fn_of_addr,
            bi,
            work: VecDeque::new(),
            cache: HashMap::new(),
            cache_hits: 0,
            forks: 0,
            decisions: 0,
            lim,
            executed: HashMap::new(),
            total_steps: 0,
            reach: 0,
            max_depth: 0,
            max_path_steps: 0,
            unknown: false,
            fork_sites: HashMap::new(),
            profile: std::env::var("SXE_PROFILE").is_ok(),
            strict_dbg: std::env::var("SXE_TRACE").is_ok(),
            max_nvars: 0,
            debug_target: None,
            base_mem: vec![],
        };
        for (i, s) in ex.m.syms.iter().enumerate() {
            let nm = &s.name;
            if nm.contains("4core3fmteNt") && nm.ends_with("7Display3fmt") {
                if let SymKind::Func { range: Some(_), .. } = s.kind {
                    ex.debug_target = Some(i as u32);
                }
            }
        }
        for i in order_const {
            let o = ex.init_obj(i as u32, true);
            let a = (ex.m.addr[i] >> SHIFT) as usize;
            ex.konst[a] = Some(Rc::new(o));
        }
        let mut mem = Vec::new();
        for i in order_mut {
            let o = ex.init_obj(i as u32, false);
            mem.push(Some(Rc::new(o)));
        }
        ex.base_mem = mem;
        ex
    }
    fn init_obj(&self, id: u32, ro: bool) -> Obj {
        let s = &self.m.syms[id as usize];
        let mut o = Obj::new(s.size as usize);
        o.ro = ro;
        if let SymKind::Global { ext: false, .. } = s.kind {
            let v = self.m.init_val(id);
            fn put(o: &mut [u8], ty: &Ty, v: &Val, off: u64) {
                match v {
                    Val::C(k) => {
                        let n = ty.size() as usize;
                        let b = k.to_le_bytes();
                        if n <= 16 {
                            o[off as usize..off as usize + n].copy_from_slice(&b[..n]);
                        }
                    }
                    Val::A(vs) => {
                        for (i, x) in vs.iter().enumerate() {
                            match (ty, x) {
                                (Ty::Arr(_, t), Val::C(k)) if **t == Ty::Int(8) => o[off as usize + i] = *k as u8,
                                _ => put(o, &ty.elem(i), x, off + ty.field_off(i)),
                            }
                        }
                    }
                    Val::S(_) => {}
                }
            }
            put(&mut o.data, &s.ty, &v, 0);
        }
        o
    }
    fn classify(s: &Sym) -> Bi {
        let (def, _) = match &s.kind {
            SymKind::Func { range, weak } => (range.is_some(), *weak),
            _ => return Bi::None,
        };
        let n = s.name.as_str();
        if n.ends_with("___rust_alloc") {
            return Bi::Alloc;
        }
        if n.ends_with("___rust_alloc_zeroed") {
            return Bi::AllocZ;
        }
        if n.ends_with("___rust_dealloc") {
            return Bi::Dealloc;
        }
        if n.ends_with("___rust_realloc") {
            return Bi::Realloc;
        }
        if n.contains("___rust_no_alloc_shim_is_unstable") {
            return Bi::NoShim;
        }
        if n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") {
            return Bi::Panic;
        }
        if n.contains("rust_begin_unwind") || n.ends_with("18handle_alloc_error") || n.contains("19panic_cannot_unwind") || n.contains("16rust_panic_without_hook") {
            return Bi::PanicNoLoc;
        }
        if n.contains("hashmap_random_keys") {
            return Bi::RandKeys;
        }
        if n.contains("4core3fmteNt") && n.ends_with("5Debug3fmt") {
            return Bi::DebugStr;
        }
        match n {
            "memcmp" => return Bi::MemCmp,
            "bcmp" => return Bi::Bcmp,
            "strlen" => return Bi::Strlen,
            "memcpy" => return Bi::MemCpy,
            "memmove" => return Bi::MemMove,
            "memset" => return Bi::MemSet,
            "sx_u8" => return Bi::SxU8,
            "sx_choose" => return Bi::SxChoose,
            "sx_assume" => return Bi::SxAssume,
            "sx_fail" => return Bi::SxFail,
            "sx_note" => return Bi::SxNote,
            "sx_reach" => return Bi::SxReach,
            "sx_pick" => return Bi::SxPick,
            "abort" | "llvm.trap" | "exit" | "_exit" => return Bi::Abort,
            _ => {}
        }
        if n.starts_with("llvm.") {
            if n.starts_with("llvm.memcpy") {
                return Bi::MemCpy;
            }
            if n.starts_with("llvm.memmove") {
                return Bi::MemMove;
            }
            if n.starts_with("llvm.memset") {
                return Bi::MemSet;
            }
            if n.starts_with("llvm.lifetime")
                || n.starts_with("llvm.assume")
                || n.starts_with("llvm.experimental.noalias")
                || n.starts_with("llvm.x86.sse2.pause")
                || n.starts_with("llvm.prefetch")
                || n.starts_with("llvm.dbg")
            {
                return Bi::Nop;
            }
            return Bi::Intr;
        }
        if def {
            Bi::None
        } else {
            Bi::Unsup
        }
    }

    // ---------- values ----------
    fn mkv(&mut self, st: &State, e: E) -> Val {
        if let Some(k) = self.ar.as_const(e) {
            return Val::C(k);
        }
        if self.ar.supp[e as usize] & !st.fixed == 0 {
            let k = self.ar.eval(e, &st.model[..]);
            return Val::C(k);
        }
        if !st.known.is_empty() {
            if let Some(&k) = st.known.get(&e) {
                return Val::C(k);
            }
        }
        Val::S(e)
    }
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(k) => self.ar.cst(w, *k),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    #[inline]
    fn get(st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.cur.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(st: &mut State, dst: u32, v: Val) {
        if dst != NODST {
            st.cur.regs[dst as usize] = v;
        }
    }

    // ---------- solver ----------
    /// Is pc ∧ cond satisfiable?  Returns a full model if so.
    fn query(&mut self, st: &State, cond: E) -> Option<Rc<[u8; 128]>> {
        if let Some(k) = self.ar.as_const(cond) {
            return if k == 1 { Some(st.model.clone()) } else { None };
        }
        let mut s = self.ar.supp[cond as usize];
        let mut slice: Vec<E> = Vec::new();
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, &c) in st.pc.iter().enumerate() {
                let cs = self.ar.supp[c as usize];
                if !used[i] && cs & s != 0 {
                    used[i] = true;
                    slice.push(c);
                    if cs & !s != 0 {
                        s |= cs;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        slice.sort_unstable();
        slice.dedup();
        slice.push(cond);
        let key: Box<[E]> = slice.clone().into_boxed_slice();
        let r = if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            r.clone()
        } else {
            let r = match self.z.check(&self.ar, &slice, s) {
                Res::Sat(m) => Some(Rc::new(m.into_iter().map(|(i, v)| (i as u8, v)).collect::<Vec<_>>())),
                Res::Unsat => None,
                Res::Unknown => {
                    self.unknown = true;
                    None
                }
            };
            self.cache.insert(key, r.clone());
            r
        };
        r.map(|m| {
            let mut md = *st.model;
            for &(i, v) in m.iter() {
                md[i as usize] = v;
            }
            // the solver's model must satisfy the query under the engine's own evaluation
            if !slice.iter().all(|&c| self.ar.eval(c, &md[..]) == 1) {
                eprintln!("solver model does not satisfy the query");
                std::process::exit(4);
            }
            Rc::new(md)
        })
    }
    fn add(&mut self, st: &mut State, cond: E) {
        if self.ar.as_const(cond).is_some() {
            return;
        }
        let n = self.ar.n(cond);
        if n.op == Op::And && n.w == 1 {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if st.pc.last() != Some(&cond) {
            st.pc.push(cond);
        }
        if n.op == Op::Eq {
            if let Some(k) = self.ar.as_const(n.b) {
                let a = self.ar.n(n.a);
                if a.op == Op::Var {
                    st.fixed |= 1u128 << a.k;
                } else {
                    Rc::make_mut(&mut st.known).insert(n.a, k);
                }
            }
        }
    }
    fn note_fork(&mut self, st: &State) {
        self.forks += 1;
        if self.profile {
            *self.fork_sites.entry((st.cur.code.sym, st.cur.bb)).or_insert(0) += 1;
        }
    }
    /// Pick a concrete value for `e`, forking the rest.
    fn concretize(&mut self, st: &mut State, v: &Val, _w: u32) -> R<u128> {
        let e = match v {
            Val::C(k) => return Ok(*k),
            Val::S(e) => *e,
            Val::A(_) => return unsup("aggregate address"),
        };
        if let Val::C(k) = self.mkv(st, e) {
            return Ok(k);
        }
        let w = self.ar.w(e);
        let k = self.ar.eval(e, &st.model[..]);
        let kc = self.ar.cst(w, k);
        let eq = self.ar.bin(Op::Eq, e, kc);
        let ne = self.ar.not(eq);
        self.decisions += 1;
        if let Some(m) = self.query(st, ne) {
            let mut o = st.clone();
            self.add(&mut o, ne);
            o.model = m;
            o.depth += 1;
            self.note_fork(st);
            self.work.push_back(o);
            self.add(st, eq);
            st.depth += 1;
        } else {
            Rc::make_mut(&mut st.known).insert(e, k);
        }
        Ok(k)
    }
    fn addr(&mut self, st: &mut State, o: &Opd) -> R<u64> {
        let v = Self::get(st, o);
        Ok(self.concretize(st, &v, 64)? as u64)
    }

    // ---------- memory ----------
    fn alloc(&mut self, st: &mut State, size: u64) -> R<u64> {
        if size >= 1 << SHIFT {
            return unsup(format!("allocation of {size} bytes"));
        }
        let o = Some(Rc::new(Obj::new(size as usize)));
        let id = if let Some(i) = st.free.pop() {
            st.mem[i as usize] = o;
            i as u64
        } else {
            st.mem.push(o);
            st.mem.len() as u64 - 1
        };
        Ok((id + self.nk) << SHIFT)
    }
    fn dealloc(&mut self, st: &mut State, a: u64) -> R<()> {
        let id = a >> SHIFT;
        if a & ((1 << SHIFT) - 1) != 0 || id < self.nk || id - self.nk >= st.mem.len() as u64 || st.mem[(id - self.nk) as usize].is_none() {
            return Err(Stop::End(End::Oob(format!("free of {a:#x} in {}", self.wher(st)))));
        }
        st.mem[(id - self.nk) as usize] = None;
        st.free.push((id - self.nk) as u32);
        Ok(())
    }
    fn wher(&self, st: &State) -> String {
        st.cur.code.name.clone()
    }
    #[inline]
    fn obj<'b>(konst: &'b [Option<Rc<Obj>>], nk: u64, st: &'b State, a: u64) -> Option<&'b Rc<Obj>> {
        let id = a >> SHIFT;
        if id < nk {
            konst[id as usize].as_ref()
        } else {
            st.mem.get((id - nk) as usize).and_then(|o| o.as_ref())
        }
    }
    fn oob<T>(&self, st: &State, what: &str, a: u64, n: u64) -> R<T> {
        Err(Stop::End(End::Oob(format!("{what} of {n} bytes at {:#x}+{} in {}", a >> SHIFT, a & ((1 << SHIFT) - 1), self.wher(st)))))
    }
    fn load_int(&mut self, st: &State, a: u64, n: u64) -> R<Val> {
        let off = (a & ((1 << SHIFT) - 1)) as usize;
        let o = match Self::obj(&self.konst, self.nk, st, a) {
            Some(o) if off as u64 + n <= o.data.len() as u64 => o,
            _ => return self.oob(st, "load", a, n),
        };
        let n = n as usize;
        if let Some(sy) = &o.sym {
            let s = &sy[off..off + n];
            if s.iter().any(|&x| x != 0) {
                let s: Vec<E> = s.to_vec();
                let d: Vec<u8> = o.data[off..off + n].to_vec();
                let mut r: Option<E> = None;
                for i in 0..n {
                    let b = if s[i] != 0 { s[i] } else { self.ar.cst(8, d[i] as u128) };
                    r = Some(match r {
                        None => b,
                        Some(lo) => self.ar.concat(b, lo),
                    });
                }
                return Ok(self.mkv(st, r.unwrap()));
            }
        }
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(&o.data[off..off + n]);
        Ok(Val::C(u128::from_le_bytes(b)))
    }
    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => {
                if *w > 128 {
                    return unsup("wide load");
                }
                let v = self.load_int(st, a, (*w as u64 + 7) / 8)?;
                Ok(match v {
                    Val::C(k) => Val::C(k & mask(*w)),
                    Val::S(e) => {
                        let x = self.ar.extract(e, 0, *w);
                        self.mkv(st, x)
                    }
                    v => v,
                })
            }
            Ty::Ptr | Ty::F32 | Ty::F64 => self.load_int(st, a, ty.size()),
            Ty::Vec(n, t) if matches!(**t, Ty::Int(w) if w % 8 != 0) => {
                let _ = n;
                unsup("bit vector load")
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let mut v = Vec::with_capacity(ty.count());
                for i in 0..ty.count() {
                    v.push(self.load(st, a + ty.field_off(i), &ty.elem(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => unsup("load type"),
        }
    }
    fn objm<'b>(&self, st: &'b mut State, a: u64, n: u64) -> Option<&'b mut Obj> {
        let id = a >> SHIFT;
        if id < self.nk {
            return None;
        }
        let o = st.mem.get_mut((id - self.nk) as usize)?.as_mut()?;
        if (a & ((1 << SHIFT) - 1)) + n > o.data.len() as u64 {
            return None;
        }
        Some(Rc::make_mut(o))
    }
    fn store_int(&mut self, st: &mut State, a: u64, n: u64, v: &Val) -> R<()> {
        let off = (a & ((1 << SHIFT) - 1)) as usize;
        let mut bytes: [E; 16] = [0; 16];
        let mut conc = [0u8; 16];
        match v {
            Val::C(k) => conc = k.to_le_bytes(),
            Val::S(e) => {
                let w = self.ar.w(*e);
                let e = if w as u64 != n * 8 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                for i in 0..n as usize {
                    let b = self.ar.extract(e, i as u32 * 8, 8);
                    match self.ar.as_const(b) {
                        Some(k) => conc[i] = k as u8,
                        None => bytes[i] = b,
                    }
                }
            }
            _ => return unsup("store aggregate"),
        }
        let anysym = bytes.iter().any(|&b| b != 0);
        let o = match self.objm(st, a, n) {
            Some(o) => o,
            None => return self.oob(st, "store", a, n),
        };
        let n = n as usize;
        o.data[off..off + n].copy_from_slice(&conc[..n]);
        if anysym && o.sym.is_none() {
            o.sym = Some(vec![0; o.data.len()].into_boxed_slice());
        }
        if let Some(s) = &mut o.sym {
            s[off..off + n].copy_from_slice(&bytes[..n]);
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_int(st, a, (*w as u64 + 7) / 8, v),
            Ty::Ptr | Ty::F32 | Ty::F64 => self.store_int(st, a, ty.size(), v),
            Ty::Vec(_, t) if matches!(**t, Ty::Int(w) if w % 8 != 0) => unsup("bit vector store"),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                if let Val::A(vs) = v {
                    for i in 0..ty.count() {
                        self.store(st, a + ty.field_off(i), &ty.elem(i), &vs[i])?;
                    }
                    Ok(())
                } else {
                    unsup("store aggregate")
                }
            }
            _ => unsup("store type"),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = (s & ((1 << SHIFT) - 1)) as usize;
        let (data, sym) = match Self::obj(&self.konst, self.nk, st, s) {
            Some(o) if so as u64 + n <= o.data.len() as u64 => {
                let r = so..so + n as usize;
                let sy = o.sym.as_ref().map(|x| &x[r.clone()]).filter(|x| x.iter().any(|&e| e != 0));
                (o.data[r.clone()].to_vec(), sy.map(|x| x.to_vec()))
            }
            _ => return self.oob(st, "memcpy read", s, n),
        };
        let off = (d & ((1 << SHIFT) - 1)) as usize;
        let o = match self.objm(st, d, n) {
            Some(o) => o,
            None => return self.oob(st, "memcpy write", d, n),
        };
        let r = off..off + n as usize;
        o.data[r.clone()].copy_from_slice(&data);
        if sym.is_some() && o.sym.is_none() {
            o.sym = Some(vec![0; o.data.len()].into_boxed_slice());
        }
        if let Some(s) = &mut o.sym {
            match sym {
                Some(x) => s[r].copy_from_slice(&x),
                None => s[r].iter_mut().for_each(|x| *x = 0),
            }
        }
        Ok(())
    }
    fn byte(&mut self, st: &State, a: u64) -> R<Val> {
        self.load_int(st, a, 1)
    }

    // ---------- scalar operations ----------
    fn bin(&mut self, st: &mut State, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        use BinOp::*;
        let o = match op {
            Add => Op::Add,
            Sub => Op::Sub,
            Mul => Op::Mul,
            UDiv => Op::UDiv,
            SDiv => Op::SDiv,
            URem => Op::URem,
            SRem => Op::SRem,
            And => Op::And,
            Or => Op::Or,
            Xor => Op::Xor,
            Shl => Op::Shl,
            LShr => Op::LShr,
            AShr => Op::AShr,
            _ => {
                let (x, y) = match (a, b) {
                    (Val::C(x), Val::C(y)) => (*x, *y),
                    _ => return unsup("symbolic floating point"),
                };
                let r = if w == 64 {
                    let (x, y) = (f64b(x), f64b(y));
                    (match op {
                        FAdd => x + y,
                        FSub => x - y,
                        FMul => x * y,
                        FDiv => x / y,
                        _ => x % y,
                    })
                    .to_bits() as u128
                } else {
                    let (x, y) = (f32b(x), f32b(y));
                    (match op {
                        FAdd => x + y,
                        FSub => x - y,
                        FMul => x * y,
                        FDiv => x / y,
                        _ => x % y,
                    })
                    .to_bits() as u128
                };
                return Ok(Val::C(r));
            }
        };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Ok(Val::C(fold_bin(o, w, *x, *y)));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(o, x, y);
        Ok(self.mkv(st, r))
    }
    fn icmp(&mut self, st: &State, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                _ => {
                    let (x, y) = (sext(x, w), sext(y, w));
                    match p {
                        Pred::Slt => x < y,
                        Pred::Sle => x <= y,
                        Pred::Sgt => x > y,
                        _ => x >= y,
                    }
                }
            };
            return Val::C(r as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.bin(Op::Eq, x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.mkv(st, r)
    }
    fn ite(&mut self, st: &State, c: E, a: &Val, b: &Val, ty: &Ty) -> R<Val> {
        if ty.is_agg() {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                let mut v = Vec::new();
                for i in 0..x.len() {
                    v.push(self.ite(st, c, &x[i], &y[i], &ty.elem(i))?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
            return unsup("select aggregate");
        }
        let w = ty.bits();
        if ty.is_float() {
            return unsup("symbolic float select");
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.ite(c, x, y);
        Ok(self.mkv(st, r))
    }
    fn cast(&mut self, st: &State, k: CastK, from: &Ty, to: &Ty, v: Val) -> R<Val> {
        if let (Ty::Vec(n, f), Ty::Vec(m, t)) = (from, to) {
            if n == m && k != CastK::Bitcast {
                if let Val::A(vs) = &v {
                    let mut o = Vec::new();
                    for x in vs.iter() {
                        o.push(self.cast(st, k, f, t, x.clone())?);
                    }
                    return Ok(Val::A(Rc::new(o)));
                }
            }
        }
        match k {
            CastK::Bitcast => {
                if !from.is_agg() && !to.is_agg() {
                    return Ok(v);
                }
                // via bits
                let fb = self.to_bits(st, from, &v)?;
                self.from_bits(st, to, fb)
            }
            CastK::Trunc => Ok(match v {
                Val::C(x) => Val::C(x & mask(to.bits())),
                Val::S(e) => {
                    let r = self.ar.extract(e, 0, to.bits());
                    self.mkv(st, r)
                }
                _ => return unsup("trunc"),
            }),
            CastK::ZExt => Ok(match v {
                Val::C(x) => Val::C(x),
                Val::S(e) => {
                    let r = self.ar.zext(e, to.bits());
                    self.mkv(st, r)
                }
                _ => return unsup("zext"),
            }),
            CastK::SExt => Ok(match v {
                Val::C(x) => Val::C(sext(x, from.bits()) as u128 & mask(to.bits())),
                Val::S(e) => {
                    let r = self.ar.sext(e, to.bits());
                    self.mkv(st, r)
                }
                _ => return unsup("sext"),
            }),
            _ => {
                let x = match v {
                    Val::C(x) => x,
                    _ => return unsup("symbolic float conversion"),
                };
                let tof = |f: f64| -> Val {
                    if *to == Ty::F32 {
                        Val::C((f as f32).to_bits() as u128)
                    } else {
                        Val::C(f.to_bits() as u128)
                    }
                };
                let fromf = || -> f64 {
                    if *from == Ty::F32 {
                        f32b(x) as f64
                    } else {
                        f64b(x)
                    }
                };
                Ok(match k {
                    CastK::UiToFp => {
                        if *to == Ty::F32 {
                            Val::C((x as f32).to_bits() as u128)
                        } else {
                            Val::C((x as f64).to_bits() as u128)
                        }
                    }
                    CastK::SiToFp => {
                        let s = sext(x, from.bits());
                        if *to == Ty::F32 {
                            Val::C((s as f32).to_bits() as u128)
                        } else {
                            Val::C((s as f64).to_bits() as u128)
                        }
                    }
                    CastK::FpExt | CastK::FpTrunc => tof(fromf()),
                    CastK::FpToUi => Val::C(fromf() as u128 & mask(to.bits())),
                    _ => Val::C(fromf() as i128 as u128 & mask(to.bits())),
                })
            }
        }
    }
    fn to_bits(&mut self, st: &State, ty: &Ty, v: &Val) -> R<E> {
        match (ty, v) {
            (Ty::Vec(_, t), Val::A(vs)) => {
                let mut r: Option<E> = None;
                for x in vs.iter() {
                    let b = self.to_bits(st, t, x)?;
                    r = Some(match r {
                        None => b,
                        Some(lo) => self.ar.concat(b, lo),
                    });
                }
                Ok(r.unwrap())
            }
            _ => Ok(self.e(v, ty.bits())),
        }
    }
    fn from_bits(&mut self, st: &State, ty: &Ty, e: E) -> R<Val> {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let mut v = Vec::new();
                for i in 0..*n {
                    let x = self.ar.extract(e, i * w, w);
                    v.push(self.mkv(st, x));
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Ok(self.mkv(st, e)),
        }
    }
    fn lanes1(&mut self, st: &mut State, ty: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &mut State, u32, &Val, &Val) -> R<Val>) -> R<Val> {
        match (ty, a, b) {
            (Ty::Vec(_, t), Val::A(x), Val::A(y)) => {
                let mut v = Vec::new();
                for i in 0..x.len() {
                    v.push(f(self, st, t.bits(), &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => f(self, st, ty.bits(), a, b),
        }
    }

    // ---------- control ----------
    fn jump(&mut self, st: &mut State, t: u32) -> R<()> {
        let from = st.cur.bb;
        let code = st.cur.code.clone();
        let b = &code.blocks[t as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, _, src) = &b.phis[0];
                let o = src.iter().find(|(l, _)| *l == from).map(|(_, o)| o);
                match o {
                    Some(o) => {
                        let v = Self::get(st, o);
                        Self::set(st, *d, v);
                    }
                    None => return unsup(format!("phi without predecessor in {}", code.name)),
                }
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (_, _, src) in b.phis.iter() {
                    match src.iter().find(|(l, _)| *l == from).map(|(_, o)| o) {
                        Some(o) => vals.push(Self::get(st, o)),
                        None => return unsup(format!("phi without predecessor in {}", code.name)),
                    }
                }
                for ((d, _, _), v) in b.phis.iter().zip(vals) {
                    Self::set(st, *d, v);
                }
            }
        }
        st.cur.bb = t;
        st.cur.ip = 0;
        Ok(())
    }
    /// Decide a symbolic condition; the other side (if feasible) is queued and must re-execute the
    /// current instruction under its constraint.
    fn decide(&mut self, st: &mut State, v: &Val) -> R<bool> {
        let e = match v {
            Val::C(k) => return Ok(*k != 0),
            Val::S(e) => *e,
            _ => return unsup("aggregate condition"),
        };
        if let Val::C(k) = self.mkv(st, e) {
            return Ok(k != 0);
        }
        let cur = self.ar.eval(e, &st.model[..]) != 0;
        let ne = self.ar.not(e);
        let (mine, other) = if cur { (e, ne) } else { (ne, e) };
        self.decisions += 1;
        match self.query(st, other) {
            Some(m) => {
                let mut o = st.clone();
                self.add(&mut o, other);
                Rc::make_mut(&mut o.known).insert(e, !cur as u128);
                o.model = m;
                o.depth += 1;
                self.note_fork(st);
                self.work.push_back(o);
                self.add(st, mine);
                Rc::make_mut(&mut st.known).insert(e, cur as u128);
                st.depth += 1;
            }
            None => {
                Rc::make_mut(&mut st.known).insert(e, cur as u128);
            }
        }
        Ok(cur)
    }
    fn ret(&mut self, st: &mut State, v: Val) -> R<bool> {
        let allocas = std::mem::take(&mut st.cur.allocas);
        for a in allocas {
            let id = ((a >> SHIFT) - self.nk) as u32;
            st.mem[id as usize] = None;
            st.free.push(id);
        }
        let rd = st.cur.ret_dst;
        let rn = st.cur.ret_normal;
        match st.stack.pop() {
            None => Ok(true),
            Some(f) => {
                st.cur = match Rc::try_unwrap(f) {
                    Ok(f) => f,
                    Err(f) => (*f).clone(),
                };
                Self::set(st, rd, v);
                match rn {
                    Some(b) => self.jump(st, b)?,
                    None => st.cur.ip += 1,
                }
                Ok(false)
            }
        }
    }
    fn panic_loc(&mut self, st: &State, args: &[Val]) -> String {
        // last pointer argument is &Location { file: &str, line: u32, col: u32 }
        if let Some(Val::C(a)) = args.last() {
            let a = *a as u64;
            let g = |s: &mut Self, off: u64, n: u64| -> Option<u64> {
                match s.load_int(st, a + off, n) {
                    Ok(Val::C(k)) => Some(k as u64),
                    _ => None,
                }
            };
            if let (Some(p), Some(l), Some(ln), Some(col)) = (g(self, 0, 8), g(self, 8, 8), g(self, 16, 4), g(self, 20, 4)) {
                let mut s = String::new();
                for i in 0..l.min(200) {
                    match self.load_int(st, p + i, 1) {
                        Ok(Val::C(k)) if k != 0 => s.push(k as u8 as char),
                        _ => break,
                    }
                }
                return format!("{s}:{ln}:{col}");
            }
        }
        "?".into()
    }
    pub fn start(&mut self, func: &str) -> Result<(), String> {
        let id = *self.m.by_name.get(func).ok_or(format!("no function {func}"))?;
        let code = self.m.code(id).ok_or(format!("no body for {func}"))?;
        *self.executed.entry(id).or_insert(0) += 1;
        let n = code.nregs;
        let st = State {
            cur: Frame { code, regs: vec![Val::C(0); n], bb: 0, ip: 0, ret_dst: NODST, ret_normal: None, allocas: vec![] },
            stack: vec![],
            mem: self.base_mem.clone(),
            free: vec![],
            pc: vec![],
            model: Rc::new([0u8; 128]),
            fixed: 0,
            known: Rc::new(HashMap::new()),
            nvars: 0,
            trace: vec![],
            notes: vec![],
            reach: 0,
            steps: 0,
            depth: 0,
        };
        self.work.push_back(st);
        Ok(())
    }
    fn finish(&mut self, st: State, end: End) -> PathOut {
        let m = &st.model;
        let inputs = st
            .trace
            .iter()
            .map(|&t| match t >> 30 {
                0 => (0u8, m[t as usize] as u32),
                2 => (1u8, t & 0x3fff_ffff),
                _ => (1u8, m[(t & 0x3fff_ffff) as usize] as u32),
            })
            .collect();
        let notes = st
            .notes
            .iter()
            .map(|(t, v)| {
                (*t, match v {
                    Val::C(k) => *k as u64,
                    Val::S(e) => self.ar.eval(*e, &m[..]) as u64,
                    _ => 0,
                })
            })
            .collect();
        self.reach |= if end == End::Ok { st.reach } else { 0 };
        self.total_steps += st.steps;
        self.max_depth = self.max_depth.max(st.depth);
        self.max_path_steps = self.max_path_steps.max(st.steps);
        self.max_nvars = self.max_nvars.max(st.nvars);
        PathOut { end, inputs, notes, steps: st.steps }
    }
    pub fn pending(&self) -> usize {
        self.work.len()
    }
    /// breadth-first until `target` states are pending, then keep the states of one shard
    pub fn shard(&mut self, i: usize, n: usize, target: usize, out: &mut dyn FnMut(&mut Exec, PathOut), t0: Instant) -> bool {
        while self.work.len() < target {
            let st = match self.work.pop_front() {
                Some(s) => s,
                None => return true,
            };
            if t0.elapsed().as_secs_f64() > self.lim.max_secs {
                self.work.push_back(st);
                return false;
            }
            let before = self.forks;
            let r = self.run(st, Some(before), t0);
            if let Some(p) = r {
                if i == 0 && p.end != End::Infeasible {
                    out(self, p);
                }
            }
        }
        let all: Vec<State> = self.work.drain(..).collect();
        for (k, s) in all.into_iter().enumerate() {
            // scattered, since neighbouring and regularly spaced states tend to be alike
            let h = (k as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 33;
            if h as usize % n == i {
                self.work.push_back(s);
            }
        }
        true
    }
    pub fn explore(&mut self, out: &mut dyn FnMut(&mut Exec, PathOut) -> bool, t0: Instant) -> bool {
        while let Some(st) = self.work.pop_back() {
            if t0.elapsed().as_secs_f64() > self.lim.max_secs {
                self.work.push_back(st);
                return false;
            }
            if let Some(p) = self.run(st, None, t0) {
                if p.end != End::Infeasible && !out(self, p) {
                    return false;
                }
            } else {
                return false;
            }
        }
        true
    }
    /// Run one state to its end.  With `until_fork`, stops (re-queueing) after a fork happened.
    fn run(&mut self, mut st: State, until_fork: Option<u64>, t0: Instant) -> Option<PathOut> {
        loop {
            if let Some(f) = until_fork {
                if self.forks != f {
                    self.work.push_back(st);
                    return None;
                }
            }
            st.steps += 1;
            if st.steps > self.lim.max_steps {
                return Some(self.finish(st, End::Hang));
            }
            if st.steps & 0xffff == 0 && t0.elapsed().as_secs_f64() > self.lim.max_secs {
                self.work.push_back(st);
                return None;
            }
            match self.step(&mut st) {
                Ok(false) => {}
                Ok(true) => return Some(self.finish(st, End::Ok)),
                Err(Stop::End(e)) => return Some(self.finish(st, e)),
            }
        }
    }
    fn step(&mut self, st: &mut State) -> R<bool> {
        let code: *const Code = &*st.cur.code;
        // SAFETY: the code is kept alive by self.m.code for the whole run
        let code: &Code = unsafe { &*code };
        let blk = &code.blocks[st.cur.bb as usize];
        let inst = match blk.insts.get(st.cur.ip as usize) {
            Some(i) => i,
            None => return unsup(format!("no terminator in {} {} ({:?})", code.name, blk.name, blk.insts.last())),
        };
        match inst {
            Inst::Bin { op, ty, dst, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let op = *op;
                let r = if ty.is_agg() {
                    self.lanes1(st, ty, &x, &y, &mut |s, st, w, p, q| s.bin(st, op, w, p, q))?
                } else {
                    if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                        if let Val::C(0) = y {
                            return Err(Stop::End(End::Abort("division by zero".into())));
                        }
                    }
                    self.bin(st, op, ty.bits(), &x, &y)?
                };
                Self::set(st, *dst, r);
            }
            Inst::ICmp { p, ty, dst, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let p = *p;
                let r = if ty.is_agg() {
                    self.lanes1(st, ty, &x, &y, &mut |s, st, w, c, d| Ok(s.icmp(st, p, w, c, d)))?
                } else {
                    self.icmp(st, p, ty.bits(), &x, &y)
                };
                Self::set(st, *dst, r);
            }
            Inst::FCmp { p, ty, dst, a, b } => {
                let (x, y) = match (Self::get(st, a), Self::get(st, b)) {
                    (Val::C(x), Val::C(y)) => (x, y),
                    _ => return unsup("symbolic fcmp"),
                };
                let (x, y) = if *ty == Ty::F32 { (f32b(x) as f64, f32b(y) as f64) } else { (f64b(x), f64b(y)) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "une" => x != y,
                    "one" => !un && x != y,
                    "ueq" => un || x == y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ord" => !un,
                    "uno" => un,
                    _ => return unsup("fcmp"),
                };
                Self::set(st, *dst, Val::C(r as u128));
            }
            Inst::FNeg { ty, dst, a } => {
                let x = match Self::get(st, a) {
                    Val::C(x) => x,
                    _ => return unsup("symbolic fneg"),
                };
                let r = x ^ (1u128 << (ty.bits() - 1));
                Self::set(st, *dst, Val::C(r));
            }
            Inst::Cast { k, from, to, dst, a } => {
                let v = Self::get(st, a);
                let r = match (&v, k) {
                    (Val::C(x), CastK::ZExt) => Val::C(*x),
                    _ => self.cast(st, *k, from, to, v)?,
                };
                Self::set(st, *dst, r);
            }
            Inst::Select { cvec, ty, dst, c, a, b } => {
                let cv = Self::get(st, c);
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = if *cvec {
                    match (&cv, &x, &y) {
                        (Val::A(cs), Val::A(xs), Val::A(ys)) => {
                            let et = ty.elem(0);
                            let mut v = Vec::new();
                            for i in 0..cs.len() {
                                v.push(match &cs[i] {
                                    Val::C(k) => if *k != 0 { xs[i].clone() } else { ys[i].clone() },
                                    Val::S(e) => self.ite(st, *e, &xs[i], &ys[i], &et)?,
                                    _ => return unsup("select"),
                                });
                            }
                            Val::A(Rc::new(v))
                        }
                        _ => return unsup("select"),
                    }
                } else {
                    match cv {
                        Val::C(k) => if k != 0 { x } else { y },
                        Val::S(e) => match self.mkv(st, e) {
                            Val::C(k) => if k != 0 { x } else { y },
                            _ => {
                                if ty.is_float() {
                                    if self.decide(st, &Val::S(e))? { x } else { y }
                                } else {
                                    self.ite(st, e, &x, &y, ty)?
                                }
                            }
                        },
                        _ => return unsup("select"),
                    }
                };
                Self::set(st, *dst, r);
            }
            Inst::Load { ty, dst, p } => {
                let pv = Self::get(st, p);
                let r = match pv {
                    Val::C(a) => self.load(st, a as u64, ty)?,
                    Val::S(e) => match self.table_load(st, e, ty)? {
                        Some(v) => v,
                        None => {
                            let a = self.concretize(st, &Val::S(e), 64)? as u64;
                            self.load(st, a, ty)?
                        }
                    },
                    _ => return unsup("load address"),
                };
                Self::set(st, *dst, r);
            }
            Inst::Store { ty, v, p } => {
                let a = self.addr(st, p)?;
                let v = Self::get(st, v);
                self.store(st, a, ty, &v)?;
            }
            Inst::Alloca { dst, size, n } => {
                let k = match Self::get(st, n) {
                    Val::C(k) => k as u64,
                    _ => return unsup("symbolic alloca"),
                };
                let a = self.alloc(st, size * k)?;
                st.cur.allocas.push(a);
                Self::set(st, *dst, Val::C(a as u128));
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = Self::get(st, base);
                let r = if let (Val::C(x), true) = (&b, idx.is_empty()) {
                    Val::C((*x as u64).wrapping_add(*off as u64) as u128)
                } else {
                    let mut acc = b;
                    if *off != 0 {
                        acc = self.bin(st, BinOp::Add, 64, &acc, &Val::C(*off as u64 as u128))?;
                    }
                    for (sz, o, w) in idx {
                        let i = Self::get(st, o);
                        let i = if *w < 64 { self.cast(st, CastK::SExt, &Ty::Int(*w), &Ty::Int(64), i)? } else { i };
                        let t = if *sz == 1 { i } else { self.bin(st, BinOp::Mul, 64, &i, &Val::C(*sz as u128))? };
                        acc = self.bin(st, BinOp::Add, 64, &acc, &t)?;
                    }
                    acc
                };
                Self::set(st, *dst, r);
            }
            Inst::Call(c) => return self.call(st, c),
            Inst::Extract { dst, a, path } => {
                let mut v = Self::get(st, a);
                for &i in path {
                    v = match v {
                        Val::A(x) => x[i as usize].clone(),
                        _ => return unsup("extractvalue"),
                    };
                }
                Self::set(st, *dst, v);
            }
            Inst::Insert { dst, a, v, path, .. } => {
                let mut agg = Self::get(st, a);
                let nv = Self::get(st, v);
                fn put(agg: &mut Val, path: &[u32], nv: Val) -> bool {
                    if path.is_empty() {
                        *agg = nv;
                        return true;
                    }
                    match agg {
                        Val::A(x) => put(&mut Rc::make_mut(x)[path[0] as usize], &path[1..], nv),
                        _ => false,
                    }
                }
                if !put(&mut agg, path, nv) {
                    return unsup("insertvalue");
                }
                Self::set(st, *dst, agg);
            }
            Inst::ExtractElem { dst, a, i } => {
                let iv = Self::get(st, i);
                let i = self.concretize(st, &iv, 64)? as usize;
                let v = match Self::get(st, a) {
                    Val::A(x) => x[i].clone(),
                    _ => return unsup("extractelement"),
                };
                Self::set(st, *dst, v);
            }
            Inst::InsertElem { dst, a, v, i, .. } => {
                let iv = Self::get(st, i);
                let i = self.concretize(st, &iv, 64)? as usize;
                let nv = Self::get(st, v);
                let r = match Self::get(st, a) {
                    Val::A(mut x) => {
                        Rc::make_mut(&mut x)[i] = nv;
                        Val::A(x)
                    }
                    _ => return unsup("insertelement"),
                };
                Self::set(st, *dst, r);
            }
            Inst::Shuffle { dst, a, b, mask, .. } => {
                let r = match (Self::get(st, a), Self::get(st, b)) {
                    (Val::A(x), Val::A(y)) => Val::A(Rc::new(
                        mask.iter()
                            .map(|&m| {
                                let m = m.max(0) as usize;
                                if m < x.len() { x[m].clone() } else { y[m - x.len()].clone() }
                            })
                            .collect(),
                    )),
                    _ => return unsup("shuffle"),
                };
                Self::set(st, *dst, r);
            }
            Inst::Copy { dst, a } => {
                let v = Self::get(st, a);
                Self::set(st, *dst, v);
            }
            Inst::Rmw { op, ty, dst, p, v } => {
                let a = self.addr(st, p)?;
                let old = self.load(st, a, ty)?;
                let nv = Self::get(st, v);
                let w = ty.bits();
                let new = match op {
                    RmwOp::Xchg => nv,
                    RmwOp::Add => self.bin(st, BinOp::Add, w, &old, &nv)?,
                    RmwOp::Sub => self.bin(st, BinOp::Sub, w, &old, &nv)?,
                    RmwOp::And => self.bin(st, BinOp::And, w, &old, &nv)?,
                    RmwOp::Or => self.bin(st, BinOp::Or, w, &old, &nv)?,
                    RmwOp::Xor => self.bin(st, BinOp::Xor, w, &old, &nv)?,
                    _ => return unsup("atomicrmw"),
                };
                self.store(st, a, ty, &new)?;
                Self::set(st, *dst, old);
            }
            Inst::CmpXchg { ty, dst, p, cmp, new } => {
                let a = self.addr(st, p)?;
                let old = self.load(st, a, ty)?;
                let c = Self::get(st, cmp);
                let eqv = self.icmp(st, Pred::Eq, ty.bits(), &old, &c);
                let eq = self.decide(st, &eqv)?;
                if eq {
                    let nv = Self::get(st, new);
                    self.store(st, a, ty, &nv)?;
                }
                Self::set(st, *dst, Val::A(Rc::new(vec![old, Val::C(eq as u128)])));
            }
            Inst::Nop => {}
            Inst::Br(t) => {
                self.jump(st, *t)?;
                return Ok(false);
            }
            Inst::CondBr { c, t, f } => {
                let v = Self::get(st, c);
                let b = self.decide(st, &v)?;
                self.jump(st, if b { *t } else { *f })?;
                return Ok(false);
            }
            Inst::Switch { ty, v, def, cases } => {
                let v = Self::get(st, v);
                let t = match v {
                    Val::C(k) => cases.iter().find(|(c, _)| *c == k).map(|(_, t)| *t).unwrap_or(*def),
                    Val::S(e) => {
                        // group by target
                        let w = ty.bits();
                        let k = self.ar.eval(e, &st.model[..]);
                        let tgt = cases.iter().find(|(c, _)| *c == k).map(|(_, t)| *t).unwrap_or(*def);
                        let mut cond: Option<E> = None;
                        let isdef = tgt == *def;
                        for (c, t) in cases.iter() {
                            if (*t == tgt) != isdef {
                                let kc = self.ar.cst(w, *c);
                                let q = self.ar.bin(Op::Eq, e, kc);
                                cond = Some(match cond {
                                    None => q,
                                    Some(p) => self.ar.bin(Op::Or, p, q),
                                });
                            }
                        }
                        let mut cond = cond.unwrap_or_else(|| self.ar.cst(1, 0));
                        if isdef {
                            cond = self.ar.not(cond);
                        }
                        // true under the model: fork the rest
                        self.decisions += 1;
                        let ne = self.ar.not(cond);
                        if let Some(m) = self.query(st, ne) {
                            let mut o = st.clone();
                            self.add(&mut o, ne);
                            o.model = m;
                            o.depth += 1;
                            self.note_fork(st);
                            self.work.push_back(o);
                            self.add(st, cond);
                            st.depth += 1;
                        }
                        tgt
                    }
                    _ => return unsup("switch"),
                };
                self.jump(st, t)?;
                return Ok(false);
            }
            Inst::Ret(o) => {
                let v = match o {
                    Some(o) => Self::get(st, o),
                    None => Val::C(0),
                };
                return self.ret(st, v);
            }
            Inst::Unreachable => return Err(Stop::End(End::Abort(format!("unreachable executed in {}", st.cur.code.name)))),
            Inst::Resume | Inst::LandingPad => return unsup("unwinding"),
        }
        st.cur.ip += 1;
        Ok(false)
    }
    /// Load through a symbolic address that stays inside one constant object: expressed as a table.
    fn table_load(&mut self, st: &mut State, e: E, ty: &Ty) -> R<Option<Val>> {
        if let Val::C(a) = self.mkv(st, e) {
            return Ok(Some(self.load(st, a as u64, ty)?));
        }
        if ty.is_agg() || ty.is_float() {
            return Ok(None);
        }
        let a0 = self.ar.eval(e, &st.model[..]) as u64;
        let base = a0 >> SHIFT << SHIFT;
        let n = ty.size();
        let (len, konst) = match Self::obj(&self.konst, self.nk, st, a0) {
            Some(o) => (o.data.len() as u64, o.ro || o.sym.is_none()),
            None => return Ok(None),
        };
        if !konst || len > 4096 || len < n {
            return Ok(None);
        }
        // find the stride: address = base + off; must stay within the object
        let lo = self.ar.cst(64, base as u128);
        let off = self.ar.bin(Op::Sub, e, lo);
        let hi = self.ar.cst(64, (len - n) as u128);
        let inb = self.ar.bin(Op::Ule, off, hi);
        let outb = self.ar.not(inb);
        if self.query(st, outb).is_some() {
            return Ok(None);
        }
        // runs over possible offsets
        let ub = self.ar.ubound(off).min((len - n) as u128) as u64;
        let align = n.max(1);
        // offsets must be multiples of the element size
        let phase = (a0 - base) % align;
        if n > 1 {
            let am = self.ar.cst(64, (align - 1) as u128);
            let low = self.ar.bin(Op::And, off, am);
            let ph = self.ar.cst(64, phase as u128);
            let ok = self.ar.bin(Op::Eq, low, ph);
            let bad = self.ar.not(ok);
            if self.query(st, bad).is_some() {
                return Ok(None);
            }
        }
        // stride: the largest power of two the offset provably keeps its phase modulo
        let mut stride = align;
        let k1 = {
            let ph = self.ar.cst(64, ((a0 - base) % 64) as u128);
            let d = self.ar.bin(Op::Sub, off, ph);
            self.ar.tz(d)
        };
        let mut phase = phase;
        for k in (1..=6).rev() {
            if k1 >= k && (1u64 << k) > stride {
                stride = 1 << k;
                phase = (a0 - base) % stride;
                break;
            }
        }
        let mut vals: Vec<u128> = Vec::new();
        let mut o = phase;
        while o <= ub {
            match self.load(st, base + o, ty)? {
                Val::C(k) => vals.push(k),
                _ => return Ok(None),
            };
            o += stride;
        }
        if vals.is_empty() {
            return Ok(None);
        }
        let w = ty.bits();
        let pc = self.ar.cst(64, phase as u128);
        let mut idx = self.ar.bin(Op::Sub, off, pc);
        if stride > 1 {
            let sh = self.ar.cst(64, stride.trailing_zeros() as u128);
            idx = self.ar.bin(Op::LShr, idx, sh);
        }
        // periodic tables (decimal digit pairs) are indexed modulo their period
        let per = (1..=vals.len() / 2).find(|&p| (p..vals.len()).all(|i| vals[i] == vals[i - p]));
        if let Some(p) = per {
            if p > 1 {
                let pk = self.ar.cst(64, p as u128);
                idx = self.ar.bin(Op::URem, idx, pk);
            }
            vals.truncate(p);
        }
        // linear tables
        if vals.len() > 3 && (1..vals.len()).all(|i| vals[i] == vals[i - 1] + 1) {
            let b = self.ar.cst(w, vals[0]);
            let x = if w < 64 { self.ar.extract(idx, 0, w) } else { self.ar.zext(idx, w) };
            let r = self.ar.bin(Op::Add, x, b);
            return Ok(Some(self.mkv(st, r)));
        }
        let mut runs: Vec<(u64, u128)> = Vec::new(); // (last index, value)
        for (i, &v) in vals.iter().enumerate() {
            match runs.last_mut() {
                Some(r) if r.1 == v => r.0 = i as u64,
                _ => runs.push((i as u64, v)),
            }
        }
        if runs.len() > 128 {
            return Ok(None);
        }
        let last = runs.pop().unwrap();
        let mut acc = self.ar.cst(w, last.1);
        for (o, v) in runs.into_iter().rev() {
            let k = self.ar.cst(64, o as u128);
            let c = self.ar.bin(Op::Ule, idx, k);
            let x = self.ar.cst(w, v);
            acc = self.ar.ite(c, x, acc);
        }
        Ok(Some(self.mkv(st, acc)))
    }
    fn cmp_bytes(&mut self, st: &mut State, a: u64, b: u64, n: u64, order: bool) -> R<Val> {
        // build from the end
        let mut pre = Vec::new();
        for i in 0..n {
            let x = self.byte(st, a + i)?;
            let y = self.byte(st, b + i)?;
            if let (Val::C(p), Val::C(q)) = (&x, &y) {
                if p == q {
                    continue;
                }
                pre.push((x, y));
                break;
            }
            pre.push((x, y));
        }
        if !order {
            let mut all = self.ar.cst(1, 1);
            for (x, y) in pre {
                let (p, q) = (self.e(&x, 8), self.e(&y, 8));
                let eq = self.ar.bin(Op::Eq, p, q);
                all = self.ar.bin(Op::And, all, eq);
            }
            let (z, o) = (self.ar.cst(32, 0), self.ar.cst(32, 1));
            let r = self.ar.ite(all, z, o);
            return Ok(self.mkv(st, r));
        }
        let mut acc = self.ar.cst(32, 0);
        for (x, y) in pre.into_iter().rev() {
            let (p, q) = (self.e(&x, 8), self.e(&y, 8));
            let eq = self.ar.bin(Op::Eq, p, q);
            let lt = self.ar.bin(Op::Ult, p, q);
            let (m1, p1) = (self.ar.cst(32, 0xffff_ffff), self.ar.cst(32, 1));
            let d = self.ar.ite(lt, m1, p1);
            acc = self.ar.ite(eq, acc, d);
        }
        Ok(self.mkv(st, acc))
    }
    fn done(st: &mut State, c: &CallI, v: Val) {
        Self::set(st, c.dst, v);
        st.cur.ip += 1;
    }
    fn call(&mut self, st: &mut State, c: &CallI) -> R<bool> {
        let sym = match &c.callee {
            Callee::Sym(s) => *s,
            Callee::Opd(o) => {
                let v = Self::get(st, o);
                let a = self.concretize(st, &v, 64)? as u64;
                match self.fn_of_addr.get(&a) {
                    Some(s) => *s,
                    None => return Err(Stop::End(End::Oob(format!("call of {a:#x} in {}", self.wher(st))))),
                }
            }
        };
        if sym == u32::MAX {
            // inline asm (black_box style barriers have no effect)
            if c.ret == Ty::Void {
                st.cur.ip += 1;
                return Ok(false);
            }
            return unsup("inline asm");
        }
        let mut sym = sym;
        while let SymKind::Alias(t) = self.m.syms[sym as usize].kind {
            sym = t;
        }
        let mut bi = self.bi[sym as usize];
        if bi == Bi::DebugStr {
            if let Some(t) = self.debug_target {
                sym = t;
            }
            bi = Bi::None;
        }
        if bi == Bi::None {
            let code = match self.m.code(sym) {
                Some(c) => c,
                None => return unsup(format!("no body: {}", self.m.syms[sym as usize].name)),
            };
            if self.strict_dbg {
                eprintln!("{}{}", " ".repeat(st.stack.len()), code.name);
            }
            *self.executed.entry(sym).or_insert(0) += 1;
            if st.stack.len() > 4000 {
                return Err(Stop::End(End::Recursion));
            }
            let mut regs = vec![Val::C(0); code.nregs];
            for (i, o) in c.args.iter().enumerate().take(code.nparams) {
                regs[i] = Self::get(st, o);
            }
            let f = Frame { code, regs, bb: 0, ip: 0, ret_dst: c.dst, ret_normal: c.normal, allocas: vec![] };
            let old = std::mem::replace(&mut st.cur, f);
            st.stack.push(Rc::new(old));
            return Ok(false);
        }
        let r = self.builtin(st, sym, bi, c)?;
        match c.normal {
            Some(b) => {
                Self::set(st, c.dst, r);
                self.jump(st, b)?;
            }
            None => Self::done(st, c, r),
        }
        Ok(false)
    }
    fn arg(&mut self, st: &mut State, c: &CallI, i: usize) -> R<u64> {
        let v = Self::get(st, &c.args[i]);
        Ok(self.concretize(st, &v, 64)? as u64)
    }
    fn builtin(&mut self, st: &mut State, sym: u32, bi: Bi, c: &CallI) -> R<Val> {
        match bi {
            Bi::Nop | Bi::NoShim => Ok(Val::C(0)),
            Bi::Alloc | Bi::AllocZ => {
                let n = self.arg(st, c, 0)?;
                let a = self.alloc(st, n)?;
                Ok(Val::C(a as u128))
            }
            Bi::Dealloc => {
                let p = self.arg(st, c, 0)?;
                self.dealloc(st, p)?;
                Ok(Val::C(0))
            }
            Bi::Realloc => {
                let p = self.arg(st, c, 0)?;
                let old = self.arg(st, c, 1)?;
                let n = self.arg(st, c, 3)?;
                let a = self.alloc(st, n)?;
                self.memcpy(st, a, p, old.min(n))?;
                self.dealloc(st, p)?;
                Ok(Val::C(a as u128))
            }
            Bi::Panic => {
                let args: Vec<Val> = c.args.iter().map(|o| Self::get(st, o)).collect();
                let l = self.panic_loc(st, &args);
                Err(Stop::End(End::Panic(l)))
            }
            Bi::PanicNoLoc => Err(Stop::End(End::Panic(self.m.syms[sym as usize].name.clone()))),
            Bi::Abort => Err(Stop::End(End::Abort(self.m.syms[sym as usize].name.clone()))),
            Bi::RandKeys => Ok(Val::A(Rc::new(vec![Val::C(0x0123_4567_89ab_cdef), Val::C(0xfedc_ba98_7654_3210)]))),
            Bi::MemCmp | Bi::Bcmp => {
                let (a, b, n) = (self.arg(st, c, 0)?, self.arg(st, c, 1)?, self.arg(st, c, 2)?);
                self.cmp_bytes(st, a, b, n, bi == Bi::MemCmp)
            }
            Bi::Strlen => {
                let a = self.arg(st, c, 0)?;
                let mut n = 0;
                loop {
                    let b = self.byte(st, a + n)?;
                    let k = self.concretize(st, &b, 8)?;
                    if k == 0 {
                        break;
                    }
                    n += 1;
                }
                Ok(Val::C(n as u128))
            }
            Bi::MemCpy | Bi::MemMove => {
                let (d, s, n) = (self.arg(st, c, 0)?, self.arg(st, c, 1)?, self.arg(st, c, 2)?);
                self.memcpy(st, d, s, n)?;
                Ok(Val::C(d as u128))
            }
            Bi::MemSet => {
                let (d, n) = (self.arg(st, c, 0)?, self.arg(st, c, 2)?);
                let mut v = Self::get(st, &c.args[1]);
                if let Val::S(e) = v {
                    let x = self.ar.extract(e, 0, 8);
                    v = self.mkv(st, x);
                }
                if let Val::C(k) = v {
                    if n > 0 {
                        let off = (d & ((1 << SHIFT) - 1)) as usize;
                        let o = match self.objm(st, d, n) {
                            Some(o) => o,
                            None => return self.oob(st, "memset", d, n),
                        };
                        o.data[off..off + n as usize].fill(k as u8);
                        if let Some(s) = &mut o.sym {
                            s[off..off + n as usize].fill(0);
                        }
                    }
                } else {
                    for i in 0..n {
                        self.store_int(st, d + i, 1, &v)?;
                    }
                }
                Ok(Val::C(d as u128))
            }
            Bi::SxU8 => {
                let i = st.nvars;
                if i >= 128 {
                    return unsup("more than 128 symbolic bytes");
                }
                st.nvars += 1;
                st.trace.push(i as u32);
                let e = self.ar.var(i);
                Ok(Val::S(e))
            }
            Bi::SxChoose => {
                let n = self.arg(st, c, 0)?;
                if n == 0 {
                    return Err(Stop::End(End::Infeasible));
                }
                if n == 1 {
                    st.trace.push(0x8000_0000);
                    return Ok(Val::C(0));
                }
                if n > 256 {
                    return unsup("choice of more than 256");
                }
                // a fresh variable below n; paths fork where its value matters
                let i = st.nvars;
                if i >= 128 {
                    return unsup("more than 128 symbolic bytes");
                }
                st.nvars += 1;
                st.trace.push(0xc000_0000 | i as u32);
                let e = self.ar.var(i);
                let e = self.ar.zext(e, 32);
                let nc = self.ar.cst(32, n as u128);
                let lt = self.ar.bin(Op::Ult, e, nc);
                self.add(st, lt);
                Ok(Val::S(e))
            }
            Bi::SxAssume => {
                let v = Self::get(st, &c.args[0]);
                match v {
                    Val::C(0) => Err(Stop::End(End::Infeasible)),
                    Val::C(_) => Ok(Val::C(0)),
                    Val::S(e) => {
                        let e = if self.ar.w(e) != 1 {
                            let z = self.ar.cst(self.ar.w(e), 0);
                            let q = self.ar.bin(Op::Eq, e, z);
                            self.ar.not(q)
                        } else {
                            e
                        };
                        if self.ar.eval(e, &st.model[..]) == 0 {
                            match self.query(st, e) {
                                Some(m) => st.model = m,
                                None => return Err(Stop::End(End::Infeasible)),
                            }
                        }
                        self.add(st, e);
                        Ok(Val::C(0))
                    }
                    _ => unsup("assume"),
                }
            }
            Bi::SxFail => {
                let k = self.arg(st, c, 0)?;
                Err(Stop::End(End::Fail(k as u32)))
            }
            Bi::SxNote => {
                let t = self.arg(st, c, 0)?;
                let v = Self::get(st, &c.args[1]);
                st.notes.push((t as u32, v));
                Ok(Val::C(0))
            }
            Bi::SxReach => {
                let k = self.arg(st, c, 0)?;
                st.reach |= 1 << (k & 63);
                Ok(Val::C(0))
            }
            Bi::SxPick => {
                let v = Self::get(st, &c.args[0]);
                let k = self.concretize(st, &v, 64)?;
                Ok(Val::C(k))
            }
            Bi::Intr => self.intrinsic(st, sym, c),
            Bi::Unsup | Bi::None | Bi::DebugStr => {
                let n = self.m.syms[sym as usize].name.clone();
                match n.as_str() {
                    "pthread_key_create" | "pthread_setspecific" | "__cxa_thread_atexit_impl" => Ok(Val::C(0)),
                    _ => unsup(format!("external function {n}")),
                }
            }
        }
    }
    fn intrinsic(&mut self, st: &mut State, sym: u32, c: &CallI) -> R<Val> {
        let name = self.m.syms[sym as usize].name.clone();
        let base = &name[5..];
        let a: Vec<Val> = c.args.iter().map(|o| Self::get(st, o)).collect();
        let ty = c.ret.clone();
        let w = ty.bits();
        let is = |p: &str| base.starts_with(p);
        if let (true, Some(Val::A(_))) = (ty.is_agg(), a.first()) {
            // lane-wise min/max on vectors
            let pr = if is("umin") { Some(Pred::Ult) } else if is("umax") { Some(Pred::Ugt) } else if is("smin") { Some(Pred::Slt) } else if is("smax") { Some(Pred::Sgt) } else { None };
            if let Some(p) = pr {
                let et = ty.elem(0);
                return self.lanes1(st, &ty, &a[0], &a[1], &mut |s, st, w, x, y| {
                    match s.icmp(st, p, w, x, y) {
                        Val::C(k) => Ok(if k != 0 { x.clone() } else { y.clone() }),
                        Val::S(e) => s.ite(st, e, x, y, &et),
                        v => Ok(v),
                    }
                });
            }
        }
        if is("vector.reduce.") {
            if let Val::A(vs) = &a[0] {
                let et = c.argtys[0].elem(0);
                let op = if is("vector.reduce.add") { BinOp::Add } else if is("vector.reduce.or") { BinOp::Or } else if is("vector.reduce.and") { BinOp::And } else if is("vector.reduce.xor") { BinOp::Xor } else { return unsup(name) };
                let mut acc = vs[0].clone();
                for v in vs.iter().skip(1) {
                    acc = self.bin(st, op, et.bits(), &acc, v)?;
                }
                return Ok(acc);
            }
        }
        if is("load.relative") {
            let b = self.concretize(st, &a[0], 64)? as u64;
            let o = self.concretize(st, &a[1], 64)? as u64;
            let v = self.load_int(st, b.wrapping_add(o), 4)?;
            return match v {
                Val::C(k) => {
                    let e = k as u32 as i32 as i64;
                    let d = ((e >> 8) << SHIFT) + (e & 0xff);
                    Ok(Val::C(b.wrapping_add(d as u64) as u128))
                }
                _ => unsup("symbolic relative table"),
            };
        }
        if is("umin") || is("umax") || is("smin") || is("smax") {
            let p = match &base[..4] {
                "umin" => Pred::Ult,
                "umax" => Pred::Ugt,
                "smin" => Pred::Slt,
                _ => Pred::Sgt,
            };
            return match self.icmp(st, p, w, &a[0], &a[1]) {
                Val::C(k) => Ok(if k != 0 { a[0].clone() } else { a[1].clone() }),
                Val::S(e) => self.ite(st, e, &a[0], &a[1], &ty),
                v => Ok(v),
            };
        }
        if is("usub.sat") {
            return match self.icmp(st, Pred::Ult, w, &a[0], &a[1]) {
                Val::C(k) if k != 0 => Ok(Val::C(0)),
                Val::C(_) => self.bin(st, BinOp::Sub, w, &a[0], &a[1]),
                Val::S(e) => {
                    let d = self.bin(st, BinOp::Sub, w, &a[0], &a[1])?;
                    self.ite(st, e, &Val::C(0), &d, &ty)
                }
                v => Ok(v),
            };
        }
        if is("uadd.sat") {
            let s = self.bin(st, BinOp::Add, w, &a[0], &a[1])?;
            return match self.icmp(st, Pred::Ult, w, &s, &a[0]) {
                Val::C(k) if k != 0 => Ok(Val::C(mask(w))),
                Val::C(_) => Ok(s),
                Val::S(e) => self.ite(st, e, &Val::C(mask(w)), &s, &ty),
                v => Ok(v),
            };
        }
        if base.contains(".with.overflow") {
            let et = c.ret.elem(0);
            let w = et.bits();
            let signed = base.starts_with('s');
            let op = match &base[1..4] {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                _ => BinOp::Mul,
            };
            let r = self.bin(st, op, w, &a[0], &a[1])?;
            let ov: Val = if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                let o = if signed {
                    let (x, y) = (sext(*x, w), sext(*y, w));
                    let z = match op {
                        BinOp::Add => x.checked_add(y),
                        BinOp::Sub => x.checked_sub(y),
                        _ => x.checked_mul(y),
                    };
                    match z {
                        None => true,
                        Some(z) => sext(z as u128 & mask(w), w) != z,
                    }
                } else {
                    match op {
                        BinOp::Add => x.checked_add(*y).map(|z| z > mask(w)).unwrap_or(true),
                        BinOp::Sub => x < y,
                        _ => x.checked_mul(*y).map(|z| z > mask(w)).unwrap_or(true),
                    }
                };
                Val::C(o as u128)
            } else if !signed {
                match op {
                    BinOp::Add => self.icmp(st, Pred::Ult, w, &r, &a[0]),
                    BinOp::Sub => self.icmp(st, Pred::Ult, w, &a[0], &a[1]),
                    _ => {
                        // constant factor: overflow iff the other side exceeds max / k
                        let (k, x) = match (&a[0], &a[1]) {
                            (Val::C(k), x) | (x, Val::C(k)) => (*k, x.clone()),
                            _ => {
                                if w > 64 {
                                    return unsup("symbolic umul.with.overflow");
                                }
                                let (p, q) = (self.e(&a[0], w), self.e(&a[1], w));
                                let (p, q) = (self.ar.zext(p, 2 * w), self.ar.zext(q, 2 * w));
                                let pr = self.ar.bin(Op::Mul, p, q);
                                let hi = self.ar.extract(pr, w, w);
                                let z = self.ar.cst(w, 0);
                                let eq = self.ar.bin(Op::Eq, hi, z);
                                let ne = self.ar.not(eq);
                                let o = self.mkv(st, ne);
                                return Ok(Val::A(Rc::new(vec![r, o])));
                            }
                        };
                        if k == 0 {
                            Val::C(0)
                        } else {
                            self.icmp(st, Pred::Ugt, w, &x, &Val::C(mask(w) / k))
                        }
                    }
                }
            } else {
                let ww = match op {
                    BinOp::Mul => 2 * w,
                    _ => w + 1,
                };
                let konst = match (&a[0], &a[1]) {
                    (Val::C(k), x) | (x, Val::C(k)) => Some((sext(*k, w), x.clone())),
                    _ => None,
                };
                if let (BinOp::Mul, Some((k, x))) = (&op, &konst) {
                    // constant factor: overflow iff the other side is outside [lo, hi]
                    let max = (mask(w) >> 1) as i128;
                    let min = -max - 1;
                    let (lo, hi) = match *k {
                        0 => (min, max),
                        -1 => (-max, max),
                        k if k > 0 => (min / k, max / k),
                        k => (max / k, min / k),
                    };
                    let l = self.icmp(st, Pred::Slt, w, x, &Val::C(lo as u128 & mask(w)));
                    let h = self.icmp(st, Pred::Sgt, w, x, &Val::C(hi as u128 & mask(w)));
                    let (l, h) = (self.e(&l, 1), self.e(&h, 1));
                    let o = self.ar.bin(Op::Or, l, h);
                    let o = self.mkv(st, o);
                    return Ok(Val::A(Rc::new(vec![r, o])));
                }
                if ww > 128 {
                    if matches!(op, BinOp::Mul) {
                        return unsup("symbolic signed overflow");
                    }
                    // from the signs of the operands and the result
                    let sign = |s: &mut Self, v: &Val| {
                        let e = s.e(v, w);
                        s.ar.extract(e, w - 1, 1)
                    };
                    let (p, q, z) = (sign(self, &a[0]), sign(self, &a[1]), sign(self, &r));
                    let pq = self.ar.bin(Op::Xor, p, q);
                    let same = if matches!(op, BinOp::Add) { self.ar.not(pq) } else { pq };
                    let changed = self.ar.bin(Op::Xor, p, z);
                    let o = self.ar.bin(Op::And, same, changed);
                    let o = self.mkv(st, o);
                    return Ok(Val::A(Rc::new(vec![r, o])));
                }
                let (p, q) = (self.e(&a[0], w), self.e(&a[1], w));
                let (p, q) = (self.ar.sext(p, ww), self.ar.sext(q, ww));
                let o = match op {
                    BinOp::Add => Op::Add,
                    BinOp::Sub => Op::Sub,
                    _ => Op::Mul,
                };
                let full = self.ar.bin(o, p, q);
                let rr = self.e(&r, w);
                let back = self.ar.sext(rr, ww);
                let eq = self.ar.bin(Op::Eq, full, back);
                let ne = self.ar.not(eq);
                self.mkv(st, ne)
            };
            return Ok(Val::A(Rc::new(vec![r, ov])));
        }
        if is("ucmp") || is("scmp") {
            let aw = c.argtys[0].bits();
            let (lt, gt) = if is("ucmp") { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let l = self.icmp(st, lt, aw, &a[0], &a[1]);
            let g = self.icmp(st, gt, aw, &a[0], &a[1]);
            let (le, ge) = (self.e(&l, 1), self.e(&g, 1));
            let (m1, z, o) = (self.ar.cst(w, mask(w)), self.ar.cst(w, 0), self.ar.cst(w, 1));
            let r = self.ar.ite(ge, o, z);
            let r = self.ar.ite(le, m1, r);
            return Ok(self.mkv(st, r));
        }
        if is("abs") {
            let neg = self.bin(st, BinOp::Sub, w, &Val::C(0), &a[0])?;
            return match self.icmp(st, Pred::Slt, w, &a[0], &Val::C(0)) {
                Val::C(k) => Ok(if k != 0 { neg } else { a[0].clone() }),
                Val::S(e) => self.ite(st, e, &neg, &a[0], &ty),
                v => Ok(v),
            };
        }
        if is("fshl") || is("fshr") {
            let k = self.concretize(st, &a[2], w)? as u32 % w;
            let left = is("fshl");
            let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
            if k == 0 {
                return Ok(if left { a[0].clone() } else { a[1].clone() });
            }
            let kk = if left { k } else { w - k };
            // (x << kk) | (y >> (w-kk))
            let hi = self.ar.extract(x, 0, w - kk);
            let lo = self.ar.extract(y, w - kk, kk);
            let r = self.ar.concat(hi, lo);
            return Ok(self.mkv(st, r));
        }
        if is("ctpop") || is("cttz") || is("ctlz") {
            if let Val::C(x) = &a[0] {
                let x = *x;
                let r = if is("ctpop") {
                    x.count_ones()
                } else if is("cttz") {
                    if x == 0 { w } else { x.trailing_zeros() }
                } else if x == 0 {
                    w
                } else {
                    x.leading_zeros() - (128 - w)
                };
                return Ok(Val::C(r as u128));
            }
            let x = self.e(&a[0], w);
            let mut acc = self.ar.cst(w, if is("ctpop") { 0 } else { w as u128 });
            if is("ctpop") {
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let b = self.ar.zext(b, w);
                    acc = self.ar.bin(Op::Add, acc, b);
                }
            } else if is("cttz") {
                for i in (0..w).rev() {
                    let b = self.ar.extract(x, i, 1);
                    let k = self.ar.cst(w, i as u128);
                    acc = self.ar.ite(b, k, acc);
                }
            } else {
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let k = self.ar.cst(w, (w - 1 - i) as u128);
                    acc = self.ar.ite(b, k, acc);
                }
            }
            return Ok(self.mkv(st, acc));
        }
        if is("bswap") {
            let x = self.e(&a[0], w);
            let mut r: Option<E> = None;
            for i in 0..w / 8 {
                let b = self.ar.extract(x, i * 8, 8);
                r = Some(match r {
                    None => b,
                    Some(hi) => self.ar.concat(hi, b),
                });
            }
            return Ok(self.mkv(st, r.unwrap()));
        }
        if is("bitreverse") {
            let x = self.e(&a[0], w);
            let mut r: Option<E> = None;
            for i in 0..w {
                let b = self.ar.extract(x, i, 1);
                r = Some(match r {
                    None => b,
                    Some(hi) => self.ar.concat(hi, b),
                });
            }
            return Ok(self.mkv(st, r.unwrap()));
        }
        if is("threadlocal.address") || is("launder") || is("strip.invariant") || is("expect") {
            return Ok(a[0].clone());
        }
        if is("is.constant") {
            return Ok(Val::C(0));
        }
        if is("fabs") {
            if let Val::C(x) = a[0] {
                return Ok(Val::C(x & mask(w - 1)));
            }
        }
        if is("copysign") {
            if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                return Ok(Val::C((x & mask(w - 1)) | (y & (1 << (w - 1)))));
            }
        }
        if is("ptrmask") {
            return self.bin(st, BinOp::And, 64, &a[0], &a[1]);
        }
        unsup(format!("intrinsic {name}"))
    }
    pub fn names(&self) -> BTreeMap<String, u64> {
        self.executed.iter().map(|(s, n)| (self.m.syms[*s as usize].name.clone(), *n)).collect()
    }
    pub fn site_names(&self) -> Vec<(u64, String)> {
        let mut v: Vec<_> = self
            .fork_sites
            .iter()
            .map(|((s, b), n)| {
                let bn = self.m.code(*s).map(|c| c.blocks[*b as usize].name.clone()).unwrap_or_default();
                (*n, format!("{} {}", self.m.syms[*s as usize].name, bn))
            })
            .collect();
        v.sort();
        v.reverse();
        v
    }
    pub fn distinct_sites(&self) -> HashSet<(u32, u32)> {
        self.fork_sites.keys().copied().collect()
    }
}
