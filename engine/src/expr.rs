//! Hash-consed bit-vector expressions over symbolic input bytes.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var, // k = index, width 8
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,  // a = high, b = low
    Extract, // a, k = lo, width w
    ZExt,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub supp: Vec<u128>,
    map: HashMap<Node, E>,
    // evaluation memo
    ub: Vec<u128>,
    tzv: Vec<u8>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let sh = 128 - w;
        ((v << sh) as i128) >> sh
    }
}

pub fn fold_bin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128
        }
        Op::Eq => return (a == b) as u128,
        Op::Ult => return (a < b) as u128,
        Op::Ule => return (a <= b) as u128,
        Op::Slt => return (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => return (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    };
    r & m
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: Vec::new(),
            supp: Vec::new(),
            map: HashMap::new(),
            memo: Vec::new(),
            ub: vec![u128::MAX],
            tzv: vec![0],
            stamp: 0,
        };
        // id 0 reserved ("concrete byte" marker)
        a.nodes.push(Node { op: Op::Const, w: 8, a: 0, b: 0, c: 0, k: u128::MAX });
        a.supp.push(0);
        a.memo.push((0, 0));
        a
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let s = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << n.k,
            Op::Extract | Op::ZExt | Op::SExt => self.supp[n.a as usize],
            Op::Ite => {
                self.supp[n.a as usize] | self.supp[n.b as usize] | self.supp[n.c as usize]
            }
            _ => self.supp[n.a as usize] | self.supp[n.b as usize],
        };
        let (u, t) = (self.calc_ub(&n), self.calc_tz(&n));
        let id = self.nodes.len() as E;
        self.ub.push(u);
        self.tzv.push(t as u8);
        self.nodes.push(n);
        self.supp.push(s);
        self.memo.push((0, 0));
        self.map.insert(n, id);
        id
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn cst(&mut self, w: u32, k: u128) -> E {
        self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: usize) -> E {
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let m = self.cst(w, mask(w));
        self.bin(Op::Xor, e, m)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w as u32 == w {
            return e;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w: w as u16, a: e, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w as u32 == w {
            return e;
        }
        match n.op {
            Op::Const => return self.cst(w, sext(n.k, n.w as u32) as u128),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::SExt, w: w as u16, a: e, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.n(e);
        if lo == 0 && n.w as u32 == w {
            return e;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let p = self.extract(n.a, lo, iw - lo);
                return self.zext(p, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() || w <= 8 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Shl => {
                if let Some(k) = self.as_const(n.b) {
                    let k = k as u32;
                    if k <= lo {
                        if lo - k + w <= n.w as u32 {
                            return self.extract(n.a, lo - k, w);
                        }
                    } else if lo + w <= k {
                        return self.cst(w, 0);
                    }
                }
            }
            Op::LShr => {
                if let Some(k) = self.as_const(n.b) {
                    let k = k as u32;
                    if k < n.w as u32 && lo + k + w <= n.w as u32 {
                        return self.extract(n.a, lo + k, w);
                    }
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w: w as u16, a: e, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w as u32 + nl.w as u32;
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.cst(w, (nh.k << nl.w) | nl.k);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(lo, w);
        }
        // adjacent extracts
        let (ha, hl) = if nh.op == Op::Extract { (nh.a, nh.k as u32) } else { (hi, 0) };
        let (la, ll) = if nl.op == Op::Extract { (nl.a, nl.k as u32) } else { (lo, 0) };
        if ha == la && hl == ll + nl.w as u32 {
            return self.extract(ha, ll, w);
        }
        // hi is zext of extract adjacent
        if nh.op == Op::ZExt {
            let ih = self.concat(nh.a, lo);
            return self.zext(ih, w);
        }
        // (x ++ ex) ++ ex'
        if nh.op == Op::Concat {
            let nb = self.n(nh.b);
            let (ba, bl) = if nb.op == Op::Extract { (nb.a, nb.k as u32) } else { (nh.b, 0) };
            if ba == la && bl == ll + nl.w as u32 {
                let low = self.extract(ba, ll, nb.w as u32 + nl.w as u32);
                return self.concat(nh.a, low);
            }
        }
        // ite with the same condition
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        self.mk(Node { op: Op::Concat, w: w as u16, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && nc.w == 1 && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let d = self.bin(Op::Or, c, nb.a);
            return self.ite(d, a, nb.c);
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }
    fn mkbin(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.mk(Node { op, w: w as u16, a, b, c: 0, k: 0 })
    }
    /// upper bound (unsigned) of an expression, cheap
    pub fn ubound(&self, e: E) -> u128 {
        self.ub[e as usize]
    }
    /// number of low bits known to be zero
    pub fn tz(&self, e: E) -> u32 {
        self.tzv[e as usize] as u32
    }
    fn calc_tz(&self, n: &Node) -> u32 {
        let t = |e: E| self.tzv[e as usize] as u32;
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => n.k.trailing_zeros(),
            Op::ZExt | Op::SExt => t(n.a),
            Op::Add | Op::Sub | Op::Or | Op::Xor => t(n.a).min(t(n.b)),
            Op::And => t(n.a).max(t(n.b)),
            Op::Mul => t(n.a) + t(n.b),
            Op::Shl => match self.as_const(n.b) {
                Some(k) if k < 128 => t(n.a) + k as u32,
                _ => t(n.a),
            },
            Op::Concat => {
                let lw = self.w(n.b);
                if t(n.b) >= lw { lw + t(n.a) } else { t(n.b) }
            }
            Op::Extract => t(n.a).saturating_sub(n.k as u32),
            Op::Ite => t(n.b).min(t(n.c)),
            _ => 0,
        };
        r.min(w)
    }
    fn calc_ub(&self, n: &Node) -> u128 {
        let m = mask(n.w as u32);
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.ubound(n.a),
            Op::Extract if n.k == 0 => self.ubound(n.a).min(m),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ubound(n.a) << lw) | mask(lw)
            }
            Op::And => self.ubound(n.a).min(self.ubound(n.b)),
            Op::URem => match self.as_const(n.b) {
                Some(k) if k > 0 => k - 1,
                _ => m,
            },
            Op::UDiv => match self.as_const(n.b) {
                Some(k) if k > 0 => self.ubound(n.a) / k,
                _ => m,
            },
            Op::LShr => match self.as_const(n.b) {
                Some(k) if k < n.w as u128 => self.ubound(n.a) >> k,
                _ => m,
            },
            Op::Ite => self.ubound(n.b).max(self.ubound(n.c)),
            Op::Add => {
                let s = self.ubound(n.a).checked_add(self.ubound(n.b));
                match s {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::Mul => match self.ubound(n.a).checked_mul(self.ubound(n.b)) {
                Some(s) if s <= m => s,
                _ => m,
            },
            Op::Shl => match self.as_const(n.b) {
                Some(k) if k < n.w as u128 => {
                    let u = self.ubound(n.a);
                    if u.leading_zeros() as u128 > k && (u << k) <= m {
                        u << k
                    } else {
                        m
                    }
                }
                _ => m,
            },
            _ => m,
        }
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = fold_bin(op, w, x, y);
            return self.cst(rw, r);
        }
        let m = mask(w);
        // canonical: constants on the right for commutative ops
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ka.is_some() || (kb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let kb = self.as_const(b);
        let ka = self.as_const(a);
        let na = self.n(a);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    if na.op == Op::Ite
                        && self.as_const(na.b).is_some()
                        && self.as_const(na.c).is_some()
                    {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(k) = kb {
                    let nk = self.cst(w, 0u128.wrapping_sub(k));
                    return self.bin(Op::Add, a, nk);
                }
                // (x + k) - x
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                let nb = self.n(b);
                if nb.op == Op::Add && na.op == Op::Add && na.a == nb.a {
                    return self.bin(Op::Sub, na.b, nb.b);
                }
                if nb.op == Op::Add && nb.a == a {
                    if let Some(k) = self.as_const(nb.b) {
                        return self.cst(w, 0u128.wrapping_sub(k));
                    }
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.cst(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                    if k > 0 && self.ubound(a) < k {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k & mask(iw) == mask(iw) {
                            return a;
                        }
                        let kk = self.cst(iw, k);
                        let x = self.bin(Op::And, na.a, kk);
                        return self.zext(x, w);
                    }
                    if (k + 1).is_power_of_two() && k != 0 {
                        // low mask -> zext(extract)
                        let bits = (k + 1).trailing_zeros();
                        if bits >= 1 && bits < w {
                            if self.ubound(a) <= k {
                                return a;
                            }
                            let x = self.extract(a, 0, bits);
                            return self.zext(x, w);
                        }
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(w, k & k2);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                    if na.op == Op::Ite
                        && self.as_const(na.b).is_some()
                        && self.as_const(na.c).is_some()
                    {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if w == 1 {
                    let n1 = self.not(a);
                    if n1 == b {
                        return self.cst(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 {
                    let n1 = self.not(a);
                    if n1 == b {
                        return self.cst(1, 1);
                    }
                }
                // zext(x) | (y << k)  -> concat
                let nb = self.n(b);
                for (p, q, nq) in [(a, b, nb), (b, a, na)] {
                    if nq.op == Op::Shl {
                        if let Some(k) = self.as_const(nq.b) {
                            let k = k as u32;
                            if k < w && self.ubound(p) <= mask(k) && k > 0 {
                                let hi = self.extract(nq.a, 0, w - k);
                                let lo = self.extract(p, 0, k);
                                return self.concat(hi, lo);
                            }
                        }
                    }
                    let _ = q;
                }
                if let Some(k) = kb {
                    if na.op == Op::ZExt && k >> self.w(na.a) == 0 {
                        let iw = self.w(na.a);
                        let kk = self.cst(iw, k);
                        let x = self.bin(Op::Or, na.a, kk);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if na.op == Op::ZExt && k >> self.w(na.a) == 0 {
                        let iw = self.w(na.a);
                        let kk = self.cst(iw, k);
                        let x = self.bin(Op::Xor, na.a, kk);
                        return self.zext(x, w);
                    }
                    if w == 1 {
                        // not of comparisons
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if ka == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 && op != Op::AShr {
                        return self.cst(w, 0);
                    }
                    let k = k as u32;
                    if op == Op::LShr {
                        if k < w {
                            let x = self.extract(a, k, w - k);
                            return self.zext(x, w);
                        }
                    }
                    if op == Op::Shl && na.op == Op::Shl {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(w, k2 + k as u128);
                            return self.bin(Op::Shl, na.a, kk);
                        }
                    }
                    if op == Op::AShr && na.op == Op::ZExt {
                        return self.bin(Op::LShr, a, b);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if let Some(k) = kb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    if k > self.ubound(a) {
                        return self.cst(1, 0);
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k >> iw != 0 {
                                return self.cst(1, 0);
                            }
                            let kk = self.cst(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if sext(k & mask(iw), iw) as u128 & m != k {
                                return self.cst(1, 0);
                            }
                            let kk = self.cst(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.cst(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.cst(w, k ^ k2);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Sub if k == 0 => return self.bin(Op::Eq, na.a, na.b),
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kh = self.cst(w - lw, k >> lw);
                            let kl = self.cst(lw, k);
                            let x = self.bin(Op::Eq, na.a, kh);
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::Or if k == 0 => {
                            let z = self.cst(w, 0);
                            let x = self.bin(Op::Eq, na.a, z);
                            let y = self.bin(Op::Eq, na.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n(b);
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat
                        && nb.op == Op::Concat
                        && self.w(na.b) == self.w(nb.b)
                    {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.cst(1, (op == Op::Ule) as u128);
                }
                if let Some(k) = kb {
                    if op == Op::Ult && k == 0 {
                        return self.cst(1, 0);
                    }
                    if op == Op::Ult && k == 1 {
                        let z = self.cst(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if op == Op::Ule && k == m {
                        return self.cst(1, 1);
                    }
                    let ub = self.ubound(a);
                    if (op == Op::Ult && ub < k) || (op == Op::Ule && ub <= k) {
                        return self.cst(1, 1);
                    }
                    if op == Op::Ule {
                        let kk = self.cst(w, k + 1);
                        return self.bin(Op::Ult, a, kk);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.cst(iw, k);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                    if na.op == Op::Ite
                        && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some())
                    {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if let Some(k) = ka {
                    if op == Op::Ule && k == 0 {
                        return self.cst(1, 1);
                    }
                    if op == Op::Ult && k == m {
                        return self.cst(1, 0);
                    }
                    let ub = self.ubound(b);
                    if (op == Op::Ult && k >= ub) || (op == Op::Ule && k > ub) {
                        return self.cst(1, 0);
                    }
                    // k < b  <=> !(b <= k) <=> !(b < k+1)
                    if op == Op::Ult {
                        let kk = self.cst(w, k + 1);
                        return self.bin(Op::Ule, kk, b);
                    }
                    let nb = self.n(b);
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        let kk = self.cst(iw, k);
                        return self.bin(Op::Ule, kk, nb.a);
                    }
                    if nb.op == Op::Ite
                        && (self.as_const(nb.b).is_some() || self.as_const(nb.c).is_some())
                    {
                        let x = self.bin(op, a, nb.b);
                        let y = self.bin(op, a, nb.c);
                        return self.ite(nb.a, x, y);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.cst(1, (op == Op::Sle) as u128);
                }
                // both known non-negative -> unsigned
                let hb = 1u128 << (w - 1);
                if self.ubound(a) < hb && self.ubound(b) < hb {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, a, b);
                }
                // sign of a zero-extended value is known
                if self.ubound(a) < hb {
                    if let Some(k) = kb {
                        if k >= hb {
                            return self.cst(1, 0);
                        }
                    }
                }
                if self.ubound(b) < hb {
                    if let Some(k) = ka {
                        if k >= hb {
                            return self.cst(1, 1);
                        }
                    }
                }
            }
            _ => {}
        }
        self.mkbin(op, rw, a, b)
    }

    /// Evaluate under an assignment of the input bytes.
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.stamp = self.stamp.wrapping_add(1);
        if self.stamp == 0 {
            for m in self.memo.iter_mut() {
                m.0 = 0;
            }
            self.stamp = 1;
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return *model.get(n.k as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        let (s, v) = self.memo[e as usize];
        if s == self.stamp {
            return v;
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Extract => (self.ev(n.a, model) >> n.k) & mask(w),
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => {
                let iw = self.w(n.a);
                sext(self.ev(n.a, model), iw) as u128 & mask(w)
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, model) << lw) | self.ev(n.b, model)
            }
            Op::Ite => {
                if self.ev(n.a, model) != 0 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            op => {
                let iw = self.w(n.a);
                let x = self.ev(n.a, model);
                let y = self.ev(n.b, model);
                fold_bin(op, iw, x, y)
            }
        };
        self.memo[e as usize] = (self.stamp, r);
        r
    }
}
