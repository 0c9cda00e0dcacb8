//! Hash-consed bit-vector terms with local simplification.
//!
//! Every term has a width of 1 to 128 bits. Terms of width 1 are booleans.

use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    /// `a` is the high part, `b` the low part.
    Concat,
    /// Low bit is in `k`.
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

/// Facts about a term that hold for every assignment (respecting declared ranges of variables).
#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub zeros: u128,
    pub ones: u128,
    pub lo: u128,
    pub hi: u128,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u8,
    /// Inclusive upper bound.
    pub hi: u128,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, T>,
    pub vars: Vec<VarInfo>,
    eq_memo: HashMap<(T, T), T>,
    ult_memo: HashMap<(T, T), T>,
    ex_memo: HashMap<(T, u8, u8), T>,
    bin_memo: HashMap<(Op, T, T), T>,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            nodes: Vec::new(),
            info: Vec::new(),
            map: HashMap::new(),
            vars: Vec::new(),
            eq_memo: HashMap::new(),
            ult_memo: HashMap::new(),
            ex_memo: HashMap::new(),
            bin_memo: HashMap::new(),
        };
        // Term 0: false, term 1: true.
        let f = t.cst(0, 1);
        let tr = t.cst(1, 1);
        assert!(f == 0 && tr == 1);
        t
    }

    pub fn w(&self, t: T) -> u8 {
        self.nodes[t as usize].w
    }
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn range(&self, t: T) -> (u128, u128) {
        let i = &self.info[t as usize];
        (i.lo, i.hi)
    }

    fn mk(&mut self, op: Op, w: u8, a: T, b: T, c: T, k: u128) -> T {
        debug_assert!(w >= 1 && w <= 128);
        let n = Node { op, w, a, b, c, k };
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let info = self.compute_info(&n);
        if op != Op::Const {
            if info.lo == info.hi {
                return self.cst(info.lo, w);
            }
            if info.zeros | info.ones == mask(w) {
                return self.cst(info.ones, w);
            }
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.info.push(info);
        self.map.insert(n, t);
        t
    }

    fn compute_info(&self, n: &Node) -> Info {
        let m = mask(n.w);
        let ia = |x: T| self.info[x as usize];
        let (mut zeros, mut ones, mut lo, mut hi) = (0u128, 0u128, 0u128, m);
        match n.op {
            Op::Const => {
                zeros = !n.k & m;
                ones = n.k;
                lo = n.k;
                hi = n.k;
            }
            Op::Var => {
                hi = self.vars[n.k as usize].hi;
            }
            Op::Not => {
                let a = ia(n.a);
                zeros = a.ones;
                ones = a.zeros;
                lo = m - a.hi;
                hi = m - a.lo;
            }
            Op::And => {
                let (a, b) = (ia(n.a), ia(n.b));
                zeros = a.zeros | b.zeros;
                ones = a.ones & b.ones;
                hi = a.hi.min(b.hi);
            }
            Op::Or => {
                let (a, b) = (ia(n.a), ia(n.b));
                zeros = a.zeros & b.zeros;
                ones = a.ones | b.ones;
                lo = a.lo.max(b.lo);
            }
            Op::Xor => {
                let (a, b) = (ia(n.a), ia(n.b));
                zeros = (a.zeros & b.zeros) | (a.ones & b.ones);
                ones = (a.zeros & b.ones) | (a.ones & b.zeros);
            }
            Op::Add => {
                let (a, b) = (ia(n.a), ia(n.b));
                if let Some(h) = a.hi.checked_add(b.hi) {
                    if h <= m {
                        lo = a.lo + b.lo;
                        hi = h;
                    }
                }
                if let (Some(l), true) = (a.lo.checked_add(b.lo), n.w < 128) {
                    // Both ends wrap exactly once.
                    if l > m {
                        lo = l - m - 1;
                        hi = a.hi + b.hi - m - 1;
                    }
                }
                // Common trailing known-zero bits.
                let tz = (!a.zeros & m).trailing_zeros().min((!b.zeros & m).trailing_zeros());
                if tz > 0 {
                    zeros |= mask((tz.min(n.w as u32)) as u8);
                }
                // low bits known in both
                let known = (a.zeros | a.ones) & (b.zeros | b.ones);
                let kt = (!known).trailing_zeros().min(n.w as u32);
                if kt > 0 {
                    let km = mask(kt as u8);
                    let v = a.ones.wrapping_add(b.ones) & km;
                    ones |= v;
                    zeros |= !v & km;
                }
            }
            Op::Sub => {
                let (a, b) = (ia(n.a), ia(n.b));
                if a.lo >= b.hi {
                    lo = a.lo - b.hi;
                    hi = a.hi - b.lo;
                }
                let known = (a.zeros | a.ones) & (b.zeros | b.ones);
                let kt = (!known).trailing_zeros().min(n.w as u32);
                if kt > 0 {
                    let km = mask(kt as u8);
                    let v = a.ones.wrapping_sub(b.ones) & km;
                    ones |= v;
                    zeros |= !v & km;
                }
            }
            Op::Mul => {
                let (a, b) = (ia(n.a), ia(n.b));
                if let Some(h) = a.hi.checked_mul(b.hi) {
                    if h <= m {
                        lo = a.lo * b.lo;
                        hi = h;
                    }
                }
                let tz = (!a.zeros & m).trailing_zeros().min(n.w as u32)
                    + (!b.zeros & m).trailing_zeros().min(n.w as u32);
                let tz = tz.min(n.w as u32);
                if tz > 0 {
                    zeros |= mask(tz as u8);
                }
            }
            Op::UDiv => {
                let (a, b) = (ia(n.a), ia(n.b));
                if b.lo > 0 {
                    lo = a.lo / b.hi;
                    hi = a.hi / b.lo;
                }
            }
            Op::URem => {
                let (a, b) = (ia(n.a), ia(n.b));
                if b.lo > 0 {
                    hi = a.hi.min(b.hi - 1);
                }
            }
            Op::Shl => {
                let a = ia(n.a);
                if let Some(s) = self.as_const(n.b) {
                    let s = s as u32;
                    zeros = ((a.zeros << s) | mask(s as u8)) & m;
                    ones = (a.ones << s) & m;
                    if a.hi.leading_zeros() >= s && (a.hi << s) <= m {
                        lo = a.lo << s;
                        hi = a.hi << s;
                    }
                }
            }
            Op::LShr => {
                let a = ia(n.a);
                if let Some(s) = self.as_const(n.b) {
                    let s = s as u32;
                    zeros = (a.zeros >> s) | (m & !(m >> s));
                    ones = a.ones >> s;
                    lo = a.lo >> s;
                    hi = a.hi >> s;
                } else {
                    hi = a.hi;
                }
            }
            Op::AShr => {}
            Op::Eq | Op::Ult | Op::Slt => {}
            Op::Ite => {
                let (a, b) = (ia(n.b), ia(n.c));
                zeros = a.zeros & b.zeros;
                ones = a.ones & b.ones;
                lo = a.lo.min(b.lo);
                hi = a.hi.max(b.hi);
            }
            Op::Concat => {
                let (a, b) = (ia(n.a), ia(n.b));
                let wb = self.w(n.b);
                zeros = (a.zeros << wb) | b.zeros;
                ones = (a.ones << wb) | b.ones;
                lo = (a.lo << wb) | b.lo;
                hi = (a.hi << wb) | b.hi;
            }
            Op::Extract => {
                let a = ia(n.a);
                zeros = (a.zeros >> n.k) & m;
                ones = (a.ones >> n.k) & m;
                if n.k == 0 {
                    if a.hi <= m {
                        lo = a.lo;
                        hi = a.hi;
                    }
                } else if (a.hi >> n.k) <= m {
                    lo = a.lo >> n.k;
                    hi = a.hi >> n.k;
                }
            }
            Op::ZExt => {
                let a = ia(n.a);
                let wa = self.w(n.a);
                zeros = a.zeros | (m & !mask(wa));
                ones = a.ones;
                lo = a.lo;
                hi = a.hi;
            }
            Op::SExt => {
                let a = ia(n.a);
                let wa = self.w(n.a);
                let sb = 1u128 << (wa - 1);
                if a.zeros & sb != 0 {
                    zeros = a.zeros | (m & !mask(wa));
                    ones = a.ones;
                    lo = a.lo;
                    hi = a.hi;
                }
            }
        }
        // Combine bits and range.
        lo = lo.max(ones);
        hi = hi.min(m & !zeros);
        let top = 128 - hi.leading_zeros();
        if top < 128 {
            zeros |= m & !mask_u(top);
        }
        Info { zeros, ones, lo, hi }
    }

    pub fn cst(&mut self, v: u128, w: u8) -> T {
        let v = v & mask(w);
        self.mk(Op::Const, w, 0, 0, 0, v)
    }
    pub fn b(&mut self, v: bool) -> T {
        v as T
    }

    pub fn new_var(&mut self, name: &str, w: u8, hi: u128) -> T {
        let id = self.vars.len();
        self.vars.push(VarInfo { name: name.to_string(), w, hi });
        self.mk(Op::Var, w, 0, 0, 0, id as u128)
    }

    pub fn not(&mut self, a: T) -> T {
        let n = self.n(a);
        match n.op {
            Op::Const => self.cst(!n.k, n.w),
            Op::Not => n.a,
            _ => self.mk(Op::Not, n.w, a, 0, 0, 0),
        }
    }

    fn is_not_of(&self, a: T, b: T) -> bool {
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a)
    }

    pub fn and(&mut self, a: T, b: T) -> T {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(k) = self.as_const(x) {
                if k == 0 {
                    return x;
                }
                if k == mask(w) {
                    return y;
                }
                // Known bits make the mask redundant.
                let i = self.info[y as usize];
                if (!i.zeros & mask(w)) & !k == 0 {
                    return y;
                }
                let n = self.n(y);
                if n.op == Op::And {
                    if let Some(k2) = self.as_const(n.b).or(self.as_const(n.a)) {
                        let o = if self.as_const(n.b).is_some() { n.a } else { n.b };
                        let c = self.cst(k & k2, w);
                        return self.and(o, c);
                    }
                }
                // Low mask: zext(extract).
                if k != 0 && (k & (k + 1)) == 0 {
                    let lw = (128 - k.leading_zeros()) as u8;
                    let e = self.extract(y, 0, lw);
                    return self.zext(e, w);
                }
                if n.op == Op::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                    let p = self.and(n.b, x);
                    let q = self.and(n.c, x);
                    return self.ite(n.a, p, q);
                }
            }
        }
        if self.is_not_of(a, b) {
            return self.cst(0, w);
        }
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(y);
            if n.op == Op::And {
                if n.a == x || n.b == x {
                    return y;
                }
                if self.is_not_of(x, n.a) || self.is_not_of(x, n.b) {
                    return self.cst(0, w);
                }
            }
            if n.op == Op::Or {
                if n.a == x || n.b == x {
                    return x;
                }
                if self.is_not_of(x, n.a) {
                    return self.and(x, n.b);
                }
                if self.is_not_of(x, n.b) {
                    return self.and(x, n.a);
                }
            }
            if n.op == Op::Not {
                let nn = self.n(n.a);
                if nn.op == Op::And {
                    // x & !(x & z) = x & !z
                    if nn.a == x {
                        let nz = self.not(nn.b);
                        return self.and(x, nz);
                    }
                    if nn.b == x {
                        let nz = self.not(nn.a);
                        return self.and(x, nz);
                    }
                    // x & !(!x & z) = x
                    if self.is_not_of(x, nn.a) || self.is_not_of(x, nn.b) {
                        return x;
                    }
                }
                if nn.op == Op::Or && (nn.a == x || nn.b == x) {
                    return self.cst(0, w);
                }
            }
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }

    pub fn or(&mut self, a: T, b: T) -> T {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(k) = self.as_const(x) {
                if k == 0 {
                    return y;
                }
                if k == mask(w) {
                    return x;
                }
            }
        }
        if self.is_not_of(a, b) {
            return self.cst(mask(w), w);
        }
        // Disjoint high/low parts: concat.
        if w > 1 {
            let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
            let ma = !ia.zeros & mask(w);
            let mb = !ib.zeros & mask(w);
            if ma & mb == 0 {
                for (h, l, mh, ml) in [(a, b, ma, mb), (b, a, mb, ma)] {
                    let cut = 128 - ml.leading_zeros();
                    if cut > 0 && cut < w as u32 && (mh & mask_u(cut)) == 0 {
                        let hi = self.extract(h, cut as u8, w - cut as u8);
                        let lo = self.extract(l, 0, cut as u8);
                        return self.concat(hi, lo);
                    }
                }
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(y);
            if n.op == Op::Or {
                if n.a == x || n.b == x {
                    return y;
                }
                if self.is_not_of(x, n.a) || self.is_not_of(x, n.b) {
                    return self.cst(mask(w), w);
                }
            }
            if n.op == Op::And {
                if n.a == x || n.b == x {
                    return x;
                }
                // x | (!x & z) = x | z
                if self.is_not_of(x, n.a) {
                    return self.or(x, n.b);
                }
                if self.is_not_of(x, n.b) {
                    return self.or(x, n.a);
                }
            }
            if n.op == Op::Not {
                let nn = self.n(n.a);
                if nn.op == Op::Or {
                    // x | !(x | z) = x | !z
                    if nn.a == x {
                        let nz = self.not(nn.b);
                        return self.or(x, nz);
                    }
                    if nn.b == x {
                        let nz = self.not(nn.a);
                        return self.or(x, nz);
                    }
                }
                if nn.op == Op::And && (nn.a == x || nn.b == x) {
                    return self.cst(mask(w), w);
                }
            }
        }
        // (p & c) | (p & !c) = p ; (p & c) | (p & d) = p & (c | d)
        if w == 1 {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::And && nb.op == Op::And {
                for (p, c) in [(na.a, na.b), (na.b, na.a)] {
                    for (q, d) in [(nb.a, nb.b), (nb.b, nb.a)] {
                        if p == q {
                            let o = self.or(c, d);
                            return self.and(p, o);
                        }
                    }
                }
            }
        }
        self.mk(Op::Or, w, a, b, 0, 0)
    }

    pub fn xor(&mut self, a: T, b: T) -> T {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(k) = self.as_const(x) {
                if k == 0 {
                    return y;
                }
                if k == mask(w) {
                    return self.not(y);
                }
                let n = self.n(y);
                if n.op == Op::Const {
                    return self.cst(k ^ n.k, w);
                }
                if n.op == Op::Xor {
                    if let Some(k2) = self.as_const(n.a) {
                        let c = self.cst(k ^ k2, w);
                        return self.xor(n.b, c);
                    }
                    if let Some(k2) = self.as_const(n.b) {
                        let c = self.cst(k ^ k2, w);
                        return self.xor(n.a, c);
                    }
                }
                if n.op == Op::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                    let p = self.xor(n.b, x);
                    let q = self.xor(n.c, x);
                    return self.ite(n.a, p, q);
                }
            }
        }
        if self.is_not_of(a, b) {
            return self.cst(mask(w), w);
        }
        // Not outside.
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(x);
            if n.op == Op::Not {
                let z = self.xor(n.a, y);
                return self.not(z);
            }
        }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }

    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        // Constant second.
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(kb) = self.as_const(b) {
            if let Some(ka) = self.as_const(a) {
                return self.cst(ka.wrapping_add(kb), w);
            }
            if kb == 0 {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::Add {
                if let Some(k2) = self.as_const(n.b) {
                    let c = self.cst(kb.wrapping_add(k2), w);
                    return self.add(n.a, c);
                }
            }
            if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) {
                if let Some(&r) = self.bin_memo.get(&(Op::Add, a, b)) {
                    return r;
                }
                let p = self.add(n.b, b);
                let q = self.add(n.c, b);
                let r = self.ite(n.a, p, q);
                self.bin_memo.insert((Op::Add, a, b), r);
                return r;
            }
            if n.op == Op::ZExt {
                // zext(x) + k stays narrow when it cannot overflow the narrow width.
                let wi = self.w(n.a);
                let ia = self.info[n.a as usize];
                if kb <= mask(wi) && ia.hi + kb <= mask(wi) {
                    let c = self.cst(kb, wi);
                    let s = self.add(n.a, c);
                    return self.zext(s, w);
                }
                // zext(x + k1) + k2, k1 + k2 == 0 (decrement after increment and vice versa)
                let inner = self.n(n.a);
                if inner.op == Op::Add {
                    if let Some(k1) = self.as_const(inner.b) {
                        let neg = kb.wrapping_neg() & mask(w);
                        if neg <= mask(wi) && ia.lo >= neg {
                            let c = self.cst(k1.wrapping_sub(neg), wi);
                            let s = self.add(inner.a, c);
                            return self.zext(s, w);
                        }
                    }
                }
                // zext(x) - k with x >= k
                let neg = kb.wrapping_neg() & mask(w);
                if neg <= mask(wi) && ia.lo >= neg {
                    let c = self.cst(0u128.wrapping_sub(neg), wi);
                    let s = self.add(n.a, c);
                    return self.zext(s, w);
                }
            }
            return self.mk(Op::Add, w, a, b, 0, 0);
        }
        // Pull constants out.
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Add && self.as_const(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add && self.as_const(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // (x - y) + y
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, a, b, 0, 0)
    }

    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let z = self.cst(0, w);
        self.sub(z, a)
    }

    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.cst(0, w);
        }
        if let Some(kb) = self.as_const(b) {
            let c = self.cst(0u128.wrapping_sub(kb), w);
            return self.add(a, c);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Add {
            if let Some(_k) = self.as_const(nb.b) {
                let d = self.sub(a, nb.a);
                return self.sub(d, nb.b);
            }
        }
        if na.op == Op::Add {
            if self.as_const(na.b).is_some() {
                let d = self.sub(na.a, b);
                return self.add(d, na.b);
            }
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if nb.op == Op::Ite && self.as_const(nb.b).is_some() && self.as_const(nb.c).is_some() && self.as_const(a).is_some() {
            let p = self.sub(a, nb.b);
            let q = self.sub(a, nb.c);
            return self.ite(nb.a, p, q);
        }
        // Narrow when operands are both zero-extended and no borrow is possible.
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) && self.info[a as usize].lo >= self.info[b as usize].hi {
            let s = self.sub(na.a, nb.a);
            return self.zext(s, w);
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }

    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(kb) = self.as_const(b) {
            if let Some(ka) = self.as_const(a) {
                return self.cst(ka.wrapping_mul(kb), w);
            }
            if kb == 0 {
                return b;
            }
            if kb == 1 {
                return a;
            }
            if kb.is_power_of_two() {
                let s = self.cst(kb.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
            let n = self.n(a);
            if n.op == Op::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                let p = self.mul(n.b, b);
                let q = self.mul(n.c, b);
                return self.ite(n.a, p, q);
            }
            return self.mk(Op::Mul, w, a, b, 0, 0);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, a, b, 0, 0)
    }

    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(kb) = self.as_const(b) {
            if let Some(ka) = self.as_const(a) {
                if kb != 0 {
                    return self.cst(ka / kb, w);
                }
            }
            if kb != 0 && kb.is_power_of_two() {
                let s = self.cst(kb.trailing_zeros() as u128, w);
                return self.lshr(a, s);
            }
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }

    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(kb) = self.as_const(b) {
            if let Some(ka) = self.as_const(a) {
                if kb != 0 {
                    return self.cst(ka % kb, w);
                }
            }
            if kb != 0 && kb.is_power_of_two() {
                let s = self.cst(kb - 1, w);
                return self.and(a, s);
            }
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }

    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.cst(0, w);
            }
            let n = self.n(a);
            match n.op {
                Op::Const => return self.cst(n.k << s, w),
                Op::Shl => {
                    if let Some(s2) = self.as_const(n.b) {
                        let c = self.cst(s + s2, w);
                        return self.shl(n.a, c);
                    }
                }
                Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                    let p = self.shl(n.b, b);
                    let q = self.shl(n.c, b);
                    return self.ite(n.a, p, q);
                }
                _ => {}
            }
            return self.mk(Op::Shl, w, a, b, 0, 0);
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }

    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.cst(0, w);
            }
            let e = self.extract(a, s as u8, w - s as u8);
            return self.zext(e, w);
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }

    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 {
                return a;
            }
            let s = s.min(w as u128 - 1);
            let e = self.extract(a, s as u8, w - s as u8);
            return self.sext(e, w);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }

    pub fn zext(&mut self, a: T, w: u8) -> T {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        debug_assert!(n.w < w);
        match n.op {
            Op::Const => self.cst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if n.w > 1 && (self.as_const(n.b).is_some() && self.as_const(n.c).is_some()) => {
                let p = self.zext(n.b, w);
                let q = self.zext(n.c, w);
                self.ite(n.a, p, q)
            }
            _ => self.mk(Op::ZExt, w, a, 0, 0, 0),
        }
    }

    pub fn sext(&mut self, a: T, w: u8) -> T {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if n.op == Op::Const {
            return self.cst(sext(n.k, n.w) as u128, w);
        }
        let i = self.info[a as usize];
        if i.zeros & (1u128 << (n.w - 1)) != 0 {
            return self.zext(a, w);
        }
        if n.w == 1 {
            let p = self.cst(mask(w), w);
            let q = self.cst(0, w);
            return self.ite(a, p, q);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }

    /// Extracts `w` bits starting at bit `lo`.
    pub fn extract(&mut self, a: T, lo: u8, w: u8) -> T {
        let n = self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo as u32 + w as u32 <= n.w as u32, "extract {} {} of {}", lo, w, n.w);
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            _ => {}
        }
        let i = self.info[a as usize];
        let m = mask(w) << lo;
        if (i.zeros | i.ones) & m == m {
            return self.cst(i.ones >> lo, w);
        }
        if let Some(&t) = self.ex_memo.get(&(a, lo, w)) {
            return t;
        }
        let r = match n.op {
            Op::Extract => self.extract(n.a, n.k as u8 + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo + w <= wb {
                    self.extract(n.b, lo, w)
                } else if lo >= wb {
                    self.extract(n.a, lo - wb, w)
                } else {
                    let l = self.extract(n.b, lo, wb - lo);
                    let h = self.extract(n.a, 0, w - (wb - lo));
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let wa = self.w(n.a);
                if lo >= wa {
                    self.cst(0, w)
                } else if lo + w <= wa {
                    self.extract(n.a, lo, w)
                } else {
                    let e = self.extract(n.a, lo, wa - lo);
                    self.zext(e, w)
                }
            }
            Op::SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            Op::Ite => {
                let p = self.extract(n.b, lo, w);
                let q = self.extract(n.c, lo, w);
                self.ite(n.a, p, q)
            }
            Op::Not => {
                let p = self.extract(n.a, lo, w);
                self.not(p)
            }
            Op::And => {
                let p = self.extract(n.a, lo, w);
                let q = self.extract(n.b, lo, w);
                self.and(p, q)
            }
            Op::Or => {
                let p = self.extract(n.a, lo, w);
                let q = self.extract(n.b, lo, w);
                self.or(p, q)
            }
            Op::Xor => {
                let p = self.extract(n.a, lo, w);
                let q = self.extract(n.b, lo, w);
                self.xor(p, q)
            }
            Op::Add if lo == 0 => {
                let p = self.extract(n.a, lo, w);
                let q = self.extract(n.b, lo, w);
                self.add(p, q)
            }
            Op::Sub if lo == 0 => {
                let p = self.extract(n.a, lo, w);
                let q = self.extract(n.b, lo, w);
                self.sub(p, q)
            }
            Op::Shl if self.as_const(n.b).is_some() => {
                let s = self.as_const(n.b).unwrap() as u8;
                if lo >= s {
                    self.extract(n.a, lo - s, w)
                } else if lo + w <= s {
                    self.cst(0, w)
                } else {
                    let z = self.cst(0, s - lo);
                    let h = self.extract(n.a, 0, lo + w - s);
                    self.concat(h, z)
                }
            }
            _ => self.mk(Op::Extract, w, a, 0, 0, lo as u128),
        };
        self.ex_memo.insert((a, lo, w), r);
        r
    }

    /// `h` is the high part.
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = nh.w + nl.w;
        if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(l)) {
            return self.cst((a << nl.w) | b, w);
        }
        if self.as_const(h) == Some(0) {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nl.k + nl.w as u128 == nh.k {
            return self.extract(nh.a, nl.k as u8, w);
        }
        // extract(x, lo..) over low part = extract(x, 0..lo) that simplified to x's own sub-term
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let p = self.concat(nh.b, nl.b);
            let q = self.concat(nh.c, nl.c);
            return self.ite(nh.a, p, q);
        }
        if nh.op == Op::Ite && self.as_const(l).is_some() && self.as_const(nh.b).is_some() && self.as_const(nh.c).is_some() {
            let p = self.concat(nh.b, l);
            let q = self.concat(nh.c, l);
            return self.ite(nh.a, p, q);
        }
        if nh.op == Op::ZExt {
            let inner = self.concat(nh.a, l);
            return self.zext(inner, w);
        }
        if nl.op == Op::Concat && nh.op == Op::Extract {
            // keep right-nested form: concat(h, concat(a, b)); try to join h and a
            let na = self.n(nl.a);
            if na.op == Op::Extract && na.a == nh.a && na.k + na.w as u128 == nh.k {
                let j = self.concat(h, nl.a);
                return self.concat(j, nl.b);
            }
        }
        if nh.op == Op::Not && nl.op == Op::Not {
            let c = self.concat(nh.a, nl.a);
            return self.not(c);
        }
        self.mk(Op::Concat, w, h, l, 0, 0)
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == 1 {
            return a;
        }
        if c == 0 {
            return b;
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "ite width");
        if w == 1 {
            if a == 1 {
                return self.or(c, b);
            }
            if a == 0 {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == 0 {
                return self.and(c, a);
            }
            if b == 1 {
                let n = self.not(c);
                return self.or(n, a);
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
            if self.is_not_of(a, b) {
                // c ? a : !a  ==  !(c ^ a)
                let x = self.xor(c, a);
                return self.not(x);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // c ? a : (d ? a : e) = (c|d) ? a : e
        if nb.op == Op::Ite && nb.b == a {
            let o = self.or(c, nb.a);
            return self.ite(o, a, nb.c);
        }
        if nb.op == Op::Ite && nb.c == a {
            let nd = self.not(nb.a);
            let o = self.or(c, nd);
            return self.ite(o, a, nb.b);
        }
        if na.op == Op::Ite && na.c == b {
            let o = self.and(c, na.a);
            return self.ite(o, na.b, b);
        }
        if na.op == Op::Ite && na.b == b {
            let nd = self.not(na.a);
            let o = self.and(c, nd);
            return self.ite(o, na.c, b);
        }
        // c == (x == k): c ? k : x  = x
        if nc.op == Op::Eq && ((nc.a == a && nc.b == b) || (nc.a == b && nc.b == a)) {
            return b;
        }
        // Keep zero-extension outside.
        if w > 1 {
            let za = if na.op == Op::ZExt { Some(self.w(na.a)) } else { None };
            let zb = if nb.op == Op::ZExt { Some(self.w(nb.a)) } else { None };
            match (za, zb) {
                (Some(x), Some(y)) => {
                    let m = x.max(y);
                    if m < w {
                        let p = self.extract(a, 0, m);
                        let q = self.extract(b, 0, m);
                        let r = self.ite(c, p, q);
                        return self.zext(r, w);
                    }
                }
                (Some(x), None) => {
                    if let Some(k) = self.as_const(b) {
                        if k <= mask(x) {
                            let q = self.cst(k, x);
                            let r = self.ite(c, na.a, q);
                            return self.zext(r, w);
                        }
                    }
                }
                (None, Some(y)) => {
                    if let Some(k) = self.as_const(a) {
                        if k <= mask(y) {
                            let p = self.cst(k, y);
                            let r = self.ite(c, p, nb.a);
                            return self.zext(r, w);
                        }
                    }
                }
                _ => {}
            }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return 1;
        }
        debug_assert_eq!(self.w(a), self.w(b), "eq width");
        // Constant second.
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.lo > ib.hi || ib.lo > ia.hi {
            return 0;
        }
        if ia.ones & ib.zeros != 0 || ia.zeros & ib.ones != 0 {
            return 0;
        }
        if let Some(&t) = self.eq_memo.get(&(a, b)) {
            return t;
        }
        let r = self.eq_inner(a, b);
        self.eq_memo.insert((a, b), r);
        r
    }

    fn eq_inner(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(kb) = self.as_const(b) {
            if let Some(ka) = self.as_const(a) {
                return (ka == kb) as T;
            }
            if w == 1 {
                return if kb == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::Ite => {
                    let p = self.eq(na.b, b);
                    let q = self.eq(na.c, b);
                    if self.as_const(p).is_some() || self.as_const(q).is_some() {
                        return self.ite(na.a, p, q);
                    }
                }
                Op::ZExt => {
                    let wa = self.w(na.a);
                    if kb > mask(wa) {
                        return 0;
                    }
                    let c = self.cst(kb, wa);
                    return self.eq(na.a, c);
                }
                Op::Not => {
                    let c = self.cst(!kb, w);
                    return self.eq(na.a, c);
                }
                Op::Xor => {
                    for (x, y) in [(na.a, na.b), (na.b, na.a)] {
                        if let Some(k) = self.as_const(x) {
                            let c = self.cst(k ^ kb, w);
                            return self.eq(y, c);
                        }
                    }
                }
                Op::Add => {
                    if let Some(k) = self.as_const(na.b) {
                        let c = self.cst(kb.wrapping_sub(k), w);
                        return self.eq(na.a, c);
                    }
                }
                Op::Sub => {
                    if kb == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(k) = self.as_const(na.a) {
                        let c = self.cst(k.wrapping_sub(kb), w);
                        return self.eq(na.b, c);
                    }
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let wh = self.w(na.a);
                    let ch = self.cst(kb >> wl, wh);
                    let cl = self.cst(kb, wl);
                    let h = self.eq(na.a, ch);
                    if h == 0 {
                        return 0;
                    }
                    let l = self.eq(na.b, cl);
                    return self.and(h, l);
                }
                Op::Shl => {
                    if let Some(s) = self.as_const(na.b) {
                        let s = s as u8;
                        // low bits were already known equal
                        let e = self.extract(na.a, 0, w - s);
                        let c = self.cst(kb >> s, w - s);
                        return self.eq(e, c);
                    }
                }
                Op::SExt => {
                    let wa = self.w(na.a);
                    let low = kb & mask(wa);
                    if (sext(low, wa) as u128) & mask(w) != kb {
                        return 0;
                    }
                    let c = self.cst(low, wa);
                    return self.eq(na.a, c);
                }
                _ => {}
            }
            return self.mk(Op::Eq, 1, a, b, 0, 0);
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        match (na.op, nb.op) {
            (Op::ZExt, Op::ZExt) => {
                let m = self.w(na.a).max(self.w(nb.a));
                if m < w {
                    let p = self.extract(a, 0, m);
                    let q = self.extract(b, 0, m);
                    return self.eq(p, q);
                }
            }
            (Op::Not, Op::Not) => return self.eq(na.a, nb.a),
            (Op::Shl, Op::Shl) if na.b == nb.b && self.as_const(na.b).is_some() => {
                let s = self.as_const(na.b).unwrap() as u8;
                let p = self.extract(na.a, 0, w - s);
                let q = self.extract(nb.a, 0, w - s);
                return self.eq(p, q);
            }
            (Op::Concat, Op::Concat) if self.w(na.b) == self.w(nb.b) => {
                let h = self.eq(na.a, nb.a);
                if h == 0 {
                    return 0;
                }
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            _ => {}
        }
        if na.op == Op::Add {
            if let Some(k) = self.as_const(na.b) {
                if na.a == b {
                    return (k == 0) as T;
                }
                if nb.op == Op::Add && self.as_const(nb.b).is_some() {
                    let kb = self.as_const(nb.b).unwrap();
                    if na.a == nb.a {
                        return (k == kb) as T;
                    }
                    let c = self.cst(k.wrapping_sub(kb), w);
                    let l = self.add(na.a, c);
                    return self.eq(l, nb.a);
                }
            }
        }
        if nb.op == Op::Add && nb.a == a {
            if let Some(k) = self.as_const(nb.b) {
                return (k == 0) as T;
            }
        }
        // Ites with the same condition.
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let p = self.eq(na.b, nb.b);
            let q = self.eq(na.c, nb.c);
            return self.ite(na.a, p, q);
        }
        for (n, o) in [(na, b), (nb, a)] {
            if n.op == Op::Ite {
                if n.b == o {
                    let q = self.eq(n.c, o);
                    return self.or(n.a, q);
                }
                if n.c == o {
                    let q = self.eq(n.b, o);
                    let nc = self.not(n.a);
                    return self.or(nc, q);
                }
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }

    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return 0;
        }
        debug_assert_eq!(self.w(a), self.w(b), "ult width");
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi < ib.lo {
            return 1;
        }
        if ia.lo >= ib.hi {
            return 0;
        }
        if let Some(&t) = self.ult_memo.get(&(a, b)) {
            return t;
        }
        let r = self.ult_inner(a, b);
        self.ult_memo.insert((a, b), r);
        r
    }

    fn ult_inner(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if let (Op::ZExt, Op::ZExt) = (na.op, nb.op) {
            let m = self.w(na.a).max(self.w(nb.a));
            if m < w {
                let p = self.extract(a, 0, m);
                let q = self.extract(b, 0, m);
                return self.ult(p, q);
            }
        }
        if let Some(kb) = self.as_const(b) {
            if kb == 1 {
                let z = self.cst(0, w);
                return self.eq(a, z);
            }
            if na.op == Op::ZExt {
                let wa = self.w(na.a);
                // kb <= mask(wa) because otherwise the range check would have decided.
                let c = self.cst(kb, wa);
                return self.ult(na.a, c);
            }
            let ia = self.info[a as usize];
            if ia.hi == kb {
                let e = self.eq(a, b);
                return self.not(e);
            }
            if na.op == Op::Ite {
                let p = self.ult(na.b, b);
                let q = self.ult(na.c, b);
                if self.as_const(p).is_some() || self.as_const(q).is_some() {
                    return self.ite(na.a, p, q);
                }
            }
            if na.op == Op::Shl {
                if let Some(s) = self.as_const(na.b) {
                    // (x << s) < k  <=>  x[0..w-s] < ceil(k / 2^s)
                    let s = s as u8;
                    let c = (kb >> s) + ((kb & mask(s) != 0) as u128);
                    if c <= mask(w - s) {
                        let e = self.extract(na.a, 0, w - s);
                        let cc = self.cst(c, w - s);
                        return self.ult(e, cc);
                    }
                }
            }
        }
        if let Some(ka) = self.as_const(a) {
            if ka == 0 {
                let z = self.eq(b, a);
                return self.not(z);
            }
            let ib = self.info[b as usize];
            if ib.lo == ka {
                let e = self.eq(a, b);
                return self.not(e);
            }
            if nb.op == Op::ZExt {
                let wb = self.w(nb.a);
                if ka > mask(wb) {
                    return 0;
                }
                let c = self.cst(ka, wb);
                return self.ult(c, nb.a);
            }
            if nb.op == Op::Ite {
                let p = self.ult(a, nb.b);
                let q = self.ult(a, nb.c);
                if self.as_const(p).is_some() || self.as_const(q).is_some() {
                    return self.ite(nb.a, p, q);
                }
            }
        }
        // Trim common high zero bits.
        let h = 128 - self.info[a as usize].hi.max(self.info[b as usize].hi).leading_zeros();
        if h > 0 && (h as u8) < w && (h as u8) + 8 <= w {
            let p = self.extract(a, 0, h as u8);
            let q = self.extract(b, 0, h as u8);
            return self.ult(p, q);
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }

    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }

    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return 0;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return (sext(x, w) < sext(y, w)) as T;
        }
        let s = 1u128 << (w - 1);
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let (za, zb) = (ia.zeros & s != 0, ib.zeros & s != 0);
        let (oa, ob) = (ia.ones & s != 0, ib.ones & s != 0);
        if (za && zb) || (oa && ob) {
            return self.ult(a, b);
        }
        if za && ob {
            return 0;
        }
        if oa && zb {
            return 1;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && self.as_const(b).is_some() {
            let p = self.slt(na.b, b);
            let q = self.slt(na.c, b);
            if self.as_const(p).is_some() || self.as_const(q).is_some() {
                return self.ite(na.a, p, q);
            }
        }
        if nb.op == Op::Ite && self.as_const(a).is_some() {
            let p = self.slt(a, nb.b);
            let q = self.slt(a, nb.c);
            if self.as_const(p).is_some() || self.as_const(q).is_some() {
                return self.ite(nb.a, p, q);
            }
        }
        // x < 0: sign bit.
        if self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
}

fn mask_u(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

/// Incremental concrete evaluation of terms under an assignment of variables.
pub struct Eval {
    pub model: Vec<u128>,
    cache: Vec<u128>,
    known: Vec<bool>,
}

impl Eval {
    pub fn new(model: Vec<u128>) -> Self {
        Eval { model, cache: Vec::new(), known: Vec::new() }
    }

    pub fn eval(&mut self, ts: &Terms, t: T) -> u128 {
        if self.known.len() < ts.nodes.len() {
            self.known.resize(ts.nodes.len(), false);
            self.cache.resize(ts.nodes.len(), 0);
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.known[xi] {
                stack.pop();
                continue;
            }
            let n = ts.nodes[xi];
            let deps: &[T] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for &d in deps {
                if !self.known[d as usize] {
                    stack.push(d);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let v = self.step(ts, &n);
            self.cache[xi] = v;
            self.known[xi] = true;
        }
        self.cache[t as usize]
    }

    fn step(&self, ts: &Terms, n: &Node) -> u128 {
        let m = mask(n.w);
        let g = |x: T| self.cache[x as usize];
        let (a, b) = (g(n.a), g(n.b));
        let wa = ts.w(n.a);
        let v = match n.op {
            Op::Const => n.k,
            Op::Var => self.model.get(n.k as usize).copied().unwrap_or(0),
            Op::Not => !a,
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::Shl => {
                if b >= n.w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= n.w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => (sext(a, n.w) >> b.min(n.w as u128 - 1)) as u128,
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sext(a, wa) < sext(b, wa)) as u128,
            Op::Ite => {
                if a == 1 {
                    b
                } else {
                    g(n.c)
                }
            }
            Op::Concat => (a << ts.w(n.b)) | b,
            Op::Extract => a >> n.k,
            Op::ZExt => a,
            Op::SExt => sext(a, wa) as u128,
        };
        v & m
    }
}

pub fn children(n: &Node) -> ([T; 3], usize) {
    match n.op {
        Op::Const | Op::Var => ([0, 0, 0], 0),
        Op::Not | Op::Extract | Op::ZExt | Op::SExt => ([n.a, 0, 0], 1),
        Op::Ite => ([n.a, n.b, n.c], 3),
        _ => ([n.a, n.b, 0], 2),
    }
}
