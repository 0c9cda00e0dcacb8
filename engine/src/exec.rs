//! Symbolic execution of LLVM IR with state merging.

use crate::blast::*;
use crate::ir::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub type Obj = u32;
pub const UNINIT: T = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct B {
    pub t: T,
    pub i: u8,
}
const UB: B = B { t: UNINIT, i: 0 };

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    U,
    S(T),
    A(Rc<Vec<V>>),
}

pub struct Path {
    pub parent: Option<Rc<Path>>,
    pub cond: T,
    pub depth: u32,
    pub full: T,
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub uid: u32,
    pub allocas: Vec<Obj>,
    pub catch: bool,
}

pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Rc<HashMap<Obj, Rc<Vec<B>>>>,
    pub path: Rc<Path>,
}

impl Clone for State {
    fn clone(&self) -> Self {
        State { frames: self.frames.clone(), mem: self.mem.clone(), path: self.path.clone() }
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    Stack(String),
    Heap(String),
    Global(String),
    Func(String),
}

pub struct ObjInfo {
    pub kind: Kind,
    pub size: u64,
    pub init: Option<Rc<Vec<B>>>,
    pub constant: bool,
}

#[derive(Clone, Debug)]
pub struct Obl {
    pub cond: T,
    pub label: String,
    pub kind: &'static str,
}

pub struct Cfg {
    pub max_visits: u32,
    pub max_alloc: u64,
    pub sat_limit: Duration,
    pub deadline: Instant,
    pub trace: bool,
    pub check_backedges: bool,
    pub min_visits: u32,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ts: Terms,
    pub bl: Blaster,
    funcs: HashMap<String, Rc<Func>>,
    pub objs: Vec<ObjInfo>,
    gobj: HashMap<String, Obj>,
    uids: HashMap<(u32, u32, u32, u32), u32>,
    stack_objs: HashMap<(u32, u32), Obj>,
    heap_objs: HashMap<(u32, u32, u32, u32), Obj>,
    tag_obj: Option<Obj>,
    resolve_memo: HashMap<T, Rc<Vec<(T, Obj, T)>>>,
    work: BTreeMap<Vec<u64>, State>,
    pub gacc: T,
    pub obls: Vec<Obl>,
    pub covers: Vec<(String, T)>,
    pub splits: Vec<(T, u64)>,
    pub inputs: HashMap<u64, T>,
    pub models: Vec<Eval>,
    pub stats: Stats,
    pub fstats: Stats,
    pub steps: u64,
    pub merges: u64,
    pub forks: u64,
    pub cfg: Cfg,
    visits: HashMap<(u32, u32), u32>,
    pub executed: BTreeSet<String>,
    pub dbg_seen: HashSet<u32>,
    pub prof: HashMap<String, u64>,
    pub finished: T,
    mem_live: HashMap<(u32, u32, u32), Rc<Vec<bool>>>,
}

type R<X> = Result<X, String>;

enum Flow {
    Continue,
    Stop,
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Self {
        Exec {
            m,
            ts: Terms::new(),
            bl: Blaster::new(),
            funcs: HashMap::new(),
            objs: Vec::new(),
            gobj: HashMap::new(),
            uids: HashMap::new(),
            stack_objs: HashMap::new(),
            heap_objs: HashMap::new(),
            tag_obj: None,
            resolve_memo: HashMap::new(),
            work: BTreeMap::new(),
            gacc: 1,
            obls: Vec::new(),
            covers: Vec::new(),
            splits: Vec::new(),
            inputs: HashMap::new(),
            models: Vec::new(),
            stats: Stats::default(),
            fstats: Stats::default(),
            steps: 0,
            merges: 0,
            forks: 0,
            cfg,
            visits: HashMap::new(),
            executed: BTreeSet::new(),
            dbg_seen: HashSet::new(),
            prof: HashMap::new(),
            finished: 0,
            mem_live: HashMap::new(),
        }
    }

    fn func(&mut self, name: &str) -> R<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(f.clone());
        }
        if let Some(a) = self.m.aliases.get(name).cloned() {
            return self.func(&a);
        }
        let id = self.funcs.len() as u32;
        let f = Rc::new(self.m.parse_func(name, id)?);
        self.executed.insert(if f.demangled.is_empty() { f.name.clone() } else { f.demangled.clone() });
        self.funcs.insert(name.to_string(), f.clone());
        Ok(f)
    }

    fn new_obj(&mut self, kind: Kind, size: u64) -> Obj {
        self.objs.push(ObjInfo { kind, size, init: None, constant: false });
        self.objs.len() as Obj - 1
    }
    fn addr(&mut self, o: Obj, off: u64) -> T {
        // Objects start in the middle of their own region, so that an address slightly before an
        // object does not look like one of its neighbour.
        let a = ((o as u128 + 1) << 32) + (1 << 31) + off as u128;
        self.ts.cst(a, 64)
    }

    fn global_addr(&mut self, name: &str) -> R<T> {
        let mut name = name.to_string();
        while let Some(n) = self.m.aliases.get(&name) {
            name = n.clone();
        }
        if let Some(&o) = self.gobj.get(&name) {
            return Ok(self.addr(o, 0));
        }
        if let Some(g) = self.m.globals.get(&name) {
            let size = g.ty.size();
            let o = self.new_obj(Kind::Global(name.clone()), size);
            self.gobj.insert(name.clone(), o);
            let m = self.m;
            let g = &m.globals[&name];
            let mut bytes = vec![UB; size as usize];
            if let Some(init) = &g.init {
                self.init_bytes(&g.ty, init, &mut bytes, 0)?;
            }
            self.objs[o as usize].init = Some(Rc::new(bytes));
            self.objs[o as usize].constant = g.constant;
            return Ok(self.addr(o, 0));
        }
        if self.m.funcs.contains_key(&name) || self.m.decls.contains_key(&name) {
            let o = self.new_obj(Kind::Func(name.clone()), 0);
            self.gobj.insert(name, o);
            return Ok(self.addr(o, 0));
        }
        Err(format!("unknown global {}", name))
    }

    fn init_bytes(&mut self, ty: &Ty, c: &C, out: &mut [B], off: usize) -> R<()> {
        match c {
            C::Bytes(b) => {
                for (k, &x) in b.iter().enumerate() {
                    let t = self.ts.cst(x as u128, 8);
                    out[off + k] = B { t, i: 0 };
                }
            }
            C::Agg(f) => {
                for (k, (t, v)) in f.iter().enumerate() {
                    let fo = ty.field_off(k) as usize;
                    self.init_bytes(t, v, out, off + fo)?;
                }
            }
            C::Zero => {
                let z = self.ts.cst(0, 8);
                for k in 0..ty.size() as usize {
                    out[off + k] = B { t: z, i: 0 };
                }
            }
            C::Undef => {}
            _ => {
                let v = self.const_val(ty, c)?;
                if let V::S(t) = v {
                    let n = ty.size() as usize;
                    let t = self.widen(t, n);
                    for k in 0..n {
                        out[off + k] = B { t, i: k as u8 };
                    }
                }
            }
        }
        Ok(())
    }

    fn widen(&mut self, t: T, bytes: usize) -> T {
        let w = self.ts.w(t) as usize;
        if w < bytes * 8 {
            self.ts.zext(t, (bytes * 8) as u8)
        } else {
            t
        }
    }

    fn const_val(&mut self, ty: &Ty, c: &C) -> R<V> {
        Ok(match c {
            C::Int(k) => {
                let w = ty.bits().ok_or("constant of a non-scalar type")?;
                if w > 128 {
                    return Err(format!("integer width {}", w));
                }
                V::S(self.ts.cst(*k, w as u8))
            }
            C::Null => V::S(self.ts.cst(0, 64)),
            C::Undef => V::U,
            C::Zero => match ty {
                Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                    let mut v = Vec::new();
                    for k in 0..ty.nfields() {
                        v.push(self.const_val(&ty.field(k), &C::Zero)?);
                    }
                    V::A(Rc::new(v))
                }
                _ => V::S(self.ts.cst(0, ty.bits().ok_or("zero")? as u8)),
            },
            C::Global(n) => V::S(self.global_addr(n)?),
            C::Agg(f) => {
                let mut v = Vec::new();
                for (t, x) in f {
                    v.push(self.const_val(t, x)?);
                }
                V::A(Rc::new(v))
            }
            C::Off(b, k) => match self.const_val(&Ty::Ptr, b)? {
                V::S(t) => {
                    let c = self.ts.cst(*k as u128, 64);
                    V::S(self.ts.add(t, c))
                }
                v => v,
            },
            C::Cast(b) => {
                // inttoptr / ptrtoint / trunc of a constant
                let inner = match **b {
                    C::Int(_) => self.const_val(&Ty::Int(64), b)?,
                    _ => self.const_val(&Ty::Ptr, b)?,
                };
                match (inner, ty.bits()) {
                    (V::S(t), Some(w)) => {
                        let cw = self.ts.w(t) as u32;
                        if cw == w {
                            V::S(t)
                        } else if cw > w {
                            V::S(self.ts.extract(t, 0, w as u8))
                        } else {
                            V::S(self.ts.zext(t, w as u8))
                        }
                    }
                    (v, _) => v,
                }
            }
            C::Bytes(b) => {
                let v = b.iter().map(|&x| V::S(self.ts.cst(x as u128, 8))).collect();
                V::A(Rc::new(v))
            }
            C::Bad(s) => return Err(format!("constant expression {}", s)),
        })
    }

    fn opd(&mut self, f: &Frame, ty: &Ty, o: &Opd) -> R<V> {
        match o {
            Opd::Reg(r) => Ok(f.regs[*r as usize].clone()),
            Opd::C(c) => self.const_val(ty, c),
        }
    }
    fn scalar(&mut self, f: &Frame, ty: &Ty, o: &Opd) -> R<T> {
        match self.opd(f, ty, o)? {
            V::S(t) => Ok(t),
            V::U => {
                let w = ty.bits().ok_or(format!("scalar expected: {:?}", ty))?;
                Ok(self.ts.cst(0, w as u8))
            }
            V::A(_) => Err("scalar expected".into()),
        }
    }

    // -------------------------------------------------------------------------------------
    // Bytes

    pub fn bytes_to_term(&mut self, b: &[B]) -> T {
        let mut k = b.len();
        let mut acc: Option<T> = None;
        // From the high end.
        while k > 0 {
            let e = k;
            let t = b[k - 1].t;
            k -= 1;
            if t != UNINIT {
                while k > 0 && b[k - 1].t == t && b[k - 1].i + 1 == b[k].i {
                    k -= 1;
                }
            } else {
                while k > 0 && b[k - 1].t == UNINIT {
                    k -= 1;
                }
            }
            let n = (e - k) as u8;
            let p = if t == UNINIT { self.ts.cst(0, 8 * n) } else { self.ts.extract(t, 8 * b[k].i, 8 * n) };
            acc = Some(match acc {
                None => p,
                Some(h) => self.ts.concat(h, p),
            });
        }
        acc.unwrap()
    }

    fn term_bytes(&mut self, t: T) -> Vec<B> {
        let n = (self.ts.w(t) as usize + 7) / 8;
        let t = self.widen(t, n);
        (0..n).map(|i| B { t, i: i as u8 }).collect()
    }

    fn run(b: &[B], p: usize) -> usize {
        let mut k = p + 1;
        if b[p].t == UNINIT {
            while k < b.len() && b[k].t == UNINIT {
                k += 1;
            }
        } else {
            while k < b.len() && b[k].t == b[p].t && b[k].i == b[k - 1].i + 1 {
                k += 1;
            }
        }
        k - p
    }

    /// `c ? a : b`
    pub fn mux_bytes(&mut self, c: T, a: &[B], b: &[B]) -> Vec<B> {
        debug_assert_eq!(a.len(), b.len());
        if c == 1 {
            return a.to_vec();
        }
        if c == 0 {
            return b.to_vec();
        }
        let mut out = Vec::with_capacity(a.len());
        let mut p = 0;
        while p < a.len() {
            if a[p] == b[p] || b[p].t == UNINIT {
                out.push(a[p]);
                p += 1;
                continue;
            }
            if a[p].t == UNINIT {
                out.push(b[p]);
                p += 1;
                continue;
            }
            let (ra, rb) = (Self::run(a, p), Self::run(b, p));
            let mut l = ra.max(rb).min(16);
            // Stop before uninitialized or equal bytes.
            let mut k = 1;
            while k < l {
                if a[p + k].t == UNINIT || b[p + k].t == UNINIT {
                    break;
                }
                k += 1;
            }
            l = k;
            let ta = self.bytes_to_term(&a[p..p + l]);
            let tb = self.bytes_to_term(&b[p..p + l]);
            let m = self.ts.ite(c, ta, tb);
            for i in 0..l {
                out.push(B { t: m, i: i as u8 });
            }
            p += l;
        }
        out
    }

    // -------------------------------------------------------------------------------------
    // Pointers

    pub fn resolve(&mut self, p: T) -> R<Rc<Vec<(T, Obj, T)>>> {
        if let Some(r) = self.resolve_memo.get(&p) {
            return Ok(r.clone());
        }
        let mut out: Vec<(T, Obj, T)> = Vec::new();
        let n = self.ts.n(p);
        const BASE: u128 = 1 << 32;
        match n.op {
            Op::Const => {
                if n.k >= BASE {
                    let o = (n.k >> 32) as u64 - 1;
                    let off = self.ts.cst((n.k & 0xffff_ffff).wrapping_sub(1 << 31) & mask(64), 64);
                    if (o as usize) < self.objs.len() {
                        out.push((1, o as Obj, off));
                    }
                }
            }
            Op::Ite => {
                let a = self.resolve(n.b)?;
                let b = self.resolve(n.c)?;
                let nc = self.ts.not(n.a);
                for (list, g) in [(a, n.a), (b, nc)] {
                    for &(c, o, off) in list.iter() {
                        let c2 = self.ts.and(g, c);
                        if c2 == 0 {
                            continue;
                        }
                        if let Some(e) = out.iter_mut().find(|e| e.1 == o) {
                            let no = self.ts.ite(c2, off, e.2);
                            let ng = self.ts.or(e.0, c2);
                            e.2 = no;
                            e.0 = ng;
                        } else {
                            out.push((c2, o, off));
                        }
                    }
                }
            }
            Op::Add => {
                let (mut pt, mut of) = (n.a, n.b);
                if let Some(k) = self.ts.as_const(n.b) {
                    if k >= BASE && k < (1 << 62) {
                        pt = n.b;
                        of = n.a;
                    }
                } else {
                    let ia = self.ts.info[n.a as usize];
                    let ib = self.ts.info[n.b as usize];
                    let pa = ia.lo >= BASE && ia.hi < (1 << 62);
                    let pb = ib.lo >= BASE && ib.hi < (1 << 62);
                    if pb && !pa {
                        pt = n.b;
                        of = n.a;
                    } else if !pa && !pb {
                        let qa = ia.hi >= BASE && ia.hi < (1 << 62);
                        if !qa {
                            pt = n.b;
                            of = n.a;
                        }
                    }
                }
                let r = match self.resolve(pt) {
                    Ok(r) if !r.is_empty() => r,
                    // Perhaps the other one is the pointer.
                    e => match self.resolve(of) {
                        Ok(r) if !r.is_empty() => {
                            std::mem::swap(&mut pt, &mut of);
                            r
                        }
                        _ => e?,
                    },
                };
                for &(c, o, off) in r.iter() {
                    let no = self.ts.add(off, of);
                    out.push((c, o, no));
                }
            }
            Op::Sub => {
                for &(c, o, off) in self.resolve(n.a)?.iter() {
                    let no = self.ts.sub(off, n.b);
                    out.push((c, o, no));
                }
            }
            Op::And if self.ts.info[p as usize].hi >= BASE => {
                // Aligned down: all objects start at multiples of 2 ** 31.
                let (m, p) = match (self.ts.as_const(n.a), self.ts.as_const(n.b)) {
                    (Some(k), _) => (k, n.b),
                    (_, Some(k)) => (k, n.a),
                    _ => return Err("pointer of an unexpected shape: and".into()),
                };
                let low = !m & mask(64);
                if n.w != 64 || low >= 1 << 16 || !(low + 1).is_power_of_two() {
                    return Err("pointer of an unexpected shape: and".into());
                }
                let m = self.ts.cst(m, 64);
                for &(c, o, off) in self.resolve(p)?.iter() {
                    let no = self.ts.and(off, m);
                    out.push((c, o, no));
                }
            }
            Op::ZExt => {
                // A small integer: dangling.
            }
            Op::Concat | Op::Extract => return Err(format!("pointer of an unexpected shape: {:?}", n)),
            _ => {
                let i = self.ts.info[p as usize];
                if i.hi >= BASE {
                    let (ch, k) = children(&n);
                    let sub: Vec<_> = ch[..k].iter().map(|&c| (self.ts.nodes[c as usize], self.ts.info[c as usize])).collect();
                    return Err(format!("pointer of an unexpected shape: {:?} of {:?}", n, sub));
                }
            }
        }
        let r = Rc::new(out);
        self.resolve_memo.insert(p, r.clone());
        Ok(r)
    }

    fn content(&self, st: &State, o: Obj) -> Option<Rc<Vec<B>>> {
        if let Some(c) = st.mem.get(&o) {
            return Some(c.clone());
        }
        self.objs[o as usize].init.clone()
    }

    /// Possible constant values of an offset such that `off + n <= size`.
    fn offsets(&self, off: T, n: u64, size: u64) -> Vec<u64> {
        if let Some(k) = self.ts.as_const(off) {
            if k + n as u128 <= size as u128 {
                return vec![k as u64];
            }
            return vec![];
        }
        if n > size {
            return vec![];
        }
        let i = self.ts.info[off as usize];
        let lo = i.lo.min(size as u128) as u64;
        let hi = i.hi.min((size - n) as u128) as u64;
        let mut v = Vec::new();
        let mut k = lo;
        while k <= hi {
            if (k as u128) & i.zeros == 0 && (!(k as u128)) & i.ones == 0 {
                v.push(k);
            }
            k += 1;
        }
        v
    }

    pub fn load_bytes(&mut self, st: &State, p: T, n: u64) -> R<Vec<B>> {
        let cands = self.resolve(p)?;
        let mut acc: Option<Vec<B>> = None;
        for &(c, o, off) in cands.iter() {
            let content = match self.content(st, o) {
                Some(c) => c,
                None => continue,
            };
            let offs = self.offsets(off, n, content.len() as u64);
            let single = offs.len() == 1;
            for k in offs {
                let e = if single {
                    1
                } else {
                    let kc = self.ts.cst(k as u128, 64);
                    self.ts.eq(off, kc)
                };
                if e == 0 {
                    continue;
                }
                let g = self.ts.and(c, e);
                let slice = &content[k as usize..(k + n) as usize];
                acc = Some(match acc {
                    None => slice.to_vec(),
                    Some(a) => self.mux_bytes(g, slice, &a),
                });
            }
        }
        match acc {
            Some(a) => Ok(a),
            None => Ok(vec![UB; n as usize]),
        }
    }

    pub fn valid_ptr(&mut self, st: &State, p: T, n: u64) -> R<bool> {
        let cands = self.resolve(p)?;
        for &(_, o, off) in cands.iter() {
            if let Some(c) = self.content(st, o) {
                if !self.offsets(off, n, c.len() as u64).is_empty() {
                    return Ok(true);
                }
            }
        }
        Ok(false)
    }

    pub fn store_bytes(&mut self, st: &mut State, p: T, v: &[B]) -> R<()> {
        let n = v.len() as u64;
        if n == 0 {
            return Ok(());
        }
        let cands = self.resolve(p)?;
        let many = cands.len() > 1;
        for &(c, o, off) in cands.iter() {
            let content = match self.content(st, o) {
                Some(c) => c,
                None => continue,
            };
            let offs = self.offsets(off, n, content.len() as u64);
            if offs.is_empty() {
                continue;
            }
            let mut new = (*content).clone();
            let single = offs.len() == 1;
            for k in offs {
                let mut e = if single {
                    1
                } else {
                    let kc = self.ts.cst(k as u128, 64);
                    self.ts.eq(off, kc)
                };
                if many {
                    e = self.ts.and(e, c);
                }
                if e == 0 {
                    continue;
                }
                let (ks, ke) = (k as usize, (k + n) as usize);
                let m = self.mux_bytes(e, v, &new[ks..ke].to_vec());
                new[ks..ke].copy_from_slice(&m);
            }
            Rc::make_mut(&mut st.mem).insert(o, Rc::new(new));
        }
        Ok(())
    }

    fn load_val(&mut self, st: &State, p: T, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr => {
                let w = ty.bits().unwrap() as usize;
                let n = (w + 7) / 8;
                if n > 16 {
                    return Err(format!("load of i{}", w));
                }
                let b = self.load_bytes(st, p, n as u64)?;
                if b.iter().all(|x| x.t == UNINIT) {
                    return Ok(V::U);
                }
                let t = self.bytes_to_term(&b);
                Ok(V::S(if n * 8 > w { self.ts.extract(t, 0, w as u8) } else { t }))
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let mut v = Vec::new();
                for k in 0..ty.nfields() {
                    let c = self.ts.cst(ty.field_off(k) as u128, 64);
                    let q = self.ts.add(p, c);
                    v.push(self.load_val(st, q, &ty.field(k))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(format!("load of {:?}", ty)),
        }
    }

    fn store_val(&mut self, st: &mut State, p: T, ty: &Ty, v: &V) -> R<()> {
        match v {
            V::U => {
                let n = ty.size() as usize;
                // Storing undef: leave the bytes unspecified only if the target is exact.
                let b = vec![UB; n];
                let cands = self.resolve(p)?;
                if cands.len() == 1 && self.ts.as_const(cands[0].2).is_some() {
                    self.store_bytes(st, p, &b)?;
                }
                Ok(())
            }
            V::S(t) => {
                let b = self.term_bytes(*t);
                self.store_bytes(st, p, &b)
            }
            V::A(f) => {
                for (k, x) in f.iter().enumerate() {
                    let c = self.ts.cst(ty.field_off(k) as u128, 64);
                    let q = self.ts.add(p, c);
                    self.store_val(st, q, &ty.field(k), x)?;
                }
                Ok(())
            }
        }
    }

    // -------------------------------------------------------------------------------------
    // Paths and merging

    fn extend(&mut self, p: &Rc<Path>, c: T) -> Rc<Path> {
        if c == 1 {
            return p.clone();
        }
        let full = self.ts.and(p.full, c);
        Rc::new(Path { parent: Some(p.clone()), cond: c, depth: p.depth + 1, full })
    }

    /// Returns (merged path, discriminator: true selects `a`).
    fn merge_paths(&mut self, a: &Rc<Path>, b: &Rc<Path>) -> (Rc<Path>, T) {
        let (mut x, mut y) = (a.clone(), b.clone());
        let (mut ca, mut cb): (Vec<T>, Vec<T>) = (vec![], vec![]);
        while x.depth > y.depth {
            ca.push(x.cond);
            x = x.parent.clone().unwrap();
        }
        while y.depth > x.depth {
            cb.push(y.cond);
            y = y.parent.clone().unwrap();
        }
        while !Rc::ptr_eq(&x, &y) {
            ca.push(x.cond);
            cb.push(y.cond);
            x = x.parent.clone().unwrap();
            y = y.parent.clone().unwrap();
        }
        let mut ra = 1;
        for &c in ca.iter().rev() {
            ra = self.ts.and(ra, c);
        }
        let mut rb = 1;
        for &c in cb.iter().rev() {
            rb = self.ts.and(rb, c);
        }
        let fa = *ca.last().unwrap_or(&1);
        let fb = *cb.last().unwrap_or(&1);
        let nfb = self.ts.not(fb);
        let d = if fa == nfb {
            fa
        } else if ca.len() <= cb.len() {
            ra
        } else {
            self.ts.not(rb)
        };
        let o = self.ts.or(ra, rb);
        (self.extend(&x, o), d)
    }

    fn merge_v(&mut self, d: T, a: &V, b: &V) -> R<V> {
        Ok(match (a, b) {
            (V::U, x) | (x, V::U) => x.clone(),
            (V::S(x), V::S(y)) => {
                if x == y {
                    V::S(*x)
                } else if self.ts.w(*x) != self.ts.w(*y) {
                    return Err("merge of different widths".into());
                } else {
                    V::S(self.ts.ite(d, *x, *y))
                }
            }
            (V::A(x), V::A(y)) => {
                if Rc::ptr_eq(x, y) {
                    return Ok(a.clone());
                }
                let mut v = Vec::new();
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.merge_v(d, p, q)?);
                }
                V::A(Rc::new(v))
            }
            _ => return Err("merge of different shapes".into()),
        })
    }

    fn live_at(&mut self, f: &Func, block: u32, ip: u32) -> Rc<Vec<bool>> {
        if let Some(l) = self.mem_live.get(&(f.id, block, ip)) {
            return l.clone();
        }
        let b = &f.blocks[block as usize];
        let mut live = f.live_out[block as usize].clone();
        for k in (ip as usize..b.insts.len()).rev() {
            let i = &b.insts[k];
            if let Some(d) = inst_def(i) {
                live[d as usize] = false;
            }
            inst_uses(i, &mut |r| live[r as usize] = true);
        }
        let l = Rc::new(live);
        self.mem_live.insert((f.id, block, ip), l.clone());
        l
    }

    fn merge(&mut self, a: State, b: State) -> R<State> {
        self.merges += 1;
        let (path, d) = self.merge_paths(&a.path, &b.path);
        let mut frames = Vec::with_capacity(a.frames.len());
        let top = a.frames.len() - 1;
        for (k, (x, y)) in a.frames.iter().zip(b.frames.iter()).enumerate() {
            if Rc::ptr_eq(x, y) {
                frames.push(x.clone());
                continue;
            }
            let mut f: Frame = (**x).clone();
            // For frames below the top, `ip` is the calling instruction itself.
            let live = if k == top { self.live_at(&x.func, x.block, x.ip) } else { self.live_at(&x.func, x.block, x.ip + 1) };
            // An invoke may continue at its unwind destination too; `live_out` covers both.
            for r in 0..f.regs.len() {
                if !live[r] {
                    f.regs[r] = V::U;
                    continue;
                }
                if f.regs[r] != y.regs[r] {
                    f.regs[r] = self.merge_v(d, &x.regs[r], &y.regs[r])?;
                }
            }
            for &o in &y.allocas {
                if !f.allocas.contains(&o) {
                    f.allocas.push(o);
                }
            }
            frames.push(Rc::new(f));
        }
        let mem = if Rc::ptr_eq(&a.mem, &b.mem) {
            a.mem.clone()
        } else {
            let mut m: HashMap<Obj, Rc<Vec<B>>> = HashMap::with_capacity(a.mem.len());
            for (&o, ca) in a.mem.iter() {
                match b.mem.get(&o).cloned().or_else(|| self.objs[o as usize].init.clone()) {
                    Some(cb) if !Rc::ptr_eq(ca, &cb) => {
                        let (mut x, mut y) = ((**ca).clone(), (*cb).clone());
                        let l = x.len().max(y.len());
                        x.resize(l, UB);
                        y.resize(l, UB);
                        let r = if x == y { x } else { self.mux_bytes(d, &x, &y) };
                        m.insert(o, Rc::new(r));
                    }
                    _ => {
                        m.insert(o, ca.clone());
                    }
                }
            }
            for (&o, cb) in b.mem.iter() {
                if !a.mem.contains_key(&o) {
                    if let Some(ca) = self.objs[o as usize].init.clone() {
                        let r = self.mux_bytes(d, &ca, cb);
                        m.insert(o, Rc::new(r));
                    } else {
                        m.insert(o, cb.clone());
                    }
                }
            }
            Rc::new(m)
        };
        Ok(State { frames, mem, path })
    }

    fn key(st: &State) -> Vec<u64> {
        let mut k = Vec::with_capacity(st.frames.len() * 2);
        for f in &st.frames {
            k.push(f.uid as u64);
            k.push(((f.func.blocks[f.block as usize].pos as u64) << 32) | ((f.ip as u64) << 1));
        }
        k
    }

    fn enqueue(&mut self, st: State) -> R<()> {
        let k = Self::key(&st);
        match self.work.remove(&k) {
            None => {
                self.work.insert(k, st);
            }
            Some(o) => {
                let m = self.merge(o, st)?;
                self.work.insert(k, m);
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------------------
    // Feasibility

    pub fn feasible(&mut self, guard: T) -> R<bool> {
        let g = self.ts.and(guard, self.gacc);
        if g == 0 {
            return Ok(false);
        }
        if g == 1 {
            return Ok(true);
        }
        for m in self.models.iter_mut() {
            if m.eval(&self.ts, g) == 1 {
                return Ok(true);
            }
        }
        self.check_time()?;
        match check(&self.ts, &mut self.bl, &[g], self.cfg.sat_limit, &mut self.fstats) {
            Answer::Sat(m) => {
                self.models.push(Eval::new(m));
                Ok(true)
            }
            Answer::Unsat => Ok(false),
            Answer::Unknown(s) => Err(format!("feasibility query: {}", s)),
        }
    }

    fn check_time(&self) -> R<()> {
        if Instant::now() > self.cfg.deadline {
            return Err("time limit reached".into());
        }
        Ok(())
    }

    pub fn obligation(&mut self, path: T, viol: T, label: String, kind: &'static str) {
        let c = self.ts.and(path, viol);
        let c = self.ts.and(self.gacc, c);
        if c != 0 {
            self.obls.push(Obl { cond: c, label, kind });
        }
    }

    // -------------------------------------------------------------------------------------
    // Control flow

    fn goto(&mut self, st: &mut State, to: u32) -> R<bool> {
        let f = st.frames.last().unwrap().clone();
        let from = f.block;
        let nb = &f.func.blocks[to as usize];
        let mut vals = Vec::new();
        for ph in &nb.phis {
            let o = ph.inc.iter().find(|x| x.0 == from).ok_or("phi without predecessor")?;
            vals.push((ph.dst, self.opd(&f, &ph.ty, &o.1)?));
        }
        let back = nb.pos <= f.func.blocks[from as usize].pos;
        let multi = nb.npreds > 1;
        {
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
            fr.block = to;
            fr.ip = 0;
        }
        if back {
            let k = (f.uid, to);
            let v = {
                let e = self.visits.entry(k).or_insert(0);
                *e += 1;
                *e
            };
            if v > self.cfg.max_visits {
                let p = st.path.full;
                self.obligation(p, 1, format!("loop bound exceeded in {}", f.func.demangled), "hang");
                return Ok(false);
            }
            if st.path.full != 1 && v >= self.cfg.min_visits && self.cfg.check_backedges {
                let full = st.path.full;
                if !self.feasible(full)? {
                    return Ok(false);
                }
            }
        }
        if multi || back {
            let s = st.clone();
            self.enqueue(s)?;
            return Ok(false);
        }
        Ok(true)
    }

    fn uid(&mut self, parent: u32, block: u32, ip: u32, func: u32) -> u32 {
        let n = self.uids.len() as u32 + 1;
        *self.uids.entry((parent, block, ip, func)).or_insert(n)
    }

    fn push_call(&mut self, st: &mut State, name: &str, args: Vec<V>, catch: bool) -> R<()> {
        let func = self.func(name)?;
        if st.frames.len() > 200 {
            return Err("call depth".into());
        }
        let uid = match st.frames.last() {
            Some(f) => {
                let (u, b, i) = (f.uid, f.block, f.ip);
                self.uid(u, b, i, func.id)
            }
            None => self.uid(0, 0, 0, func.id),
        };
        let mut regs = vec![V::U; func.nregs as usize];
        for (k, (_, r)) in func.params.iter().enumerate() {
            if let Some(a) = args.get(k) {
                regs[*r as usize] = a.clone();
            }
        }
        st.frames.push(Rc::new(Frame { func, block: 0, ip: 0, regs, uid, allocas: vec![], catch }));
        Ok(())
    }

    fn pop_frame(&mut self, st: &mut State) -> Rc<Frame> {
        let f = st.frames.pop().unwrap();
        if !f.allocas.is_empty() {
            let m = Rc::make_mut(&mut st.mem);
            for o in &f.allocas {
                m.remove(o);
            }
        }
        f
    }

    /// Returns from the top frame to its caller. Returns false if the state ended or was enqueued.
    fn do_ret(&mut self, st: &mut State, v: Option<V>) -> R<bool> {
        let f = self.pop_frame(st);
        if st.frames.is_empty() {
            let p = self.ts.and(st.path.full, self.gacc);
            self.finished = self.ts.or(self.finished, p);
            return Ok(false);
        }
        let caller = st.frames.last().unwrap().clone();
        let inst = caller.func.blocks[caller.block as usize].insts[caller.ip as usize].clone();
        let c = match inst {
            I::Call(c) => c,
            _ => return Err("return to a non-call".into()),
        };
        {
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            if f.catch {
                let z = self.ts.cst(0, 1);
                if let Some(d) = c.dst {
                    let w = c.ret.bits().unwrap_or(1) as u8;
                    let z = self.ts.zext(z, w);
                    fr.regs[d as usize] = V::S(z);
                }
            } else if let Some(d) = c.dst {
                fr.regs[d as usize] = v.unwrap_or(V::U);
            }
        }
        if let Some((n, _)) = c.invoke {
            return self.goto(st, n);
        }
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
        if f.func.has_calls_or_branches {
            let s = st.clone();
            self.enqueue(s)?;
            return Ok(false);
        }
        Ok(true)
    }

    fn throw(&mut self, st: &mut State, msg: String) -> R<bool> {
        if !st.frames.iter().any(|f| f.catch) {
            let p = st.path.full;
            self.obligation(p, 1, format!("panic: {}", msg), "panic");
            return Ok(false);
        }
        // The current top frame's instruction is the throwing call.
        loop {
            let f = st.frames.last().unwrap().clone();
            let inst = &f.func.blocks[f.block as usize].insts[f.ip as usize];
            if let I::Call(Call { invoke: Some((_, u)), .. }) = inst {
                let u = *u;
                return self.goto(st, u);
            }
            let f = self.pop_frame(st);
            if f.catch {
                let caller = st.frames.last().unwrap().clone();
                let inst = caller.func.blocks[caller.block as usize].insts[caller.ip as usize].clone();
                if let I::Call(c) = inst {
                    let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                    if let Some(d) = c.dst {
                        let w = c.ret.bits().unwrap_or(1) as u8;
                        let o = self.ts.cst(1, w);
                        fr.regs[d as usize] = V::S(o);
                    }
                    if let Some((n, _)) = c.invoke {
                        return self.goto(st, n);
                    }
                    Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                    let s = st.clone();
                    self.enqueue(s)?;
                    return Ok(false);
                }
                return Err("catch frame without a call".into());
            }
            if st.frames.is_empty() {
                return Err("unwound past the entry".into());
            }
        }
    }

    pub fn run_harness(&mut self, name: &str) -> R<()> {
        let root = Rc::new(Path { parent: None, cond: 1, depth: 0, full: 1 });
        let mut st = State { frames: vec![], mem: Rc::new(HashMap::new()), path: root };
        if self.m.decls.contains_key("__v_panic_tag") {
            let o = self.new_obj(Kind::Global("__v_panic_tag".into()), 1);
            let z = self.ts.cst(0, 8);
            self.objs[o as usize].init = Some(Rc::new(vec![B { t: z, i: 0 }]));
            self.tag_obj = Some(o);
        }
        self.push_call(&mut st, name, vec![], false)?;
        self.enqueue(st)?;
        while let Some((_, st)) = self.work.pop_first() {
            self.run_state(st)?;
        }
        Ok(())
    }

    fn run_state(&mut self, mut st: State) -> R<()> {
        let mut cnt = 0;
        loop {
            cnt += 1;
            if cnt & 0x3ff == 0 {
                self.check_time()?;
            }
            self.steps += 1;
            let (func, block, ip) = {
                let f = st.frames.last().unwrap();
                (f.func.clone(), f.block, f.ip)
            };
            let blk = &func.blocks[block as usize];
            let inst = &blk.insts[ip as usize];
            let d = blk.dbg[ip as usize];
            if d != 0 {
                self.dbg_seen.insert(d);
            }
            if self.cfg.trace {
                *self.prof.entry(format!("{} {}", func.demangled, blk.name)).or_insert(0) += 1;
            }
            match self.step(&mut st, &func, inst).map_err(|e| format!("{} [in {} block {} inst {}]", e, func.demangled, blk.name, ip))? {
                Flow::Continue => {}
                Flow::Stop => return Ok(()),
            }
        }
    }

    fn set(&mut self, st: &mut State, d: u32, v: V) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.regs[d as usize] = v;
        f.ip += 1;
    }

    fn bin(&mut self, op: &str, a: T, b: T) -> R<T> {
        let w = self.ts.w(a);
        Ok(match op {
            "add" => self.ts.add(a, b),
            "sub" => self.ts.sub(a, b),
            "mul" => self.ts.mul(a, b),
            "udiv" => self.ts.udiv(a, b),
            "urem" => self.ts.urem(a, b),
            "and" => self.ts.and(a, b),
            "or" => self.ts.or(a, b),
            "xor" => self.ts.xor(a, b),
            "shl" => self.ts.shl(a, b),
            "lshr" => self.ts.lshr(a, b),
            "ashr" => self.ts.ashr(a, b),
            "sdiv" | "srem" => {
                let sa = self.ts.extract(a, w - 1, 1);
                let sb = self.ts.extract(b, w - 1, 1);
                let na = self.ts.neg(a);
                let nb = self.ts.neg(b);
                let ua = self.ts.ite(sa, na, a);
                let ub = self.ts.ite(sb, nb, b);
                if op == "sdiv" {
                    let q = self.ts.udiv(ua, ub);
                    let nq = self.ts.neg(q);
                    let s = self.ts.xor(sa, sb);
                    self.ts.ite(s, nq, q)
                } else {
                    let r = self.ts.urem(ua, ub);
                    let nr = self.ts.neg(r);
                    self.ts.ite(sa, nr, r)
                }
            }
            _ => return Err(format!("binary operation {}", op)),
        })
    }

    fn icmp(&mut self, pred: &str, a: T, b: T) -> R<T> {
        Ok(match pred {
            "eq" => self.ts.eq(a, b),
            "ne" => {
                let e = self.ts.eq(a, b);
                self.ts.not(e)
            }
            "ult" => self.ts.ult(a, b),
            "ugt" => self.ts.ult(b, a),
            "ule" => self.ts.ule(a, b),
            "uge" => self.ts.ule(b, a),
            "slt" => self.ts.slt(a, b),
            "sgt" => self.ts.slt(b, a),
            "sle" => {
                let x = self.ts.slt(b, a);
                self.ts.not(x)
            }
            "sge" => {
                let x = self.ts.slt(a, b);
                self.ts.not(x)
            }
            _ => return Err(format!("predicate {}", pred)),
        })
    }

    fn map2(&mut self, a: &V, b: &V, ety: &Ty, f: &mut dyn FnMut(&mut Self, T, T) -> R<T>) -> R<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut v = Vec::new();
                for (p, q) in x.clone().iter().zip(y.clone().iter()) {
                    v.push(self.map2(p, q, ety, f)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            (V::A(_), V::U) | (V::U, V::A(_)) => Err("vector undef".into()),
            _ => {
                let w = ety.bits().ok_or("bits")? as u8;
                let z = self.ts.cst(0, w);
                let p = if let V::S(t) = a { *t } else { z };
                let q = if let V::S(t) = b { *t } else { z };
                Ok(V::S(f(self, p, q)?))
            }
        }
    }

    fn step(&mut self, st: &mut State, func: &Rc<Func>, inst: &I) -> R<Flow> {
        let fr = st.frames.last().unwrap().clone();
        match inst {
            I::Alloca { dst, size } => {
                let k = (fr.uid, *dst);
                let o = match self.stack_objs.get(&k) {
                    Some(&o) => o,
                    None => {
                        let o = self.new_obj(Kind::Stack(format!("{}:%{}", func.demangled, func.regnames[*dst as usize])), *size);
                        self.stack_objs.insert(k, o);
                        o
                    }
                };
                Rc::make_mut(&mut st.mem).insert(o, Rc::new(vec![UB; *size as usize]));
                let a = self.addr(o, 0);
                drop(fr);
                {
                    let f = Rc::make_mut(st.frames.last_mut().unwrap());
                    f.allocas.push(o);
                }
                self.set(st, *dst, V::S(a));
            }
            I::Load { dst, ty, p } => {
                let p = self.scalar(&fr, &Ty::Ptr, p)?;
                drop(fr);
                if ty.size() > 0 && !self.valid_ptr(st, p, (ty.bits().unwrap_or(8) as u64 + 7) / 8)? {
                    // No valid target at all: only possible on infeasible paths.
                    let path = st.path.full;
                    self.obligation(path, 1, format!("invalid load in {}", func.demangled), "memory");
                    return Ok(Flow::Stop);
                }
                let v = self.load_val(st, p, ty)?;
                self.set(st, *dst, v);
            }
            I::Store { ty, v, p } => {
                let v = self.opd(&fr, ty, v)?;
                let p = self.scalar(&fr, &Ty::Ptr, p)?;
                drop(fr);
                if ty.size() > 0 && !self.valid_ptr(st, p, (ty.bits().unwrap_or(8) as u64 + 7) / 8)? {
                    let path = st.path.full;
                    self.obligation(path, 1, format!("invalid store in {}", func.demangled), "memory");
                    return Ok(Flow::Stop);
                }
                self.store_val(st, p, ty, &v)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
            I::Gep { dst, base, off, idx } => {
                let mut p = self.scalar(&fr, &Ty::Ptr, base)?;
                for (o, w, scale) in idx {
                    let t = self.scalar(&fr, &Ty::Int(*w), o)?;
                    let t = if *w < 64 { self.ts.sext(t, 64) } else { t };
                    let s = self.ts.cst(*scale as u128, 64);
                    let m = self.ts.mul(t, s);
                    p = self.ts.add(p, m);
                }
                let c = self.ts.cst(*off as i128 as u128, 64);
                p = self.ts.add(p, c);
                drop(fr);
                self.set(st, *dst, V::S(p));
            }
            I::Bin { dst, op, ty, a, b } => {
                let ety = if let Ty::Vec(_, t) = ty { (**t).clone() } else { ty.clone() };
                let x = self.opd(&fr, ty, a)?;
                let y = self.opd(&fr, ty, b)?;
                let op = *op;
                let v = self.map2(&x, &y, &ety, &mut |s, p, q| s.bin(op, p, q))?;
                drop(fr);
                self.set(st, *dst, v);
            }
            I::Icmp { dst, pred, ty, a, b } => {
                let ety = if let Ty::Vec(_, t) = ty { (**t).clone() } else { ty.clone() };
                let x = self.opd(&fr, ty, a)?;
                let y = self.opd(&fr, ty, b)?;
                let pred = *pred;
                let v = self.map2(&x, &y, &ety, &mut |s, p, q| s.icmp(pred, p, q))?;
                drop(fr);
                self.set(st, *dst, v);
            }
            I::Select { dst, ty, c, a, b } => {
                let c = self.scalar(&fr, &Ty::Int(1), c)?;
                let x = self.opd(&fr, ty, a)?;
                let y = self.opd(&fr, ty, b)?;
                let v = if c == 1 {
                    x
                } else if c == 0 {
                    y
                } else {
                    self.merge_v(c, &x, &y)?
                };
                drop(fr);
                self.set(st, *dst, v);
            }
            I::Cast { dst, op, from, to, v } => {
                let x = self.opd(&fr, from, v)?;
                drop(fr);
                let r = self.cast(op, from, to, &x)?;
                self.set(st, *dst, r);
            }
            I::Extract { dst, ty, v, idx } => {
                let mut x = self.opd(&fr, ty, v)?;
                for &i in idx {
                    x = match x {
                        V::A(f) => f[i as usize].clone(),
                        V::U => V::U,
                        _ => return Err("extractvalue".into()),
                    };
                }
                drop(fr);
                self.set(st, *dst, x);
            }
            I::Insert { dst, ty, v, ety, e, idx } => {
                let x = self.opd(&fr, ty, v)?;
                let e = self.opd(&fr, ety, e)?;
                fn ins(ty: &Ty, x: V, e: V, idx: &[u32]) -> V {
                    if idx.is_empty() {
                        return e;
                    }
                    let mut f = match x {
                        V::A(f) => (*f).clone(),
                        _ => vec![V::U; ty.nfields()],
                    };
                    let i = idx[0] as usize;
                    f[i] = ins(&ty.field(i), f[i].clone(), e, &idx[1..]);
                    V::A(Rc::new(f))
                }
                let r = ins(ty, x, e, idx);
                drop(fr);
                self.set(st, *dst, r);
            }
            I::Freeze { dst, ty, v } => {
                let x = self.opd(&fr, ty, v)?;
                let x = if x == V::U && ty.bits().is_some() { V::S(self.ts.cst(0, ty.bits().unwrap() as u8)) } else { x };
                drop(fr);
                self.set(st, *dst, x);
            }
            I::LandingPad { dst } => {
                let p = self.ts.cst(0, 64);
                let s = self.ts.cst(0, 32);
                drop(fr);
                self.set(st, *dst, V::A(Rc::new(vec![V::S(p), V::S(s)])));
            }
            I::AtomicRmw { dst, op, ty, p, v } => {
                let p = self.scalar(&fr, &Ty::Ptr, p)?;
                let v = self.scalar(&fr, ty, v)?;
                drop(fr);
                let old = match self.load_val(st, p, ty)? {
                    V::S(t) => t,
                    _ => self.ts.cst(0, ty.bits().unwrap() as u8),
                };
                let n = match op.as_str() {
                    "xchg" => v,
                    o => self.bin(o, old, v)?,
                };
                self.store_val(st, p, ty, &V::S(n))?;
                self.set(st, *dst, V::S(old));
            }
            I::Nop => {
                drop(fr);
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
            I::Br(b) => {
                drop(fr);
                return Ok(if self.goto(st, *b)? { Flow::Continue } else { Flow::Stop });
            }
            I::CondBr(c, a, b) => {
                let c = self.scalar(&fr, &Ty::Int(1), c)?;
                drop(fr);
                if c == 1 {
                    return Ok(if self.goto(st, *a)? { Flow::Continue } else { Flow::Stop });
                }
                if c == 0 || a == b {
                    return Ok(if self.goto(st, *b)? { Flow::Continue } else { Flow::Stop });
                }
                let nc = self.ts.not(c);
                return self.fork(st, vec![(c, *a), (nc, *b)]);
            }
            I::Switch { ty, v, def, cases } => {
                let v = self.scalar(&fr, ty, v)?;
                drop(fr);
                if let Some(k) = self.ts.as_const(v) {
                    let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                    return Ok(if self.goto(st, t)? { Flow::Continue } else { Flow::Stop });
                }
                let mut targets: Vec<(T, u32)> = Vec::new();
                let mut none = 1;
                for (k, b) in cases {
                    let w = ty.bits().unwrap() as u8;
                    let kc = self.ts.cst(*k, w);
                    let e = self.ts.eq(v, kc);
                    let ne = self.ts.not(e);
                    none = self.ts.and(none, ne);
                    if e == 0 {
                        continue;
                    }
                    if let Some(x) = targets.iter_mut().find(|x| x.1 == *b) {
                        x.0 = self.ts.or(x.0, e);
                    } else {
                        targets.push((e, *b));
                    }
                }
                if let Some(x) = targets.iter_mut().find(|x| x.1 == *def) {
                    x.0 = self.ts.or(x.0, none);
                } else if none != 0 {
                    targets.push((none, *def));
                }
                return self.fork(st, targets);
            }
            I::Ret(v) => {
                let v = match v {
                    Some((t, o)) => Some(self.opd(&fr, t, o)?),
                    None => None,
                };
                drop(fr);
                return Ok(if self.do_ret(st, v)? { Flow::Continue } else { Flow::Stop });
            }
            I::Unreachable => {
                let p = st.path.full;
                self.obligation(p, 1, format!("unreachable code reached in {}", func.demangled), "unreachable");
                return Ok(Flow::Stop);
            }
            I::Resume => {
                drop(fr);
                // Continue unwinding from the caller.
                let f = self.pop_frame(st);
                if f.catch {
                    // handled as in `throw`
                    st.frames.push(f);
                    let f = self.pop_frame(st);
                    let _ = f;
                    let caller = st.frames.last().unwrap().clone();
                    let inst = caller.func.blocks[caller.block as usize].insts[caller.ip as usize].clone();
                    if let I::Call(c) = inst {
                        let w = c.ret.bits().unwrap_or(1) as u8;
                        let o = self.ts.cst(1, w);
                        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                        if let Some(d) = c.dst {
                            fr.regs[d as usize] = V::S(o);
                        }
                        if let Some((n, _)) = c.invoke {
                            drop(caller);
                            return Ok(if self.goto(st, n)? { Flow::Continue } else { Flow::Stop });
                        }
                        fr.ip += 1;
                        let s = st.clone();
                        self.enqueue(s)?;
                        return Ok(Flow::Stop);
                    }
                    return Err("catch frame without a call".into());
                }
                if st.frames.is_empty() {
                    return Err("unwound past the entry".into());
                }
                return Ok(if self.throw(st, "resumed".into())? { Flow::Continue } else { Flow::Stop });
            }
            I::Call(c) => {
                return self.call(st, fr, c);
            }
            I::Bad(s) => return Err(s.clone()),
        }
        Ok(Flow::Continue)
    }

    fn fork(&mut self, st: &mut State, targets: Vec<(T, u32)>) -> R<Flow> {
        let targets: Vec<_> = targets.into_iter().filter(|t| t.0 != 0).collect();
        // A condition already implied (or refuted) by the path?
        let full = st.path.full;
        let mut live = Vec::new();
        for (c, b) in targets {
            let f = self.ts.and(full, c);
            if f != 0 {
                live.push((c, b));
            }
        }
        if live.len() == 1 {
            return Ok(if self.goto(st, live[0].1)? { Flow::Continue } else { Flow::Stop });
        }
        self.forks += 1;
        // Conditions in sequence: c1; !c1 & c2; ...
        for (c, b) in live {
            let mut s = st.clone();
            s.path = self.extend(&st.path, c);
            if self.goto(&mut s, b)? {
                self.enqueue(s)?;
            }
        }
        Ok(Flow::Stop)
    }

    fn cast(&mut self, op: &str, from: &Ty, to: &Ty, x: &V) -> R<V> {
        if let (Ty::Vec(_, f), Ty::Vec(_, t), V::A(e)) = (from, to, x) {
            let mut v = Vec::new();
            for y in e.iter() {
                v.push(self.cast(op, f, t, y)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let (fw, tw) = (from.bits().ok_or("cast")? as u8, to.bits().ok_or("cast")? as u8);
        let t = match x {
            V::U => return Ok(V::U),
            V::S(t) => *t,
            _ => return Err("cast of an aggregate".into()),
        };
        Ok(V::S(match op {
            "zext" => self.ts.zext(t, tw),
            "sext" => self.ts.sext(t, tw),
            "trunc" => self.ts.extract(t, 0, tw),
            "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                if fw == tw {
                    t
                } else if fw > tw {
                    self.ts.extract(t, 0, tw)
                } else {
                    self.ts.zext(t, tw)
                }
            }
            _ => return Err(format!("cast {}", op)),
        }))
    }

    fn read_str(&mut self, st: &State, p: T, n: T) -> Option<String> {
        let n = self.ts.as_const(n)? as u64;
        if n > 400 {
            return None;
        }
        if n == 0 {
            return Some(String::new());
        }
        let b = self.load_bytes(st, p, n).ok()?;
        let mut v = Vec::new();
        for x in b {
            let t = self.bytes_to_term(&[x]);
            v.push(self.ts.as_const(t)? as u8);
        }
        String::from_utf8(v).ok()
    }

    /// What the message of a panic begins with: 1 `[precondition]`, 2 `[consistency]`, 3 `[validity]`, 4 anything else.
    fn panic_tag(&mut self, st: &State, name: &str, args: &[V]) -> R<T> {
        let other = self.ts.cst(4, 8);
        let (p, skip) = match args.first() {
            Some(V::S(p)) if name.contains("expect_failed") || name.contains("unwrap_failed") && args.len() >= 4 => (*p, 0),
            Some(V::S(p)) if name.contains("panic_fmt") => {
                // A static string has its length, and an odd number, in place of the arguments. Otherwise the
                // first piece of the template follows its length.
                let k = match args.get(1) {
                    Some(V::S(a)) => self.ts.as_const(*a),
                    _ => None,
                };
                (*p, if k.map_or(false, |k| k & 1 == 1) { 0 } else { 1 })
            }
            _ => return Ok(other),
        };
        let cands = self.resolve(p)?;
        let mut r = other;
        for &(g, o, off) in cands.iter() {
            let (b, off) = match (self.content(st, o), self.ts.as_const(off)) {
                (Some(b), Some(off)) => (b, off as usize + skip),
                _ => return Err("message of a panic".into()),
            };
            let text: Vec<u8> = b.iter().skip(off).take(14).map(|x| if x.t == UNINIT { 0 } else { let t = self.bytes_to_term(&[x.clone()]); self.ts.as_const(t).unwrap_or(0) as u8 }).collect();
            let k = if text.starts_with(b"[precondition]") {
                1
            } else if text.starts_with(b"[consistency]") {
                2
            } else if text.starts_with(b"[validity]") {
                3
            } else {
                4
            };
            let k = self.ts.cst(k, 8);
            r = self.ts.ite(g, k, r);
        }
        Ok(r)
    }

    fn read_loc(&mut self, st: &State, p: T) -> Option<String> {
        self.ts.as_const(p)?;
        let g = |s: &mut Self, off: u64, n: u64| -> Option<T> {
            let c = s.ts.cst(off as u128, 64);
            let q = s.ts.add(p, c);
            let b = s.load_bytes(st, q, n).ok()?;
            if b.iter().any(|x| x.t == UNINIT) {
                return None;
            }
            Some(s.bytes_to_term(&b))
        };
        let f = g(self, 0, 8)?;
        let n = g(self, 8, 8)?;
        let l = g(self, 16, 4)?;
        let file = self.read_str(st, f, n)?;
        let file = file.trim_end_matches('\0');
        let line = self.ts.as_const(l)?;
        Some(format!("{}:{}", file, line))
    }

    fn next(&mut self, st: &mut State, c: &Call, v: Option<V>) -> R<Flow> {
        {
            let f = Rc::make_mut(st.frames.last_mut().unwrap());
            if let (Some(d), Some(v)) = (c.dst, v) {
                f.regs[d as usize] = v;
            }
        }
        if let Some((n, _)) = c.invoke {
            return Ok(if self.goto(st, n)? { Flow::Continue } else { Flow::Stop });
        }
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
        Ok(Flow::Continue)
    }

    fn heap_alloc(&mut self, st: &mut State, size: u64, what: &str) -> Obj {
        let f = st.frames.last().unwrap().clone();
        let mut k = 0;
        loop {
            let key = (f.uid, f.block, f.ip, k);
            let o = match self.heap_objs.get(&key) {
                Some(&o) => o,
                None => {
                    let o = self.new_obj(Kind::Heap(what.to_string()), size);
                    self.heap_objs.insert(key, o);
                    o
                }
            };
            if !st.mem.contains_key(&o) {
                Rc::make_mut(&mut st.mem).insert(o, Rc::new(vec![UB; size as usize]));
                return o;
            }
            k += 1;
        }
    }

    /// An upper bound of a size, by the intervals of the terms or, if that is much, by the solver.
    fn max_size(&mut self, path: T, t: T) -> R<u64> {
        let hi = self.ts.info[t as usize].hi;
        if hi <= 1024 {
            return Ok(hi as u64);
        }
        let w = self.ts.nodes[t as usize].w;
        let max = self.cfg.max_alloc.min(hi as u64);
        let mut b = 64;
        while b < max {
            let k = self.ts.cst(b as u128, w);
            let over = self.ts.ult(k, t);
            let over = self.ts.and(path, over);
            if !self.feasible(over)? {
                return Ok(b);
            }
            b *= 4;
        }
        if hi <= self.cfg.max_alloc as u128 {
            return Ok(hi as u64);
        }
        let k = self.ts.cst(max as u128, w);
        let over = self.ts.ult(k, t);
        let over = self.ts.and(path, over);
        if !self.feasible(over)? {
            return Ok(max);
        }
        Err(format!("allocation size not bounded (up to {})", hi))
    }

    fn call(&mut self, st: &mut State, fr: Rc<Frame>, c: &Call) -> R<Flow> {
        let name: String = match &c.callee {
            Callee::Name(n) => {
                let mut n = n.clone();
                while let Some(a) = self.m.aliases.get(&n) {
                    n = a.clone();
                }
                n
            }
            Callee::Asm => {
                drop(fr);
                return self.next(st, c, Some(V::U));
            }
            Callee::Ptr(p) => {
                let p = self.scalar(&fr, &Ty::Ptr, p)?;
                let cands = self.resolve(p)?;
                if cands.is_empty() {
                    let path = st.path.full;
                    self.obligation(path, 1, "call of an invalid function pointer".into(), "memory");
                    return Ok(Flow::Stop);
                }
                if cands.len() > 1 {
                    // Split by target: enqueue one state per target with the register concretized.
                    if let Callee::Ptr(Opd::Reg(r)) = &c.callee {
                        drop(fr);
                        let list: Vec<_> = cands.iter().cloned().collect();
                        for (g, o, _) in list {
                            let f = self.ts.and(st.path.full, g);
                            if f == 0 {
                                continue;
                            }
                            let mut s = st.clone();
                            s.path = self.extend(&st.path, g);
                            let a = self.addr(o, 0);
                            Rc::make_mut(s.frames.last_mut().unwrap()).regs[*r as usize] = V::S(a);
                            // Not enqueued: it would be merged back.
                            self.run_state(s)?;
                        }
                        return Ok(Flow::Stop);
                    }
                    return Err("ambiguous callee".into());
                }
                match &self.objs[cands[0].1 as usize].kind {
                    Kind::Func(n) => n.clone(),
                    k => return Err(format!("call of a non-function {:?}", k)),
                }
            }
        };
        // Arguments.
        let mut args = Vec::with_capacity(c.args.len());
        for (t, o) in &c.args {
            if *t == Ty::Void {
                args.push(V::U);
            } else {
                args.push(self.opd(&fr, t, o)?);
            }
        }
        drop(fr);
        let mut sc = |s: &mut Self, k: usize| -> R<T> {
            match args.get(k) {
                Some(V::S(t)) => Ok(*t),
                Some(V::U) => {
                    let w = c.args[k].0.bits().ok_or("argument")?;
                    Ok(s.ts.cst(0, w as u8))
                }
                _ => Err(format!("argument {} of {}", k, name)),
            }
        };
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, c, n, &args);
        }
        match name.as_str() {
            "__v_in" => {
                // (index, inclusive upper bound)
                let i = sc(self, 0)?;
                let h = sc(self, 1)?;
                let i = self.ts.as_const(i).ok_or("symbolic input index")? as u64;
                let h = self.ts.as_const(h).ok_or("symbolic input bound")?;
                let t = match self.inputs.get(&i) {
                    Some(&t) => t,
                    None => {
                        let t = self.ts.new_var(&format!("in{}", i), 8, h);
                        self.inputs.insert(i, t);
                        t
                    }
                };
                return self.next(st, c, Some(V::S(t)));
            }
            "__v_assume" => {
                let x = sc(self, 0)?;
                let ng = self.ts.not(st.path.full);
                let imp = self.ts.or(ng, x);
                self.gacc = self.ts.and(self.gacc, imp);
                let f = self.ts.and(st.path.full, x);
                if f == 0 {
                    return Ok(Flow::Stop);
                }
                return self.next(st, c, None);
            }
            "__v_assert" => {
                let x = sc(self, 0)?;
                let (p, n) = (sc(self, 1)?, sc(self, 2)?);
                let label = self.read_str(st, p, n).ok_or("assertion label")?;
                let nx = self.ts.not(x);
                let path = st.path.full;
                self.obligation(path, nx, label, "assert");
                return self.next(st, c, None);
            }
            "__v_cover" => {
                let x = sc(self, 0)?;
                let (p, n) = (sc(self, 1)?, sc(self, 2)?);
                let label = self.read_str(st, p, n).ok_or("cover label")?;
                let g = self.ts.and(st.path.full, x);
                let g = self.ts.and(g, self.gacc);
                self.covers.push((label, g));
                return self.next(st, c, None);
            }
            "__v_split" => {
                let x = sc(self, 0)?;
                let n = sc(self, 1)?;
                let n = self.ts.as_const(n).ok_or("split")? as u64;
                self.splits.push((x, n));
                return self.next(st, c, None);
            }
            "__v_catch" => {
                let f = sc(self, 0)?;
                let cands = self.resolve(f)?;
                if cands.len() != 1 {
                    return Err("__v_catch needs a constant function".into());
                }
                let n = match &self.objs[cands[0].1 as usize].kind {
                    Kind::Func(n) => n.clone(),
                    _ => return Err("__v_catch of a non-function".into()),
                };
                let data = args.get(1).cloned().unwrap_or(V::U);
                self.push_call(st, &n, vec![data], true)?;
                return Ok(Flow::Continue);
            }
            "__v_panic_tag" => {
                let o = self.tag_obj.ok_or("panic tag")?;
                let a = self.addr(o, 0);
                let b = self.load_bytes(st, a, 1)?;
                let t = self.bytes_to_term(&b);
                return self.next(st, c, Some(V::S(t)));
            }
            "malloc" => {
                let n = sc(self, 0)?;
                let n = self.max_size(st.path.full, n)?;
                let o = self.heap_alloc(st, n, "malloc");
                let a = self.addr(o, 0);
                return self.next(st, c, Some(V::S(a)));
            }
            "calloc" => {
                let (a, b) = (sc(self, 0)?, sc(self, 1)?);
                let m = self.ts.mul(a, b);
                let n = self.max_size(st.path.full, m)?;
                let o = self.heap_alloc(st, n, "calloc");
                let z = self.ts.cst(0, 8);
                Rc::make_mut(&mut st.mem).insert(o, Rc::new(vec![B { t: z, i: 0 }; n as usize]));
                let a = self.addr(o, 0);
                return self.next(st, c, Some(V::S(a)));
            }
            "posix_memalign" => {
                let p = sc(self, 0)?;
                let n = sc(self, 2)?;
                let n = self.max_size(st.path.full, n)?;
                let o = self.heap_alloc(st, n, "posix_memalign");
                let a = self.addr(o, 0);
                self.store_val(st, p, &Ty::Ptr, &V::S(a))?;
                let z = self.ts.cst(0, 32);
                return self.next(st, c, Some(V::S(z)));
            }
            "realloc" => {
                let p = sc(self, 0)?;
                let n = sc(self, 1)?;
                let n = self.max_size(st.path.full, n)?;
                let cands = self.resolve(p)?;
                let mut content = vec![UB; n as usize];
                for &(g, o, _) in cands.iter() {
                    if let Some(old) = st.mem.get(&o).cloned() {
                        let mut x = (*old).clone();
                        x.resize(n as usize, UB);
                        content = if cands.len() == 1 { x } else { self.mux_bytes(g, &x, &content) };
                    }
                }
                let o = self.heap_alloc(st, n, "realloc");
                let m = Rc::make_mut(&mut st.mem);
                m.insert(o, Rc::new(content));
                if cands.len() == 1 {
                    m.remove(&cands[0].1);
                }
                let a = self.addr(o, 0);
                return self.next(st, c, Some(V::S(a)));
            }
            "free" => {
                let p = sc(self, 0)?;
                let cands = self.resolve(p)?;
                if cands.len() == 1 && cands[0].0 == 1 {
                    Rc::make_mut(&mut st.mem).remove(&cands[0].1);
                }
                return self.next(st, c, None);
            }
            "bcmp" | "memcmp" => {
                let (p, q, n) = (sc(self, 0)?, sc(self, 1)?, sc(self, 2)?);
                let hi = self.max_size(st.path.full, n)?;
                let mut r = self.ts.cst(0, 32);
                let one = self.ts.cst(1, 32);
                let neg = self.ts.cst(u32::MAX as u128, 32);
                for k in (0..hi).rev() {
                    let kc = self.ts.cst(k as u128, 64);
                    let inr = self.ts.ult(kc, n);
                    let pk = self.ts.add(p, kc);
                    let qk = self.ts.add(q, kc);
                    let a = self.load_bytes(st, pk, 1)?;
                    let a = self.bytes_to_term(&a);
                    let b = self.load_bytes(st, qk, 1)?;
                    let b = self.bytes_to_term(&b);
                    let e = self.ts.eq(a, b);
                    let lt = self.ts.ult(a, b);
                    let dv = if name == "bcmp" { one } else { self.ts.ite(lt, neg, one) };
                    let v = self.ts.ite(e, r, dv);
                    r = self.ts.ite(inr, v, r);
                }
                return self.next(st, c, Some(V::S(r)));
            }
            "memcpy" | "memmove" => {
                let (p, q, n) = (sc(self, 0)?, sc(self, 1)?, sc(self, 2)?);
                self.memcpy(st, p, q, n)?;
                return self.next(st, c, Some(V::S(p)));
            }
            "abort" => {
                let path = st.path.full;
                self.obligation(path, 1, "abort".into(), "abort");
                return Ok(Flow::Stop);
            }
            _ => {}
        }
        let (defined, noreturn, dem) = match self.m.funcs.get(&name) {
            Some(f) => (true, f.noreturn, f.demangled.clone()),
            None => (false, self.m.decls.get(&name).copied().unwrap_or(false), name.clone()),
        };
        if noreturn {
            let std_fn = !defined || dem.starts_with("core::") || dem.starts_with("alloc::") || dem.starts_with("std::") || dem.starts_with("<core::") || dem.starts_with("<alloc::") || dem.starts_with("<std::") || dem.starts_with("__rustc");
            if std_fn {
                let mut msg = dem.clone();
                // Message, if there is a plain (ptr, len) pair, and the location (last pointer).
                if args.len() >= 2 {
                    if let (V::S(p), V::S(n), Ty::Ptr, Ty::Int(64)) = (&args[0], &args[1], &c.args[0].0, &c.args[1].0) {
                        if let Some(s) = self.read_str(st, *p, *n) {
                            msg.push_str(&format!(" \"{}\"", s));
                        }
                    }
                }
                if let (Some(V::S(l)), Some((Ty::Ptr, _))) = (args.last(), c.args.last()) {
                    if let Some(s) = self.read_loc(st, *l) {
                        msg.push_str(&format!(" at {}", s));
                    }
                }
                if name.contains("panic_cannot_unwind") || name.contains("panic_nounwind") || name.contains("panic_in_cleanup") || name.contains("handle_alloc_error") {
                    let path = st.path.full;
                    self.obligation(path, 1, format!("abort: {}", msg), "abort");
                    return Ok(Flow::Stop);
                }
                if let Some(o) = self.tag_obj {
                    let t = self.panic_tag(st, &name, &args)?;
                    let a = self.addr(o, 0);
                    self.store_val(st, a, &Ty::Int(8), &V::S(t))?;
                }
                return Ok(if self.throw(st, msg)? { Flow::Continue } else { Flow::Stop });
            }
        }
        if !defined {
            return Err(format!("call of an unknown external function {}", name));
        }
        if self.cfg.check_backedges && st.path.full != 1 && (name.contains("grow") || name.contains("reserve")) {
            // Growth of storage: often infeasible, and expensive to follow.
            let full = st.path.full;
            if !self.feasible(full)? {
                return Ok(Flow::Stop);
            }
        }
        self.push_call(st, &name, args, false)?;
        // The callee may be looped into; keep executing it directly.
        Ok(Flow::Continue)
    }

    fn memcpy(&mut self, st: &mut State, dst: T, src: T, n: T) -> R<()> {
        if let Some(k) = self.ts.as_const(n) {
            if k == 0 {
                return Ok(());
            }
            if k > 1 << 16 {
                return Err(format!("memcpy of {} bytes", k));
            }
            let b = self.load_bytes(st, src, k as u64)?;
            return self.store_bytes(st, dst, &b);
        }
        // Symbolic length: copy in chunks.
        let i = self.ts.info[n as usize];
        let mut hi = i.hi;
        // The objects bound the length too.
        let mut osz = 0u64;
        for &(_, o, _) in self.resolve(src)?.iter() {
            if let Some(c) = self.content(st, o) {
                osz = osz.max(c.len() as u64);
            }
        }
        hi = hi.min(osz as u128);
        let chunk = (1u128 << (!i.zeros).trailing_zeros().min(3)).max(1) as u64;
        if hi > 4096 {
            return Err(format!("memcpy of up to {} bytes", hi));
        }
        // Load everything first (memmove semantics).
        let mut parts = Vec::new();
        let mut k = 0u64;
        while (k as u128) < hi {
            let kc = self.ts.cst(k as u128, 64);
            let inr = self.ts.ult(kc, n);
            if inr != 0 {
                let s = self.ts.add(src, kc);
                let b = self.load_bytes(st, s, chunk)?;
                parts.push((k, inr, b));
            }
            k += chunk;
        }
        for (k, inr, b) in parts {
            let kc = self.ts.cst(k as u128, 64);
            let d = self.ts.add(dst, kc);
            if inr == 1 {
                self.store_bytes(st, d, &b)?;
            } else {
                let old = self.load_bytes(st, d, chunk)?;
                let m = self.mux_bytes(inr, &b, &old);
                self.store_bytes(st, d, &m)?;
            }
        }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, c: &Call, n: &str, args: &[V]) -> R<Flow> {
        let base = n.split('.').next().unwrap_or("");
        let mut sc = |s: &mut Self, k: usize| -> R<T> {
            match args.get(k) {
                Some(V::S(t)) => Ok(*t),
                Some(V::U) => {
                    let w = c.args[k].0.bits().ok_or("argument")?;
                    Ok(s.ts.cst(0, w as u8))
                }
                _ => Err(format!("argument {} of llvm.{}", k, n)),
            }
        };
        let two = ["umin", "umax", "smin", "smax", "usub", "uadd", "ucmp", "scmp", "umul", "sadd", "ssub", "smul"];
        if matches!(c.ret, Ty::Vec(..)) {
            return Err(format!("vector intrinsic llvm.{}", n));
        }
        if two.contains(&base) {
            let (a, b) = (sc(self, 0)?, sc(self, 1)?);
            let w = self.ts.w(a);
            let r = if n.starts_with("umin.") || n.starts_with("umax.") {
                let l = self.ts.ult(a, b);
                let (x, y) = if base == "umin" { (a, b) } else { (b, a) };
                V::S(self.ts.ite(l, x, y))
            } else if n.starts_with("smin.") || n.starts_with("smax.") {
                let l = self.ts.slt(a, b);
                let (x, y) = if base == "smin" { (a, b) } else { (b, a) };
                V::S(self.ts.ite(l, x, y))
            } else if n.starts_with("usub.sat") {
                let l = self.ts.ult(a, b);
                let z = self.ts.cst(0, w);
                let d = self.ts.sub(a, b);
                V::S(self.ts.ite(l, z, d))
            } else if n.starts_with("uadd.sat") {
                let s = self.ts.add(a, b);
                let o = self.ts.ult(s, a);
                let m = self.ts.cst(mask(w), w);
                V::S(self.ts.ite(o, m, s))
            } else if n.starts_with("uadd.with.overflow") {
                let s = self.ts.add(a, b);
                let o = self.ts.ult(s, a);
                V::A(Rc::new(vec![V::S(s), V::S(o)]))
            } else if n.starts_with("usub.with.overflow") {
                let s = self.ts.sub(a, b);
                let o = self.ts.ult(a, b);
                V::A(Rc::new(vec![V::S(s), V::S(o)]))
            } else if n.starts_with("umul.with.overflow") {
                if w * 2 > 128 {
                    return Err("wide multiplication".into());
                }
                let (x, y) = (self.ts.zext(a, 2 * w), self.ts.zext(b, 2 * w));
                let p = self.ts.mul(x, y);
                let l = self.ts.extract(p, 0, w);
                let h = self.ts.extract(p, w, w);
                let z = self.ts.cst(0, w);
                let e = self.ts.eq(h, z);
                let o = self.ts.not(e);
                V::A(Rc::new(vec![V::S(l), V::S(o)]))
            } else if n.starts_with("sadd.with.overflow") || n.starts_with("ssub.with.overflow") || n.starts_with("smul.with.overflow") {
                let w2 = if base == "smul" { 2 * w } else { w + 1 };
                if w2 > 128 {
                    return Err("wide operation".into());
                }
                let (x, y) = (self.ts.sext(a, w2), self.ts.sext(b, w2));
                let p = match base {
                    "sadd" => self.ts.add(x, y),
                    "ssub" => self.ts.sub(x, y),
                    _ => self.ts.mul(x, y),
                };
                let l = self.ts.extract(p, 0, w);
                let back = self.ts.sext(l, w2);
                let e = self.ts.eq(back, p);
                let o = self.ts.not(e);
                V::A(Rc::new(vec![V::S(l), V::S(o)]))
            } else if base == "ucmp" || base == "scmp" {
                let rw = c.ret.bits().unwrap() as u8;
                let lt = if base == "ucmp" { self.ts.ult(a, b) } else { self.ts.slt(a, b) };
                let e = self.ts.eq(a, b);
                let (m1, z, p1) = (self.ts.cst(mask(rw), rw), self.ts.cst(0, rw), self.ts.cst(1, rw));
                let x = self.ts.ite(e, z, p1);
                V::S(self.ts.ite(lt, m1, x))
            } else {
                return Err(format!("intrinsic llvm.{}", n));
            };
            return self.next(st, c, Some(r));
        }
        match base {
            "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "invariant" | "prefetch" | "x86" | "sideeffect" => self.next(st, c, Some(V::U)),
            "is" => {
                let z = self.ts.cst(0, 1);
                self.next(st, c, Some(V::S(z)))
            }
            "expect" | "threadlocal" | "launder" | "strip" => {
                let v = args[0].clone();
                self.next(st, c, Some(v))
            }
            "memcpy" | "memmove" => {
                let (d, s, k) = (sc(self, 0)?, sc(self, 1)?, sc(self, 2)?);
                self.memcpy(st, d, s, k)?;
                self.next(st, c, None)
            }
            "memset" => {
                let (d, v, k) = (sc(self, 0)?, sc(self, 1)?, sc(self, 2)?);
                if let Some(k) = self.ts.as_const(k) {
                    if k > 1 << 16 {
                        return Err("memset".into());
                    }
                    let b = vec![B { t: v, i: 0 }; k as usize];
                    self.store_bytes(st, d, &b)?;
                } else {
                    let hi = self.max_size(st.path.full, k)?;
                    if hi > 4096 {
                        return Err("memset with an unbounded length".into());
                    }
                    for x in 0..hi {
                        let kc = self.ts.cst(x as u128, 64);
                        let inr = self.ts.ult(kc, k);
                        let q = self.ts.add(d, kc);
                        let old = self.load_bytes(st, q, 1)?;
                        let m = self.mux_bytes(inr, &[B { t: v, i: 0 }], &old);
                        self.store_bytes(st, q, &m)?;
                    }
                }
                self.next(st, c, None)
            }
            "abs" => {
                let a = sc(self, 0)?;
                let w = self.ts.w(a);
                let s = self.ts.extract(a, w - 1, 1);
                let na = self.ts.neg(a);
                let r = self.ts.ite(s, na, a);
                self.next(st, c, Some(V::S(r)))
            }
            "fshl" | "fshr" => {
                let (a, b, s) = (sc(self, 0)?, sc(self, 1)?, sc(self, 2)?);
                let w = self.ts.w(a);
                if let Some(k) = self.ts.as_const(s) {
                    let k = (k % w as u128) as u8;
                    let r = if k == 0 {
                        if base == "fshl" {
                            a
                        } else {
                            b
                        }
                    } else {
                        let l = if base == "fshl" { k } else { w - k };
                        let h = self.ts.extract(a, 0, w - l);
                        let lo = self.ts.extract(b, w - l, l);
                        self.ts.concat(h, lo)
                    };
                    return self.next(st, c, Some(V::S(r)));
                }
                if w > 64 || !w.is_power_of_two() {
                    return Err("symbolic funnel shift".into());
                }
                let m = self.ts.cst(w as u128 - 1, w);
                let k = self.ts.and(s, m);
                let k = self.ts.zext(k, 2 * w);
                let x = self.ts.concat(a, b);
                let r = if base == "fshl" {
                    let x = self.ts.shl(x, k);
                    self.ts.extract(x, w, w)
                } else {
                    let x = self.ts.lshr(x, k);
                    self.ts.extract(x, 0, w)
                };
                self.next(st, c, Some(V::S(r)))
            }
            "ctpop" => {
                let a = sc(self, 0)?;
                let w = self.ts.w(a);
                let mut r = self.ts.cst(0, w);
                for k in 0..w {
                    let b = self.ts.extract(a, k, 1);
                    let z = self.ts.zext(b, w);
                    r = self.ts.add(r, z);
                }
                self.next(st, c, Some(V::S(r)))
            }
            "cttz" | "ctlz" => {
                let a = sc(self, 0)?;
                let w = self.ts.w(a);
                let mut r = self.ts.cst(w as u128, w);
                for k in 0..w {
                    let bit = if base == "cttz" { w - 1 - k } else { k };
                    let cnt = if base == "cttz" { bit } else { w - 1 - bit };
                    let b = self.ts.extract(a, bit, 1);
                    let v = self.ts.cst(cnt as u128, w);
                    r = self.ts.ite(b, v, r);
                }
                self.next(st, c, Some(V::S(r)))
            }
            "bswap" => {
                let a = sc(self, 0)?;
                let w = self.ts.w(a);
                let mut r = self.ts.extract(a, 0, 8);
                for k in 1..w / 8 {
                    let b = self.ts.extract(a, 8 * k, 8);
                    r = self.ts.concat(r, b);
                }
                self.next(st, c, Some(V::S(r)))
            }
            "bitreverse" => {
                let a = sc(self, 0)?;
                let w = self.ts.w(a);
                let mut r = self.ts.extract(a, 0, 1);
                for k in 1..w {
                    let b = self.ts.extract(a, k, 1);
                    r = self.ts.concat(r, b);
                }
                self.next(st, c, Some(V::S(r)))
            }
            "trap" | "ubsantrap" => {
                let path = st.path.full;
                self.obligation(path, 1, "trap".into(), "abort");
                Ok(Flow::Stop)
            }
            "objectsize" => {
                let w = c.ret.bits().unwrap() as u8;
                let m = self.ts.cst(mask(w), w);
                self.next(st, c, Some(V::S(m)))
            }
            "load" => {
                // llvm.load.relative: base + sext(load i32 (base + off))
                let (p, o) = (sc(self, 0)?, sc(self, 1)?);
                let _ = (p, o);
                Err("llvm.load.relative".into())
            }
            _ => Err(format!("intrinsic llvm.{}", n)),
        }
    }
}
