//! Bit-blasting of terms to an and/xor/mux graph and to CNF, and SAT solver calls.

use crate::term::*;
use std::collections::HashMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type L = u32; // literal: node * 2 + negated

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum G {
    False,
    In(u32, u8),
    And(L, L),
    Xor(L, L),
    Mux(L, L, L),
}

pub struct Blaster {
    gates: Vec<G>,
    map: HashMap<G, u32>,
    bits: Vec<Option<Box<[L]>>>,
}

fn neg(l: L) -> L {
    l ^ 1
}

impl Blaster {
    pub fn new() -> Self {
        Blaster { gates: vec![G::False], map: HashMap::new(), bits: Vec::new() }
    }
    pub fn num_gates(&self) -> usize {
        self.gates.len()
    }
    fn gate(&mut self, g: G) -> L {
        if let Some(&n) = self.map.get(&g) {
            return n * 2;
        }
        let n = self.gates.len() as u32;
        self.gates.push(g);
        self.map.insert(g, n);
        n * 2
    }
    fn and(&mut self, a: L, b: L) -> L {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if a == 0 {
            return 0;
        }
        if a == 1 {
            return b;
        }
        if a == b {
            return a;
        }
        if a == neg(b) {
            return 0;
        }
        self.gate(G::And(a, b))
    }
    fn or(&mut self, a: L, b: L) -> L {
        neg(self.and(neg(a), neg(b)))
    }
    fn xor(&mut self, a: L, b: L) -> L {
        let n = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if a == b {
            return n;
        }
        if a == 0 {
            return b ^ n;
        }
        self.gate(G::Xor(a, b)) ^ n
    }
    fn mux(&mut self, c: L, a: L, b: L) -> L {
        if c == 1 {
            return a;
        }
        if c == 0 {
            return b;
        }
        if a == b {
            return a;
        }
        if c & 1 == 1 {
            return self.mux(neg(c), b, a);
        }
        if a == neg(b) {
            return neg(self.xor(c, a));
        }
        if a == 1 || a == c {
            return self.or(c, b);
        }
        if a == 0 || a == neg(c) {
            return self.and(neg(c), b);
        }
        if b == 0 || b == c {
            return self.and(c, a);
        }
        if b == 1 || b == neg(c) {
            return self.or(neg(c), a);
        }
        if a & 1 == 1 {
            return neg(self.gate(G::Mux(c, neg(a), neg(b))));
        }
        self.gate(G::Mux(c, a, b))
    }
    fn adder(&mut self, a: &[L], b: &[L], cin: L) -> Vec<L> {
        let mut c = cin;
        let mut out = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            let s = self.xor(x, c);
            // carry = x ? c : a
            c = self.mux(x, c, a[i]);
            out.push(s);
        }
        out.push(c);
        out
    }
    fn ult(&mut self, a: &[L], b: &[L]) -> L {
        let mut r = 0; // a < b so far (low bits)
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r = self.mux(x, b[i], r);
        }
        r
    }
    fn eq(&mut self, a: &[L], b: &[L]) -> L {
        let mut r = 1;
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r = self.and(r, neg(x));
            if r == 0 {
                break;
            }
        }
        r
    }
    fn udivrem(&mut self, a: &[L], b: &[L]) -> (Vec<L>, Vec<L>) {
        let w = a.len();
        let mut rem: Vec<L> = vec![0; w];
        let mut q = vec![0; w];
        for i in (0..w).rev() {
            // rem = rem << 1 | a[i] (w + 1 bits)
            let mut r: Vec<L> = vec![a[i]];
            r.extend_from_slice(&rem);
            let mut bb = b.to_vec();
            bb.push(0);
            let lt = self.ult(&r, &bb);
            let nb: Vec<L> = bb.iter().map(|&l| neg(l)).collect();
            let d = self.adder(&r, &nb, 1);
            q[i] = neg(lt);
            rem = (0..w).map(|j| self.mux(lt, r[j], d[j])).collect();
        }
        (q, rem)
    }

    pub fn bits(&mut self, ts: &Terms, t: T) -> Box<[L]> {
        if self.bits.len() < ts.nodes.len() {
            self.bits.resize(ts.nodes.len(), None);
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.bits[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let n = ts.nodes[x as usize];
            let (ch, k) = children(&n);
            let mut ready = true;
            for &c in &ch[..k] {
                if self.bits[c as usize].is_none() {
                    stack.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let mut v = self.step(ts, &n);
            let info = ts.info[x as usize];
            for (i, l) in v.iter_mut().enumerate() {
                if info.zeros >> i & 1 == 1 {
                    *l = 0;
                } else if info.ones >> i & 1 == 1 {
                    *l = 1;
                }
            }
            debug_assert_eq!(v.len(), n.w as usize);
            self.bits[x as usize] = Some(v.into_boxed_slice());
        }
        self.bits[t as usize].clone().unwrap()
    }

    fn step(&mut self, ts: &Terms, n: &Node) -> Vec<L> {
        let w = n.w as usize;
        let (_, k) = children(n);
        let a: Box<[L]> = if k >= 1 { self.bits[n.a as usize].clone().unwrap() } else { Box::new([]) };
        let b: Box<[L]> = if k >= 2 { self.bits[n.b as usize].clone().unwrap() } else { Box::new([]) };
        let c: Box<[L]> = if k >= 3 { self.bits[n.c as usize].clone().unwrap() } else { Box::new([]) };
        match n.op {
            Op::Const => (0..w).map(|i| (n.k >> i & 1) as L).collect(),
            Op::Var => {
                let hi = ts.vars[n.k as usize].hi;
                (0..w).map(|i| if hi >> i == 0 { 0 } else { self.gate(G::In(n.k as u32, i as u8)) }).collect()
            }
            Op::Not => a.iter().map(|&l| neg(l)).collect(),
            Op::And => (0..w).map(|i| self.and(a[i], b[i])).collect(),
            Op::Or => (0..w).map(|i| self.or(a[i], b[i])).collect(),
            Op::Xor => (0..w).map(|i| self.xor(a[i], b[i])).collect(),
            Op::Add => {
                let mut r = self.adder(&a, &b, 0);
                r.truncate(w);
                r
            }
            Op::Sub => {
                let nb: Vec<L> = b.iter().map(|&l| neg(l)).collect();
                let mut r = self.adder(&a, &nb, 1);
                r.truncate(w);
                r
            }
            Op::Mul => {
                let mut acc = vec![0; w];
                for i in 0..w {
                    if b[i] == 0 {
                        continue;
                    }
                    let mut row = vec![0; w];
                    for j in 0..w - i {
                        row[i + j] = self.and(a[j], b[i]);
                    }
                    acc = self.adder(&acc, &row, 0);
                    acc.truncate(w);
                }
                acc
            }
            Op::UDiv | Op::URem => {
                let (q, r) = self.udivrem(&a, &b);
                if n.op == Op::UDiv {
                    q
                } else {
                    r
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                let fill = if n.op == Op::AShr { a[w - 1] } else { 0 };
                let mut cur = a.to_vec();
                let mut s = 0;
                while (1usize << s) < w {
                    let sh = 1usize << s;
                    let sel = b[s];
                    let nxt: Vec<L> = (0..w)
                        .map(|i| {
                            let v = if n.op == Op::Shl {
                                if i >= sh {
                                    cur[i - sh]
                                } else {
                                    0
                                }
                            } else if i + sh < w {
                                cur[i + sh]
                            } else {
                                fill
                            };
                            self.mux(sel, v, cur[i])
                        })
                        .collect();
                    cur = nxt;
                    s += 1;
                }
                // Shift amounts of w or more.
                let mut big = 0;
                for i in s..w {
                    big = self.or(big, b[i]);
                }
                if !w.is_power_of_two() {
                    let wk: Vec<L> = (0..b.len()).map(|i| (w >> i & 1) as L).collect();
                    let lt = self.ult(&b, &wk);
                    big = self.or(big, neg(lt));
                }
                cur.iter().map(|&l| self.mux(big, fill, l)).collect()
            }
            Op::Eq => vec![self.eq(&a, &b)],
            Op::Ult => vec![self.ult(&a, &b)],
            Op::Slt => {
                let l = a.len();
                let (mut x, mut y) = (a.to_vec(), b.to_vec());
                x[l - 1] = neg(x[l - 1]);
                y[l - 1] = neg(y[l - 1]);
                vec![self.ult(&x, &y)]
            }
            Op::Ite => (0..w).map(|i| self.mux(a[0], b[i], c[i])).collect(),
            Op::Concat => {
                let mut v = b.to_vec();
                v.extend_from_slice(&a);
                v
            }
            Op::Extract => a[n.k as usize..n.k as usize + w].to_vec(),
            Op::ZExt => {
                let mut v = a.to_vec();
                v.resize(w, 0);
                v
            }
            Op::SExt => {
                let mut v = a.to_vec();
                let s = v[v.len() - 1];
                v.resize(w, s);
                v
            }
        }
    }

    /// Generates the CNF of the conjunction of the given literals.
    ///
    /// Returns `(num_vars, num_clauses, text, input map)`.
    pub fn cnf(&self, roots: &[L]) -> Cnf {
        let mut var: HashMap<u32, i32> = HashMap::new();
        let mut text: Vec<u8> = Vec::new();
        let mut nc = 0usize;
        let mut nv = 0i32;
        let mut inputs = Vec::new();
        let mut stack: Vec<u32> = Vec::new();
        fn emit(text: &mut Vec<u8>, nc: &mut usize, c: &[i32]) {
            for l in c {
                let _ = write!(text, "{} ", l);
            }
            text.extend_from_slice(b"0\n");
            *nc += 1;
        }
        for &r in roots {
            if r == 1 {
                continue;
            }
            if r == 0 {
                // Contradiction.
                emit(&mut text, &mut nc, &[]);
                continue;
            }
            stack.push(r >> 1);
        }
        while let Some(g) = stack.pop() {
            if var.contains_key(&g) {
                continue;
            }
            nv += 1;
            var.insert(g, nv);
            match self.gates[g as usize] {
                G::False => unreachable!(),
                G::In(v, b) => inputs.push((v, b, nv)),
                G::And(a, b) | G::Xor(a, b) => {
                    stack.push(a >> 1);
                    stack.push(b >> 1);
                }
                G::Mux(c, a, b) => {
                    stack.push(c >> 1);
                    stack.push(a >> 1);
                    stack.push(b >> 1);
                }
            }
        }
        let lit = |l: L| -> i32 {
            let v = var[&(l >> 1)];
            if l & 1 == 1 {
                -v
            } else {
                v
            }
        };
        for (&g, &o) in var.iter() {
            match self.gates[g as usize] {
                G::False | G::In(..) => {}
                G::And(a, b) => {
                    let (a, b) = (lit(a), lit(b));
                    emit(&mut text, &mut nc, &[-o, a]);
                    emit(&mut text, &mut nc, &[-o, b]);
                    emit(&mut text, &mut nc, &[o, -a, -b]);
                }
                G::Xor(a, b) => {
                    let (a, b) = (lit(a), lit(b));
                    emit(&mut text, &mut nc, &[-o, a, b]);
                    emit(&mut text, &mut nc, &[-o, -a, -b]);
                    emit(&mut text, &mut nc, &[o, -a, b]);
                    emit(&mut text, &mut nc, &[o, a, -b]);
                }
                G::Mux(c, a, b) => {
                    let (c, a, b) = (lit(c), lit(a), lit(b));
                    emit(&mut text, &mut nc, &[-c, -a, o]);
                    emit(&mut text, &mut nc, &[-c, a, -o]);
                    emit(&mut text, &mut nc, &[c, -b, o]);
                    emit(&mut text, &mut nc, &[c, b, -o]);
                    emit(&mut text, &mut nc, &[-a, -b, o]);
                    emit(&mut text, &mut nc, &[a, b, -o]);
                }
            }
        }
        for &r in roots {
            if r > 1 {
                let l = lit(r);
                emit(&mut text, &mut nc, &[l]);
            }
        }
        Cnf { vars: nv as usize, clauses: nc, text, inputs }
    }
}

pub struct Cnf {
    pub vars: usize,
    pub clauses: usize,
    pub text: Vec<u8>,
    pub inputs: Vec<(u32, u8, i32)>,
}

#[derive(Debug, Clone)]
pub enum Answer {
    Sat(Vec<u128>),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: usize,
    pub sat: usize,
    pub unsat: usize,
    pub time: f64,
    pub max_vars: usize,
    pub max_clauses: usize,
}

pub fn solver_path() -> String {
    if let Ok(p) = std::env::var("TSYM_SAT") {
        return p;
    }
    for p in ["/usr/local/bin/kissat", "/root/.kani/kani-0.68.0/bin/kissat", "/usr/bin/kissat"] {
        if std::path::Path::new(p).exists() {
            return p.to_string();
        }
    }
    "kissat".to_string()
}

/// Runs the SAT solver on the CNF.
pub fn run_sat(cnf: &Cnf, nvars: usize, limit: Duration) -> Answer {
    let mut header = format!("p cnf {} {}\n", cnf.vars.max(1), cnf.clauses).into_bytes();
    header.extend_from_slice(&cnf.text);
    let path = solver_path();
    let mut cmd = Command::new(&path);
    if path.ends_with("kissat") {
        cmd.arg("-q").arg("--relaxed").arg(format!("--time={}", limit.as_secs().max(1)));
    } else if path.ends_with("cadical") {
        cmd.arg("-q").arg("-t").arg(format!("{}", limit.as_secs().max(1)));
    }
    let child = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => return Answer::Unknown(format!("cannot start {}: {}", path, e)),
    };
    let mut stdin = child.stdin.take().unwrap();
    let th = std::thread::spawn(move || {
        let _ = stdin.write_all(&header);
    });
    let out = match child.wait_with_output() {
        Ok(o) => o,
        Err(e) => return Answer::Unknown(format!("solver failed: {}", e)),
    };
    let _ = th.join();
    let s = String::from_utf8_lossy(&out.stdout);
    if s.lines().any(|l| l == "s UNSATISFIABLE") {
        return Answer::Unsat;
    }
    if s.lines().any(|l| l == "s SATISFIABLE") {
        let mut vals: HashMap<i32, bool> = HashMap::new();
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("v ") {
                for t in r.split_whitespace() {
                    if let Ok(v) = t.parse::<i32>() {
                        vals.insert(v.abs(), v > 0);
                    }
                }
            }
        }
        let mut model = vec![0u128; nvars];
        for &(v, b, cv) in &cnf.inputs {
            if vals.get(&cv).copied().unwrap_or(false) {
                model[v as usize] |= 1u128 << b;
            }
        }
        return Answer::Sat(model);
    }
    Answer::Unknown(format!("no answer (exit {:?})", out.status.code()))
}

/// Clauses for the conjunction of boolean terms and the declared variable ranges.
/// `None`: trivially unsatisfiable.
pub fn prepare(ts: &Terms, bl: &mut Blaster, conj: &[T]) -> Option<Cnf> {
    let mut roots = Vec::new();
    for &c in conj {
        let b = bl.bits(ts, c);
        roots.push(b[0]);
    }
    if roots.iter().any(|&r| r == 0) {
        return None;
    }
    let cnf0 = bl.cnf(&roots);
    let mut used: Vec<u32> = cnf0.inputs.iter().map(|x| x.0).collect();
    used.sort();
    used.dedup();
    let mut extra = false;
    for v in used {
        let hi = ts.vars[v as usize].hi;
        if hi & (hi + 1) != 0 {
            let w = ts.vars[v as usize].w as usize;
            let a: Vec<L> = (0..w).map(|i| if hi >> i == 0 { 0 } else { bl.gate(G::In(v, i as u8)) }).collect();
            let b: Vec<L> = (0..w).map(|i| (hi >> i & 1) as L).collect();
            let gt = bl.ult(&b, &a);
            roots.push(neg(gt));
            extra = true;
        }
    }
    if roots.iter().any(|&r| r == 0) {
        return None;
    }
    Some(if extra { bl.cnf(&roots) } else { cnf0 })
}

/// Checks satisfiability of the conjunction of boolean terms.
pub fn check(ts: &Terms, bl: &mut Blaster, conj: &[T], limit: Duration, st: &mut Stats) -> Answer {
    st.queries += 1;
    let cnf = match prepare(ts, bl, conj) {
        None => {
            st.unsat += 1;
            return Answer::Unsat;
        }
        Some(c) => c,
    };
    st.max_vars = st.max_vars.max(cnf.vars);
    st.max_clauses = st.max_clauses.max(cnf.clauses);
    let t0 = Instant::now();
    let a = run_sat(&cnf, ts.vars.len(), limit);
    st.time += t0.elapsed().as_secs_f64();
    match a {
        Answer::Sat(_) => st.sat += 1,
        Answer::Unsat => st.unsat += 1,
        _ => {}
    }
    a
}

/// Renders the conjunction of boolean terms as an SMT-LIB2 script (QF_BV).
pub fn smt2(ts: &Terms, conj: &[T]) -> String {
    use std::fmt::Write as _;
    let mut o = String::from("(set-logic QF_BV)\n");
    let mut done = vec![false; ts.nodes.len()];
    for (i, v) in ts.vars.iter().enumerate() {
        let _ = writeln!(o, "(declare-const v{} (_ BitVec {}))", i, v.w);
        if v.hi != mask(v.w) {
            let _ = writeln!(o, "(assert (bvule v{} (_ bv{} {})))", i, v.hi, v.w);
        }
    }
    let mut stack: Vec<T> = conj.to_vec();
    while let Some(&x) = stack.last() {
        if done[x as usize] {
            stack.pop();
            continue;
        }
        let n = ts.nodes[x as usize];
        let (ch, k) = children(&n);
        let mut ready = true;
        for &c in &ch[..k] {
            if !done[c as usize] {
                stack.push(c);
                ready = false;
            }
        }
        if !ready {
            continue;
        }
        stack.pop();
        done[x as usize] = true;
        let (a, b, c) = (format!("t{}", n.a), format!("t{}", n.b), format!("t{}", n.c));
        let bool1 = |s: String| format!("(ite {} #b1 #b0)", s);
        let e = match n.op {
            Op::Const => format!("(_ bv{} {})", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Not => format!("(bvnot {})", a),
            Op::And => format!("(bvand {} {})", a, b),
            Op::Or => format!("(bvor {} {})", a, b),
            Op::Xor => format!("(bvxor {} {})", a, b),
            Op::Add => format!("(bvadd {} {})", a, b),
            Op::Sub => format!("(bvsub {} {})", a, b),
            Op::Mul => format!("(bvmul {} {})", a, b),
            Op::UDiv => format!("(bvudiv {} {})", a, b),
            Op::URem => format!("(bvurem {} {})", a, b),
            Op::Shl => format!("(bvshl {} {})", a, b),
            Op::LShr => format!("(bvlshr {} {})", a, b),
            Op::AShr => format!("(bvashr {} {})", a, b),
            Op::Eq => bool1(format!("(= {} {})", a, b)),
            Op::Ult => bool1(format!("(bvult {} {})", a, b)),
            Op::Slt => bool1(format!("(bvslt {} {})", a, b)),
            Op::Ite => format!("(ite (= {} #b1) {} {})", a, b, c),
            Op::Concat => format!("(concat {} {})", a, b),
            Op::Extract => format!("((_ extract {} {}) {})", n.k as usize + n.w as usize - 1, n.k, a),
            Op::ZExt => format!("((_ zero_extend {}) {})", n.w - ts.w(n.a), a),
            Op::SExt => format!("((_ sign_extend {}) {})", n.w - ts.w(n.a), a),
        };
        let _ = writeln!(o, "(define-fun t{} () (_ BitVec {}) {})", x, n.w, e);
    }
    for &c in conj {
        let _ = writeln!(o, "(assert (= t{} #b1))", c);
    }
    o.push_str("(check-sat)\n");
    o
}
