//! Parser of textual LLVM IR (the subset that rustc emits for safe code with vectorization disabled).

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    /// fields, packed
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other(String),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            _ => 1,
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vec(n, t) => n * t.size(),
            Ty::Other(_) => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Void,
        }
    }
    /// Width in bits of a scalar.
    pub fn bits(&self) -> Option<u32> {
        match self {
            Ty::Int(w) => Some(*w),
            Ty::Ptr => Some(64),
            _ => None,
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Null,
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, C)>),
    Bytes(Vec<u8>),
    /// base + constant offset
    Off(Box<C>, i64),
    /// cast that keeps or changes the width
    Cast(Box<C>),
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Rc<C>),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Ptr(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    /// normal, unwind
    pub invoke: Option<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { dst: u32, size: u64 },
    Load { dst: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, u64)> },
    Bin { dst: u32, op: &'static str, ty: Ty, a: Opd, b: Opd },
    Icmp { dst: u32, pred: &'static str, ty: Ty, a: Opd, b: Opd },
    Select { dst: u32, ty: Ty, c: Opd, a: Opd, b: Opd },
    Cast { dst: u32, op: &'static str, from: Ty, to: Ty, v: Opd },
    Call(Call),
    Extract { dst: u32, ty: Ty, v: Opd, idx: Vec<u32> },
    Insert { dst: u32, ty: Ty, v: Opd, ety: Ty, e: Opd, idx: Vec<u32> },
    Freeze { dst: u32, ty: Ty, v: Opd },
    LandingPad { dst: u32 },
    AtomicRmw { dst: u32, op: String, ty: Ty, p: Opd, v: Opd },
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { ty: Ty, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Resume,
    Bad(String),
}

pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    /// predecessor block -> value
    pub inc: Vec<(u32, Opd)>,
}

pub struct Block {
    pub name: String,
    pub phis: Vec<Phi>,
    pub insts: Vec<I>,
    pub dbg: Vec<u32>,
    pub succs: Vec<u32>,
    pub npreds: u32,
    /// Position in the weak topological order.
    pub pos: u32,
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub demangled: String,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub regnames: Vec<String>,
    /// Live-in registers per block (after phi evaluation).
    pub live_in: Vec<Vec<u32>>,
    pub live_out: Vec<Vec<bool>>,
    pub has_calls_or_branches: bool,
}

pub struct RawFunc {
    pub lines: (usize, usize),
    pub demangled: String,
    pub noreturn: bool,
}

pub struct Global {
    pub ty: Ty,
    pub init: Option<C>,
    pub constant: bool,
}

pub struct Module {
    pub lines: Vec<String>,
    pub funcs: HashMap<String, RawFunc>,
    pub decls: HashMap<String, bool>,
    pub globals: HashMap<String, Global>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
    pub meta: HashMap<u32, String>,
}

// ---------------------------------------------------------------------------------------------
// Lexer

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String),
    Local(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta(String),
    Attr(u32),
    P(char),
    Dots,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s.len() >= i + 3 {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).ok().and_then(|x| u8::from_str_radix(x, 16).ok());
            if let Some(h) = h {
                o.push(h);
                i += 3;
                continue;
            }
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
        }
        o.push(s[i]);
        i += 1;
    }
    o
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' {
            i += 1;
            continue;
        }
        if c == b';' {
            break;
        }
        if c == b'%' || c == b'@' {
            let name;
            if i + 1 < b.len() && b[i + 1] == b'"' {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                name = String::from_utf8_lossy(&b[i + 2..j]).to_string();
                i = j + 1;
            } else {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                name = s[i + 1..j].to_string();
                i = j;
            }
            v.push(if c == b'%' { Tok::Local(name) } else { Tok::Glob(name) });
            continue;
        }
        if c == b'"' || (c == b'c' && i + 1 < b.len() && b[i + 1] == b'"') {
            let st = if c == b'c' { i + 2 } else { i + 1 };
            let mut j = st;
            while b[j] != b'"' {
                j += 1;
            }
            let d = unescape(&b[st..j]);
            v.push(if c == b'c' { Tok::CStr(d) } else { Tok::Str(d) });
            i = j + 1;
            continue;
        }
        if c == b'!' {
            let mut j = i + 1;
            while j < b.len() && idc(b[j]) {
                j += 1;
            }
            v.push(Tok::Meta(s[i + 1..j].to_string()));
            i = j;
            continue;
        }
        if c == b'#' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            v.push(Tok::Attr(s[i + 1..j].parse().unwrap_or(0)));
            i = j;
            continue;
        }
        if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let mut j = i + 1;
            while j < b.len() && idc(b[j]) {
                j += 1;
            }
            v.push(Tok::Num(s[i..j].to_string()));
            i = j;
            continue;
        }
        if c == b'.' && i + 2 < b.len() && b[i + 1] == b'.' {
            v.push(Tok::Dots);
            i += 3;
            continue;
        }
        if idc(c) {
            let mut j = i + 1;
            while j < b.len() && idc(b[j]) {
                j += 1;
            }
            v.push(Tok::W(s[i..j].to_string()));
            i = j;
            continue;
        }
        v.push(Tok::P(c as char));
        i += 1;
    }
    v
}

// ---------------------------------------------------------------------------------------------
// Token parser

pub struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    types: &'a HashMap<String, Ty>,
    regs: Option<&'a mut HashMap<String, u32>>,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected `{}`, got {:?} at {}", c, self.peek(), self.i))
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.expect('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn reg(&mut self, n: &str) -> u32 {
        let m = self.regs.as_mut().expect("register outside of a function");
        let l = m.len() as u32;
        *m.entry(n.to_string()).or_insert(l)
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => {
                w == "ptr"
                    || w == "void"
                    || w == "float"
                    || w == "double"
                    || w == "metadata"
                    || w == "label"
                    || w == "half"
                    || w == "token"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = self.next()?;
        Ok(match t {
            Tok::W(w) => match w.as_str() {
                "ptr" => {
                    if self.is_w("addrspace") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" | "double" | "metadata" | "label" | "half" | "token" => Ty::Other(w),
                _ => {
                    if let Some(d) = w.strip_prefix('i') {
                        Ty::Int(d.parse().map_err(|_| format!("type {}", w))?)
                    } else {
                        return Err(format!("type {}", w));
                    }
                }
            },
            Tok::P('{') => {
                let mut f = Vec::new();
                if !self.eat_p('}') {
                    loop {
                        f.push(self.ty()?);
                        if self.eat_p('}') {
                            break;
                        }
                        self.expect(',')?;
                    }
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("array type".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                Ty::Arr(n as u64, Rc::new(t))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut f = Vec::new();
                    if !self.eat_p('}') {
                        loop {
                            f.push(self.ty()?);
                            if self.eat_p('}') {
                                break;
                            }
                            self.expect(',')?;
                        }
                    }
                    self.expect('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num()?;
                    if !self.eat_w("x") {
                        return Err("vector type".into());
                    }
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ty::Vec(n as u64, Rc::new(t))
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().ok_or(format!("unknown type %{}", n))?,
            x => return Err(format!("type expected, got {:?}", x)),
        })
    }
    fn num(&mut self) -> R<u128> {
        match self.next()? {
            Tok::Num(n) => parse_int(&n),
            x => Err(format!("number expected, got {:?}", x)),
        }
    }
    /// Skips parameter/return attributes.
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = w.clone();
                    if is_value_word(&w) || self.is_type_start() {
                        return Ok(());
                    }
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if w == "align" || w == "alignstack" {
                        self.i += 1;
                    }
                }
                Some(Tok::Attr(_)) | Some(Tok::Str(_)) => {
                    self.i += 1;
                }
                _ => return Ok(()),
            }
        }
    }
    pub fn constant(&mut self, ty: &Ty) -> R<C> {
        let t = self.next()?;
        Ok(match t {
            Tok::Num(n) => C::Int(parse_int(&n)?),
            Tok::W(w) => match w.as_str() {
                "true" => C::Int(1),
                "false" => C::Int(0),
                "null" => C::Null,
                "undef" | "poison" => C::Undef,
                "zeroinitializer" => C::Zero,
                "none" => C::Zero,
                "splat" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let v = self.constant(&t)?;
                    self.expect(')')?;
                    let n = ty.nfields();
                    C::Agg(vec![(t, v); n])
                }
                "getelementptr" => {
                    while let Some(Tok::W(_)) = self.peek() {
                        if self.is_type_start() {
                            break;
                        }
                        self.i += 1;
                        if self.is_w("inrange") {
                            self.i += 1;
                        }
                        if self.is_p('(') {
                            break;
                        }
                    }
                    // `inrange(-16, 8)` puts a parenthesis before the operand list.
                    if self.is_p('(') && matches!(self.t.get(self.i + 1), Some(Tok::Num(_))) {
                        self.skip_parens()?;
                    }
                    self.expect('(')?;
                    let et = self.ty()?;
                    self.expect(',')?;
                    let pt = self.ty()?;
                    self.skip_attrs()?;
                    let base = self.constant(&pt)?;
                    let mut off = 0i64;
                    let mut cur = et.clone();
                    let mut first = true;
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        let v = self.constant(&it)?;
                        let k = match v {
                            C::Int(k) => crate::term::sext(k, it.bits().unwrap_or(64) as u8) as i64,
                            C::Zero | C::Undef => 0,
                            _ => return Err("gep constant index".into()),
                        };
                        if first {
                            off += k * et.size() as i64;
                            first = false;
                        } else {
                            off += cur.field_off(k as usize) as i64;
                            cur = cur.field(k as usize);
                        }
                    }
                    self.expect(')')?;
                    C::Off(Box::new(base), off)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let v = self.constant(&t)?;
                    if !self.eat_w("to") {
                        return Err("constant cast".into());
                    }
                    self.ty()?;
                    self.expect(')')?;
                    C::Cast(Box::new(v))
                }
                _ => {
                    // Unknown constant expression: skip.
                    if self.is_p('(') {
                        self.skip_parens()?;
                    }
                    C::Bad(w)
                }
            },
            Tok::Glob(n) => C::Global(n),
            Tok::CStr(b) => C::Bytes(b),
            Tok::P('{') | Tok::P('[') => {
                let close = if t == Tok::P('{') { '}' } else { ']' };
                let mut f = Vec::new();
                if !self.eat_p(close) {
                    loop {
                        let t = self.ty()?;
                        let v = self.constant(&t)?;
                        f.push((t, v));
                        if self.eat_p(close) {
                            break;
                        }
                        self.expect(',')?;
                    }
                }
                C::Agg(f)
            }
            Tok::P('<') => {
                let st = self.eat_p('{');
                let mut f = Vec::new();
                loop {
                    if st && self.eat_p('}') {
                        break;
                    }
                    let t = self.ty()?;
                    let v = self.constant(&t)?;
                    f.push((t, v));
                    if self.eat_p(',') {
                        continue;
                    }
                    if st {
                        self.expect('}')?;
                    }
                    break;
                }
                self.expect('>')?;
                C::Agg(f)
            }
            x => return Err(format!("constant expected, got {:?}", x)),
        })
    }
    fn value(&mut self, ty: &Ty) -> R<Opd> {
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opd::Reg(self.reg(&n)));
        }
        Ok(Opd::C(Rc::new(self.constant(ty)?)))
    }
    fn tyval(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        self.skip_attrs()?;
        let v = self.value(&t)?;
        Ok((t, v))
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "bitcast" | "none" | "asm" | "trunc" | "sub" | "add"
    )
}

pub fn parse_int(s: &str) -> R<u128> {
    if let Some(r) = s.strip_prefix('-') {
        let v: u128 = r.parse().map_err(|_| format!("int {}", s))?;
        Ok(0u128.wrapping_sub(v))
    } else {
        s.parse().map_err(|_| format!("int {}", s))
    }
}

// ---------------------------------------------------------------------------------------------
// Module

fn starts_inst_cont(l: &str) -> bool {
    let t = l.trim_start();
    l.starts_with("          ") && (t.starts_with("to label") || t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter"))
}

impl Module {
    pub fn load(text: &str) -> R<Module> {
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            lines,
            funcs: HashMap::new(),
            decls: HashMap::new(),
            globals: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            meta: HashMap::new(),
        };
        let mut attr_noreturn: HashMap<u32, bool> = HashMap::new();
        for l in &m.lines {
            if let Some(r) = l.strip_prefix("attributes #") {
                if let Some((n, rest)) = r.split_once(" = ") {
                    attr_noreturn.insert(n.parse().unwrap_or(0), rest.split_whitespace().any(|w| w == "noreturn"));
                }
            }
        }
        let mut comment = String::new();
        let mut i = 0;
        let mut funcs = HashMap::new();
        let mut decls = HashMap::new();
        let mut globals = HashMap::new();
        let mut aliases = HashMap::new();
        let mut types: HashMap<String, Ty> = HashMap::new();
        let mut meta = HashMap::new();
        // Named struct types.
        for l in &m.lines {
            if l.starts_with('%') {
                if let Some((n, r)) = l.split_once(" = type ") {
                    let name = n[1..].trim_matches('"').to_string();
                    let t = lex(r);
                    let ty = {
                        let mut p = P { t, i: 0, types: &types, regs: None };
                        p.ty()
                    };
                    if let Ok(ty) = ty {
                        types.insert(name, ty);
                    }
                }
            }
        }
        while i < m.lines.len() {
            let l = &m.lines[i];
            if let Some(c) = l.strip_prefix("; ") {
                if !c.starts_with("Function Attrs") {
                    comment = c.to_string();
                }
                i += 1;
                continue;
            }
            if l.starts_with("define ") {
                let mut j = i + 1;
                while m.lines[j] != "}" {
                    j += 1;
                }
                let toks = lex(l);
                let name = toks
                    .iter()
                    .find_map(|t| if let Tok::Glob(n) = t { Some(n.clone()) } else { None })
                    .ok_or("define without a name")?;
                let noreturn = toks.iter().any(|t| match t {
                    Tok::Attr(a) => attr_noreturn.get(a).copied().unwrap_or(false),
                    Tok::W(w) => w == "noreturn",
                    _ => false,
                });
                funcs.insert(name, RawFunc { lines: (i, j), demangled: std::mem::take(&mut comment), noreturn });
                i = j + 1;
                continue;
            }
            if l.starts_with("declare ") {
                let toks = lex(l);
                if let Some(name) = toks.iter().find_map(|t| if let Tok::Glob(n) = t { Some(n.clone()) } else { None }) {
                    let noreturn = toks.iter().any(|t| match t {
                        Tok::Attr(a) => attr_noreturn.get(a).copied().unwrap_or(false),
                        _ => false,
                    });
                    decls.insert(name, noreturn);
                }
            } else if l.starts_with('@') {
                let toks = lex(l);
                let mut p = P { t: toks, i: 0, types: &types, regs: None };
                let name = match p.next()? {
                    Tok::Glob(n) => n,
                    _ => String::new(),
                };
                p.expect('=')?;
                let mut kind = 0;
                while let Some(Tok::W(w)) = p.peek() {
                    let w = w.clone();
                    if w == "global" || w == "constant" {
                        kind = if w == "global" { 1 } else { 2 };
                        p.i += 1;
                        break;
                    }
                    if w == "alias" {
                        kind = 3;
                        p.i += 1;
                        break;
                    }
                    p.i += 1;
                    if p.is_p('(') {
                        p.skip_parens()?;
                    }
                }
                if kind == 3 {
                    if let Some(t) = p.t.iter().rev().find_map(|t| if let Tok::Glob(n) = t { Some(n.clone()) } else { None }) {
                        aliases.insert(name, t);
                    }
                } else if kind != 0 {
                    if let Ok(ty) = p.ty() {
                        let init = match p.peek() {
                            None | Some(Tok::P(',')) => None,
                            _ => Some(p.constant(&ty).unwrap_or_else(C::Bad)),
                        };
                        globals.insert(name, Global { ty, init, constant: kind == 2 });
                    }
                }
            } else if l.starts_with('!') {
                if let Some((n, r)) = l[1..].split_once(" = ") {
                    if let Ok(k) = n.parse::<u32>() {
                        if r.starts_with("!DILocation") || r.starts_with("distinct !DILocation") || r.contains("!DISubprogram(") || r.contains("!DILexicalBlock") || r.starts_with("!DINamespace") || r.starts_with("!DIFile") {
                            meta.insert(k, r.to_string());
                        }
                    }
                }
            }
            if !l.is_empty() {
                comment.clear();
            }
            i += 1;
        }
        m.funcs = funcs;
        m.decls = decls;
        m.globals = globals;
        m.aliases = aliases;
        m.types = types;
        m.meta = meta;
        Ok(m)
    }

    pub fn parse_func(&self, name: &str, id: u32) -> R<Func> {
        let raw = self.funcs.get(name).ok_or(format!("no function {}", name))?;
        let (s, e) = raw.lines;
        let mut regs: HashMap<String, u32> = HashMap::new();
        // Signature.
        let mut params = Vec::new();
        // The first block takes the number after those of the unnamed parameters.
        let mut unnamed = 0;
        let ret;
        {
            let toks = lex(&self.lines[s]);
            let mut p = P { t: toks, i: 1, types: &self.types, regs: Some(&mut regs) };
            p.skip_attrs()?;
            ret = p.ty()?;
            match p.next()? {
                Tok::Glob(_) => {}
                x => return Err(format!("function name expected: {:?}", x)),
            }
            p.expect('(')?;
            if !p.eat_p(')') {
                let mut n = 0;
                loop {
                    if p.peek() == Some(&Tok::Dots) {
                        p.i += 1;
                    } else {
                        let t = p.ty()?;
                        p.skip_attrs()?;
                        let nm = match p.peek() {
                            Some(Tok::Local(n)) => {
                                let n = n.clone();
                                p.i += 1;
                                if n.parse::<u32>().is_ok() {
                                    unnamed += 1;
                                }
                                n
                            }
                            _ => {
                                unnamed += 1;
                                n.to_string()
                            }
                        };
                        n += 1;
                        let r = p.reg(&nm);
                        params.push((t, r));
                    }
                    if p.eat_p(')') {
                        break;
                    }
                    p.expect(',')?;
                }
            }
        }
        // Blocks: join continued lines.
        struct RB {
            name: String,
            lines: Vec<String>,
        }
        let mut rbs: Vec<RB> = Vec::new();
        let mut i = s + 1;
        let nparams = unnamed;
        while i < e {
            let l = &self.lines[i];
            i += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if l.starts_with('"') {
                    l[1..].split('"').next().unwrap().to_string()
                } else {
                    l.split(':').next().unwrap().to_string()
                };
                rbs.push(RB { name: lab, lines: Vec::new() });
                continue;
            }
            if rbs.is_empty() {
                rbs.push(RB { name: format!("{}", nparams), lines: Vec::new() });
            }
            let mut full = l.clone();
            let t = l.trim_start();
            if t.starts_with("switch ") && !t.contains(']') {
                while i < e {
                    full.push(' ');
                    full.push_str(&self.lines[i]);
                    i += 1;
                    if self.lines[i - 1].trim_start().starts_with(']') {
                        break;
                    }
                }
            }
            while i < e && starts_inst_cont(&self.lines[i]) {
                full.push(' ');
                full.push_str(&self.lines[i]);
                i += 1;
            }
            rbs.last_mut().unwrap().lines.push(full);
        }
        let mut bidx: HashMap<String, u32> = HashMap::new();
        for (k, b) in rbs.iter().enumerate() {
            bidx.insert(b.name.clone(), k as u32);
        }
        let mut blocks = Vec::new();
        for rb in &rbs {
            let mut b = Block { name: rb.name.clone(), phis: vec![], insts: vec![], dbg: vec![], succs: vec![], npreds: 0, pos: 0 };
            for l in &rb.lines {
                let toks = lex(l);
                let mut dbg = 0;
                for k in 0..toks.len() {
                    if toks[k] == Tok::Meta("dbg".into()) {
                        if let Some(Tok::Meta(n)) = toks.get(k + 1) {
                            dbg = n.parse().unwrap_or(0);
                        }
                    }
                }
                // `#dbg_value(...)` records.
                if matches!(toks.first(), Some(Tok::Attr(_))) {
                    continue;
                }
                let mut p = P { t: toks, i: 0, types: &self.types, regs: Some(&mut regs) };
                match p.inst(&bidx) {
                    Ok(InstOrPhi::Phi(ph)) => b.phis.push(ph),
                    Ok(InstOrPhi::Inst(x)) => {
                        b.insts.push(x);
                        b.dbg.push(dbg);
                    }
                    Err(er) => {
                        b.insts.push(I::Bad(format!("{}: {}", er, l.trim())));
                        b.dbg.push(dbg);
                    }
                }
            }
            b.succs = match b.insts.last() {
                Some(I::Br(x)) => vec![*x],
                Some(I::CondBr(_, x, y)) => vec![*x, *y],
                Some(I::Switch { def, cases, .. }) => {
                    let mut v = vec![*def];
                    v.extend(cases.iter().map(|c| c.1));
                    v.sort();
                    v.dedup();
                    v
                }
                Some(I::Call(c)) => c.invoke.map(|(a, b)| vec![a, b]).unwrap_or_default(),
                _ => vec![],
            };
            blocks.push(b);
        }
        for k in 0..blocks.len() {
            for s in blocks[k].succs.clone() {
                blocks[s as usize].npreds += 1;
            }
        }
        let nregs = regs.len() as u32;
        let mut regnames = vec![String::new(); nregs as usize];
        for (n, &r) in &regs {
            regnames[r as usize] = n.clone();
        }
        let branches = blocks.len() > 1;
        let mut f = Func {
            id,
            name: name.to_string(),
            demangled: raw.demangled.clone(),
            params,
            ret,
            blocks,
            nregs,
            regnames,
            live_in: vec![],
            live_out: vec![],
            has_calls_or_branches: branches,
        };
        wto(&mut f);
        liveness(&mut f);
        Ok(f)
    }
}

enum InstOrPhi {
    Inst(I),
    Phi(Phi),
}

fn stat(s: &str) -> &'static str {
    const ALL: &[&str] = &[
        "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle", "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast",
        "ptrtoaddr",
    ];
    ALL.iter().find(|x| **x == s).copied().unwrap_or("?")
}

impl<'a> P<'a> {
    fn label(&mut self, b: &HashMap<String, u32>) -> R<u32> {
        if !self.eat_w("label") {
            return Err(format!("label expected, got {:?}", self.peek()));
        }
        match self.next()? {
            Tok::Local(n) => b.get(&n).copied().ok_or(format!("unknown label {}", n)),
            x => Err(format!("label expected: {:?}", x)),
        }
    }
    fn dst(&self, d: Option<u32>) -> R<u32> {
        d.ok_or("missing result".into())
    }
    fn inst(&mut self, bl: &HashMap<String, u32>) -> R<InstOrPhi> {
        let mut dst = None;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (self.t.get(0).cloned(), self.t.get(1)) {
            dst = Some(self.reg(&n));
            self.i = 2;
        }
        let op = match self.next()? {
            Tok::W(w) => w,
            x => return Err(format!("opcode expected: {:?}", x)),
        };
        let i = match op.as_str() {
            "alloca" => {
                self.eat_w("inalloca");
                let t = self.ty()?;
                let mut n = 1;
                if self.eat_p(',') && self.is_type_start() {
                    let (_, v) = self.tyval()?;
                    match v {
                        Opd::C(c) => {
                            if let C::Int(k) = *c {
                                n = k as u64
                            }
                        }
                        _ => return Err("dynamic alloca".into()),
                    }
                }
                I::Alloca { dst: self.dst(dst)?, size: t.size() * n }
            }
            "load" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let ty = self.ty()?;
                self.expect(',')?;
                let (_, p) = self.tyval()?;
                I::Load { dst: self.dst(dst)?, ty, p }
            }
            "store" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let (ty, v) = self.tyval()?;
                self.expect(',')?;
                let (_, p) = self.tyval()?;
                I::Store { ty, v, p }
            }
            "getelementptr" => {
                while let Some(Tok::W(_)) = self.peek() {
                    if self.is_type_start() {
                        break;
                    }
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    }
                }
                let et = self.ty()?;
                self.expect(',')?;
                let (_, base) = self.tyval()?;
                let mut off = 0i64;
                let mut idx = Vec::new();
                let mut cur = et.clone();
                let mut first = true;
                while self.eat_p(',') {
                    if matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let (it, v) = self.tyval()?;
                    let w = it.bits().ok_or("gep index type")?;
                    let scale = if first { et.size() } else { cur.field(0).size() };
                    let k = match &v {
                        Opd::C(c) => match **c {
                            C::Int(k) => Some(crate::term::sext(k & crate::term::mask(w as u8), w as u8) as i64),
                            C::Zero | C::Undef | C::Null => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    if first {
                        match k {
                            Some(k) => off += k * scale as i64,
                            None => idx.push((v, w, scale)),
                        }
                        first = false;
                    } else {
                        match k {
                            Some(k) => {
                                off += cur.field_off(k as usize) as i64;
                                cur = cur.field(k as usize);
                            }
                            None => {
                                idx.push((v, w, scale));
                                cur = cur.field(0);
                            }
                        }
                    }
                }
                I::Gep { dst: self.dst(dst)?, base, off, idx }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while self.eat_w("nuw") || self.eat_w("nsw") || self.eat_w("exact") || self.eat_w("disjoint") {}
                let ty = self.ty()?;
                let a = self.value(&ty)?;
                self.expect(',')?;
                let b = self.value(&ty)?;
                I::Bin { dst: self.dst(dst)?, op: stat(&op), ty, a, b }
            }
            "icmp" => {
                self.eat_w("samesign");
                let pr = match self.next()? {
                    Tok::W(w) => w,
                    x => return Err(format!("predicate {:?}", x)),
                };
                let ty = self.ty()?;
                let a = self.value(&ty)?;
                self.expect(',')?;
                let b = self.value(&ty)?;
                I::Icmp { dst: self.dst(dst)?, pred: stat(&pr), ty, a, b }
            }
            "select" => {
                let (ct, c) = self.tyval()?;
                if ct != Ty::Int(1) {
                    return Err("vector select".into());
                }
                self.expect(',')?;
                let (ty, a) = self.tyval()?;
                self.expect(',')?;
                let (_, b) = self.tyval()?;
                I::Select { dst: self.dst(dst)?, ty, c, a, b }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while self.eat_w("nneg") || self.eat_w("nuw") || self.eat_w("nsw") {}
                let (from, v) = self.tyval()?;
                if !self.eat_w("to") {
                    return Err("cast".into());
                }
                let to = self.ty()?;
                I::Cast { dst: self.dst(dst)?, op: stat(&op), from, to, v }
            }
            "phi" => {
                let ty = self.ty()?;
                let mut inc = Vec::new();
                loop {
                    self.expect('[')?;
                    let v = self.value(&ty)?;
                    self.expect(',')?;
                    let b = match self.next()? {
                        Tok::Local(n) => bl.get(&n).copied().ok_or(format!("label {}", n))?,
                        x => return Err(format!("phi label {:?}", x)),
                    };
                    self.expect(']')?;
                    inc.push((b, v));
                    if !(self.is_p(',') && self.t.get(self.i + 1) == Some(&Tok::P('['))) {
                        break;
                    }
                    self.i += 1;
                }
                return Ok(InstOrPhi::Phi(Phi { dst: self.dst(dst)?, ty, inc }));
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    self.i += 1;
                }
                self.skip_attrs()?;
                let ret = self.ty()?;
                if self.is_p('(') {
                    self.skip_parens()?;
                }
                let callee = match self.next()? {
                    Tok::Glob(n) => Callee::Name(n),
                    Tok::Local(n) => Callee::Ptr(Opd::Reg(self.reg(&n))),
                    Tok::W(w) if w == "asm" => {
                        while !self.is_p('(') {
                            self.i += 1;
                            if self.i >= self.t.len() {
                                return Err("asm".into());
                            }
                        }
                        Callee::Asm
                    }
                    x => return Err(format!("callee {:?}", x)),
                };
                self.expect('(')?;
                let mut args = Vec::new();
                if !self.eat_p(')') {
                    loop {
                        let t = self.ty()?;
                        if t == Ty::Other("metadata".into()) {
                            // skip to , or )
                            let mut d = 0;
                            loop {
                                match self.peek() {
                                    Some(Tok::P('(')) => d += 1,
                                    Some(Tok::P(')')) if d == 0 => break,
                                    Some(Tok::P(')')) => d -= 1,
                                    Some(Tok::P(',')) if d == 0 => break,
                                    None => return Err("metadata".into()),
                                    _ => {}
                                }
                                self.i += 1;
                            }
                            args.push((Ty::Void, Opd::C(Rc::new(C::Undef))));
                        } else {
                            self.skip_attrs()?;
                            let v = self.value(&t)?;
                            args.push((t, v));
                        }
                        if self.eat_p(')') {
                            break;
                        }
                        self.expect(',')?;
                    }
                }
                let mut invoke = None;
                if op == "invoke" {
                    while !self.is_w("to") {
                        self.i += 1;
                        if self.i >= self.t.len() {
                            return Err("invoke without labels".into());
                        }
                    }
                    self.i += 1;
                    let a = self.label(bl)?;
                    if !self.eat_w("unwind") {
                        return Err("unwind".into());
                    }
                    let b = self.label(bl)?;
                    invoke = Some((a, b));
                }
                I::Call(Call { dst, ret, callee, args, invoke })
            }
            "extractvalue" => {
                let (ty, v) = self.tyval()?;
                let mut idx = Vec::new();
                while self.eat_p(',') {
                    match self.peek() {
                        Some(Tok::Num(n)) => {
                            idx.push(n.parse().map_err(|_| "index")?);
                            self.i += 1;
                        }
                        _ => break,
                    }
                }
                I::Extract { dst: self.dst(dst)?, ty, v, idx }
            }
            "insertvalue" => {
                let (ty, v) = self.tyval()?;
                self.expect(',')?;
                let (ety, e) = self.tyval()?;
                let mut idx = Vec::new();
                while self.eat_p(',') {
                    match self.peek() {
                        Some(Tok::Num(n)) => {
                            idx.push(n.parse().map_err(|_| "index")?);
                            self.i += 1;
                        }
                        _ => break,
                    }
                }
                I::Insert { dst: self.dst(dst)?, ty, v, ety, e, idx }
            }
            "freeze" => {
                let (ty, v) = self.tyval()?;
                I::Freeze { dst: self.dst(dst)?, ty, v }
            }
            "landingpad" => I::LandingPad { dst: self.dst(dst)? },
            "fence" => I::Nop,
            "atomicrmw" => {
                self.eat_w("volatile");
                let aop = match self.next()? {
                    Tok::W(w) => w,
                    _ => return Err("atomicrmw".into()),
                };
                let (_, p) = self.tyval()?;
                self.expect(',')?;
                let (ty, v) = self.tyval()?;
                I::AtomicRmw { dst: self.dst(dst)?, op: aop, ty, p, v }
            }
            "br" => {
                if self.is_w("label") {
                    I::Br(self.label(bl)?)
                } else {
                    let (_, c) = self.tyval()?;
                    self.expect(',')?;
                    let a = self.label(bl)?;
                    self.expect(',')?;
                    let b = self.label(bl)?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.tyval()?;
                self.expect(',')?;
                let def = self.label(bl)?;
                self.expect('[')?;
                let mut cases = Vec::new();
                while !self.eat_p(']') {
                    let t = self.ty()?;
                    let c = match self.constant(&t)? {
                        C::Int(k) => k & crate::term::mask(t.bits().unwrap_or(64) as u8),
                        _ => return Err("switch case".into()),
                    };
                    self.expect(',')?;
                    let b = self.label(bl)?;
                    cases.push((c, b));
                }
                I::Switch { ty, v, def, cases }
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let v = self.value(&t)?;
                    I::Ret(Some((t, v)))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Resume,
            x => return Err(format!("unsupported instruction {}", x)),
        };
        Ok(InstOrPhi::Inst(i))
    }
}

/// Bourdoncle's weak topological order: loop bodies are contiguous and precede loop exits.
fn wto(f: &mut Func) {
    struct W<'a> {
        succ: &'a [Vec<u32>],
        dfn: Vec<u32>,
        num: u32,
        stack: Vec<u32>,
        out: Vec<u32>, // reversed
    }
    impl<'a> W<'a> {
        fn visit(&mut self, v: u32, part: &mut Vec<u32>) -> u32 {
            self.stack.push(v);
            self.num += 1;
            self.dfn[v as usize] = self.num;
            let mut head = self.num;
            let mut lp = false;
            for k in 0..self.succ[v as usize].len() {
                let s = self.succ[v as usize][k];
                let min = if self.dfn[s as usize] == 0 { self.visit(s, part) } else { self.dfn[s as usize] };
                if min <= head {
                    head = min;
                    lp = true;
                }
            }
            if head == self.dfn[v as usize] {
                self.dfn[v as usize] = u32::MAX;
                let mut e = self.stack.pop().unwrap();
                if lp {
                    while e != v {
                        self.dfn[e as usize] = 0;
                        e = self.stack.pop().unwrap();
                    }
                    // component
                    let mut sub = Vec::new();
                    for k in 0..self.succ[v as usize].len() {
                        let s = self.succ[v as usize][k];
                        if self.dfn[s as usize] == 0 {
                            self.visit(s, &mut sub);
                        }
                    }
                    // `part` is built in reverse order.
                    part.extend(sub);
                    part.push(v);
                } else {
                    part.push(v);
                }
            }
            head
        }
    }
    let succ: Vec<Vec<u32>> = f.blocks.iter().map(|b| b.succs.clone()).collect();
    let n = succ.len();
    let mut w = W { succ: &succ, dfn: vec![0; n], num: 0, stack: vec![], out: vec![] };
    let mut part = Vec::new();
    if n > 0 {
        w.visit(0, &mut part);
    }
    w.out = part;
    let total = w.out.len() as u32;
    for (k, &b) in w.out.iter().enumerate() {
        f.blocks[b as usize].pos = total - 1 - k as u32;
    }
}

fn opd_uses(o: &Opd, v: &mut dyn FnMut(u32)) {
    if let Opd::Reg(r) = o {
        v(*r)
    }
}

pub fn inst_uses(i: &I, v: &mut dyn FnMut(u32)) {
    match i {
        I::Alloca { .. } | I::LandingPad { .. } | I::Nop | I::Br(_) | I::Unreachable | I::Resume | I::Bad(_) => {}
        I::Load { p, .. } => opd_uses(p, v),
        I::Store { v: x, p, .. } => {
            opd_uses(x, v);
            opd_uses(p, v)
        }
        I::Gep { base, idx, .. } => {
            opd_uses(base, v);
            for (o, _, _) in idx {
                opd_uses(o, v)
            }
        }
        I::Bin { a, b, .. } | I::Icmp { a, b, .. } => {
            opd_uses(a, v);
            opd_uses(b, v)
        }
        I::Select { c, a, b, .. } => {
            opd_uses(c, v);
            opd_uses(a, v);
            opd_uses(b, v)
        }
        I::Cast { v: x, .. } | I::Freeze { v: x, .. } | I::Extract { v: x, .. } => opd_uses(x, v),
        I::Insert { v: x, e, .. } => {
            opd_uses(x, v);
            opd_uses(e, v)
        }
        I::AtomicRmw { p, v: x, .. } => {
            opd_uses(p, v);
            opd_uses(x, v)
        }
        I::Call(c) => {
            for (_, a) in &c.args {
                opd_uses(a, v)
            }
            if let Callee::Ptr(p) = &c.callee {
                opd_uses(p, v)
            }
        }
        I::CondBr(c, _, _) => opd_uses(c, v),
        I::Switch { v: x, .. } => opd_uses(x, v),
        I::Ret(Some((_, x))) => opd_uses(x, v),
        I::Ret(None) => {}
    }
}

pub fn inst_def(i: &I) -> Option<u32> {
    match i {
        I::Alloca { dst, .. }
        | I::LandingPad { dst }
        | I::Load { dst, .. }
        | I::Gep { dst, .. }
        | I::Bin { dst, .. }
        | I::Icmp { dst, .. }
        | I::Select { dst, .. }
        | I::Cast { dst, .. }
        | I::Freeze { dst, .. }
        | I::Extract { dst, .. }
        | I::Insert { dst, .. }
        | I::AtomicRmw { dst, .. } => Some(*dst),
        I::Call(c) => c.dst,
        _ => None,
    }
}

fn liveness(f: &mut Func) {
    let n = f.blocks.len();
    let nr = f.nregs as usize;
    // live at block entry after the phis have been evaluated
    let mut lin = vec![vec![false; nr]; n];
    let mut lout = vec![vec![false; nr]; n];
    let mut changed = true;
    while changed {
        changed = false;
        for b in (0..n).rev() {
            let mut live = vec![false; nr];
            for &s in &f.blocks[b].succs {
                let sb = &f.blocks[s as usize];
                let mut l = lin[s as usize].clone();
                for p in &sb.phis {
                    l[p.dst as usize] = false;
                }
                for p in &sb.phis {
                    for (pb, v) in &p.inc {
                        if *pb == b as u32 {
                            opd_uses(v, &mut |r| l[r as usize] = true);
                        }
                    }
                }
                for k in 0..nr {
                    live[k] |= l[k];
                }
            }
            if live != lout[b] {
                lout[b] = live.clone();
                changed = true;
            }
            for i in f.blocks[b].insts.iter().rev() {
                if let Some(d) = inst_def(i) {
                    live[d as usize] = false;
                }
                inst_uses(i, &mut |r| live[r as usize] = true);
            }
            if live != lin[b] {
                lin[b] = live;
                changed = true;
            }
        }
    }
    f.live_in = lin.iter().map(|l| (0..nr as u32).filter(|&k| l[k as usize]).collect()).collect();
    f.live_out = lout;
}
