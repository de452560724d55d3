//! Parser for textual LLVM IR (the subset rustc + opt produce).
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, F64, F32, Vec(u32, Box<Ty>), Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Label, Meta, Opaque }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let al = self.align(); (b + al - 1) / al * al }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => { let bits = *n as u64 * t.bits(); ((bits + 7) / 8).next_power_of_two() }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0; let mut ma = 1;
                for t in ts { if !packed { let a = t.align(); ma = ma.max(a); o = (o + a - 1) / a * a; } o += t.size(); }
                (o + ma - 1) / ma * ma
            }
            _ => 0,
        }
    }
    /// bytes written by a store (no tail padding)
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn bits(&self) -> u64 { match self { Ty::Int(w) => *w as u64, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => *n as u64 * t.bits(), _ => self.size() * 8 } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(..) => self.size(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, p) => if *p { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i as u64, t),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (j, t) in ts.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if i == j { return (o, t); }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn w(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("w of {:?}", self) } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) }
    pub fn elems(&self) -> Vec<Ty> {
        match self {
            Ty::Struct(ts, _) => ts.clone(),
            Ty::Arr(n, t) => vec![(**t).clone(); *n as usize],
            Ty::Vec(n, t) => vec![(**t).clone(); *n as usize],
            _ => vec![],
        }
    }
}

/// Constant values.
#[derive(Clone, Debug)]
pub enum Cv { Int(u128), Agg(Vec<Cv>), Undef }

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), C(u128), Agg(Vec<Cv>), Undef }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Reg(Opd), Asm(String) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, BinOp, Ty, Opd, Opd),
    Icmp(u32, Pred, Ty, Opd, Opd),
    Fcmp(u32, String, Ty, Opd, Opd),
    FNeg(u32, Ty, Opd),
    Select(u32, Ty, Opd, bool, Opd, Opd), // bool: vector condition
    Cast(u32, Cast, Ty, Opd, Ty),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u16, u64)>), // const offset, (index, index width, scale)
    Alloca(u32, u64),
    Call(Option<u32>, Callee, Ty, Vec<(Ty, Opd)>, Option<u32>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opd>),
    Unreachable,
    ExtractValue(u32, Opd, Vec<u32>, Ty),
    InsertValue(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Ty, Opd, Opd),
    InsertElement(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Ty, Opd, Opd, Vec<Option<u32>>),
    AtomicRmw(u32, String, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Freeze(u32, Ty, Opd),
    Nop,
    LandingPad,
    Unsupported(String),
}

pub struct Block { pub name: String, pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>, pub insts: Vec<Inst> }
pub struct Func { pub name: String, pub params: Vec<(Ty, u32)>, pub blocks: Vec<Block>, pub nregs: u32, pub ret: Ty, pub defined: bool }
pub struct Global { pub name: String, pub ty: Ty, pub init: Option<Vec<u8>>, pub constant: bool }
pub struct Module { pub funcs: Vec<Func>, pub fn_by_name: HashMap<String, u32>, pub globals: Vec<Global>, pub gl_by_name: HashMap<String, u32> }

pub const FN_BASE: u64 = 1 << 30; // object id base of functions
pub fn fn_addr(i: u32) -> u64 { (FN_BASE + i as u64) << 32 }
pub fn gl_addr(i: u32) -> u64 { (1 + i as u64) << 32 }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tok<'a> { W(&'a str), L(&'a str), G(&'a str), N(&'a str), S(&'a str), P(char), M(&'a str) }

fn lex<'a>(s: &'a str) -> Vec<Tok<'a>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let st;
                let en;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st; while b[j] != b'"' { j += 1; }
                    en = j; i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st; while j < b.len() && idc(b[j]) { j += 1; }
                    en = j; i = j;
                }
                out.push(if c == b'%' { Tok::L(&s[st..en]) } else { Tok::G(&s[st..en]) });
            }
            b'"' => { let mut j = i + 1; while b[j] != b'"' { j += 1; } out.push(Tok::S(&s[i + 1..j])); i = j + 1; }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let mut j = i + 2; while b[j] != b'"' { j += 1; } out.push(Tok::S(&s[i + 2..j])); i = j + 1; }
            b'!' | b'#' | b'$' => { let mut j = i + 1; while j < b.len() && idc(b[j]) { j += 1; } out.push(Tok::M(&s[i..j])); i = j; }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e' || b[j-1] == b'p'))) { j += 1; }
                out.push(Tok::N(&s[i..j])); i = j;
            }
            b'+' => { let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; } out.push(Tok::W(&s[i..j])); i = j; }
            _ if c.is_ascii_alphabetic() || c == b'_' => { let mut j = i + 1; while j < b.len() && idc(b[j]) { j += 1; } out.push(Tok::W(&s[i..j])); i = j; }
            b'.' => { let mut j = i; while j < b.len() && b[j] == b'.' { j += 1; } out.push(Tok::W(&s[i..j])); i = j; }
            _ => { out.push(Tok::P(c as char)); i += 1; }
        }
    }
    out
}

struct P<'a, 'm> { t: Vec<Tok<'a>>, i: usize, m: &'m Names, regs: Option<&'m mut HashMap<String, u32>> }
pub struct Names { fns: HashMap<String, u32>, gls: HashMap<String, u32>, types: HashMap<String, Ty> }

impl<'a, 'm> P<'a, 'm> {
    fn peek(&self) -> Option<Tok<'a>> { self.t.get(self.i).copied() }
    fn next(&mut self) -> Tok<'a> { let t = self.t[self.i]; self.i += 1; t }
    fn is_p(&self, c: char) -> bool { self.peek() == Some(Tok::P(c)) }
    fn is_w(&self, w: &str) -> bool { self.peek() == Some(Tok::W(w)) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn expect(&mut self, c: char) { if !self.eat_p(c) { panic!("expected {} at {:?} in {:?}", c, &self.t[self.i..(self.i + 5).min(self.t.len())], self.t) } }
    fn skip_parens(&mut self) { // at '('
        let mut d = 0;
        loop { match self.next() { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return; } } _ => {} } }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => matches!(w, "ptr" | "void" | "double" | "float" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::L(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::W("ptr") => { if self.eat_w("addrspace") { self.skip_parens(); } Ty::Ptr }
            Tok::W("void") => Ty::Void, Tok::W("double") => Ty::F64, Tok::W("float") => Ty::F32, Tok::W("label") => Ty::Label,
            Tok::W("metadata") => Ty::Meta, Tok::W("token") => Ty::Meta, Tok::W("opaque") => Ty::Opaque,
            Tok::W("half") => Ty::Int(16), Tok::W("x86_fp80") => Ty::Int(80), Tok::W("fp128") => Ty::Int(128),
            Tok::W(w) if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
            Tok::P('[') => { let n = self.num() as u64; assert!(self.eat_w("x")); let t = self.ty(); self.expect(']'); Ty::Arr(n, Box::new(t)) }
            Tok::P('<') => {
                if self.eat_p('{') { let ts = self.tys('}'); self.expect('>'); Ty::Struct(ts, true) }
                else { let n = self.num() as u32; assert!(self.eat_w("x")); let t = self.ty(); self.expect('>'); Ty::Vec(n, Box::new(t)) }
            }
            Tok::P('{') => { let ts = self.tys('}'); Ty::Struct(ts, false) }
            Tok::L(n) => self.m.types.get(n).cloned().unwrap_or_else(|| panic!("type %{}", n)),
            t => panic!("type? {:?} in {:?}", t, self.t),
        }
    }
    fn tys(&mut self, close: char) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat_p(close) { return v; }
        loop { v.push(self.ty()); if self.eat_p(close) { return v; } self.expect(','); }
    }
    fn num(&mut self) -> i128 { match self.next() { Tok::N(s) => s.parse().unwrap_or_else(|_| panic!("num {}", s)), t => panic!("num? {:?} in {:?}", t, self.t) } }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().expect("local outside function");
        let l = r.len() as u32;
        *r.entry(n.to_string()).or_insert(l)
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "splat" | "add" | "sub" | "trunc" | "xor" | "mul" | "blockaddress" | "dso_local_equivalent" | "no_cfi" | "addrspacecast" | "asm" | "bitcast") { return; }
                    if w.starts_with("f0x") { return; }
                    if w == "metadata" { return; }
                    self.i += 1;
                    if w == "align" { if let Some(Tok::N(_)) = self.peek() { self.i += 1; } }
                    if self.is_p('(') { self.skip_parens(); }
                }
                Some(Tok::S(_)) => {
                    // string attribute "a"="b" (only attribute if '=' follows or another attr); constants use c"..", lexed the same
                    if self.t.get(self.i + 1) == Some(&Tok::P('=')) { self.i += 3; } else { return; }
                }
                _ => return,
            }
        }
    }
    /// parse a constant of given type
    fn cv(&mut self, ty: &Ty) -> Cv {
        match self.next() {
            Tok::W("true") => Cv::Int(1), Tok::W("false") => Cv::Int(0),
            Tok::W("null") | Tok::W("none") => Cv::Int(0),
            Tok::W("undef") | Tok::W("poison") => Cv::Undef,
            Tok::W("zeroinitializer") => zero(ty),
            Tok::N(s) => match ty {
                Ty::F64 | Ty::F32 => fl(ty, s),
                _ => Cv::Int(int(s, ty.w())),
            },
            Tok::W(w) if w.starts_with("f0x") => fl(ty, &w[1..]),
            Tok::W("+inf") => fl(ty, "inf"), 
            Tok::S(s) => Cv::Agg(unescape(s).into_iter().map(|b| Cv::Int(b as u128)).collect()),
            Tok::G(n) => Cv::Int(self.gaddr(n) as u128),
            Tok::W("dso_local_equivalent") | Tok::W("no_cfi") => self.cv(ty),
            Tok::W("splat") => { self.expect('('); let t = self.ty(); let c = self.cv(&t); self.expect(')');
                if let Ty::Vec(n, _) = ty { Cv::Agg(vec![c; *n as usize]) } else { panic!() } }
            Tok::W("getelementptr") => {
                while let Some(Tok::W(w)) = self.peek() { let _ = w; self.i += 1; if w == "inrange" { self.skip_parens(); } }
                self.expect('(');
                let t = self.ty(); self.expect(',');
                let (_, base) = self.tcv();
                let mut idx = vec![];
                while self.eat_p(',') { let (it, c) = self.tcv(); idx.push((it, c)); }
                self.expect(')');
                let mut a = cint(&base);
                let mut cur = t.clone();
                for (j, (it, c)) in idx.iter().enumerate() {
                    let v = sx(cint(c), it.w());
                    if j == 0 { a = a.wrapping_add((v.wrapping_mul(cur.size() as i128)) as u128); }
                    else if let Ty::Struct(..) = cur { let (o, f) = cur.field_off(v as usize); let f = f.clone(); a = a.wrapping_add(o as u128); cur = f; }
                    else { let (_, f) = cur.field_off(0); let f = f.clone(); a = a.wrapping_add((v.wrapping_mul(f.size() as i128)) as u128); cur = f; }
                }
                Cv::Int(a & 0xffff_ffff_ffff_ffff)
            }
            Tok::W("ptrtoint") | Tok::W("ptrtoaddr") | Tok::W("inttoptr") | Tok::W("trunc") | Tok::W("addrspacecast") | Tok::W("bitcast") => {
                self.expect('('); let (_, c) = self.tcv(); assert!(self.eat_w("to")); let t = self.ty(); self.expect(')');
                match c { Cv::Int(v) => Cv::Int(v & crate::expr::mask(t.w())), c => c }
            }
            Tok::W(w @ ("add" | "sub" | "xor" | "mul")) => {
                while let Some(Tok::W(_)) = self.peek() { self.i += 1; }
                self.expect('('); let (t, a) = self.tcv(); self.expect(','); let (_, b) = self.tcv(); self.expect(')');
                let (a, b) = (cint(&a), cint(&b));
                Cv::Int(match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), _ => a ^ b } & crate::expr::mask(t.w()))
            }
            Tok::P('{') => self.agg('}'),
            Tok::P('[') => self.agg(']'),
            Tok::P('<') => if self.eat_p('{') { let a = self.agg('}'); self.expect('>'); a } else { self.agg('>') },
            t => panic!("const? {:?} {:?} in {:?}", t, ty, self.t),
        }
    }
    fn agg(&mut self, close: char) -> Cv {
        let mut v = vec![];
        if self.eat_p(close) { return Cv::Agg(v); }
        loop { v.push(self.tcv().1); if self.eat_p(close) { return Cv::Agg(v); } self.expect(','); }
    }
    fn tcv(&mut self) -> (Ty, Cv) { let t = self.ty(); self.skip_attrs(); let c = self.cv(&t); (t, c) }
    fn gaddr(&self, n: &str) -> u64 {
        if let Some(&g) = self.m.gls.get(n) { return gl_addr(g); }
        if let Some(&f) = self.m.fns.get(n) { return fn_addr(f); }
        panic!("unknown global {}", n)
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if let Some(Tok::L(n)) = self.peek() { self.i += 1; return Opd::Reg(self.reg(n)); }
        match self.cv(ty) { Cv::Int(v) => Opd::C(v), Cv::Agg(a) => Opd::Agg(a), Cv::Undef => Opd::Undef }
    }
    fn topd(&mut self) -> (Ty, Opd) { let t = self.ty(); self.skip_attrs(); if t == Ty::Meta { // metadata operand
            let mut d = 0; loop { match self.peek() { Some(Tok::P('(')) => d += 1, Some(Tok::P(')')) => { if d == 0 { break; } d -= 1 } Some(Tok::P(',')) if d == 0 => break, None => break, _ => {} } self.i += 1; }
            return (t, Opd::Undef); }
        let o = self.opd(&t); (t, o) }
}
fn cint(c: &Cv) -> u128 { match c { Cv::Int(v) => *v, Cv::Undef => 0, _ => panic!("agg as int") } }
fn sx(v: u128, w: u16) -> i128 { crate::expr::sext(v, w) }
fn zero(ty: &Ty) -> Cv { if ty.is_agg() { Cv::Agg(ty.elems().iter().map(zero).collect()) } else { Cv::Int(0) } }
fn int(s: &str, w: u16) -> u128 {
    let m = crate::expr::mask(w);
    if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().unwrap().wrapping_neg()) & m } else { s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s)) & m }
}
fn fl(ty: &Ty, s: &str) -> Cv {
    let bits = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).expect("float hex") } else { s.parse::<f64>().expect("float").to_bits() };
    match ty { Ty::F32 => Cv::Int((f64::from_bits(bits) as f32).to_bits() as u128), _ => Cv::Int(bits as u128) }
}
fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else if b[i] == b'\\' { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; } else { o.push(b[i]); i += 1; }
    }
    o
}
pub fn ser(ty: &Ty, c: &Cv, out: &mut [u8]) {
    match c {
        Cv::Undef => {}
        Cv::Int(v) => { let n = ty.store_size() as usize; for i in 0..n { out[i] = (v >> (8 * i)) as u8; } }
        Cv::Agg(a) => {
            match ty {
                Ty::Arr(_, t) if t.size() == 1 => for (i, x) in a.iter().enumerate() { ser(t, x, &mut out[i..i + 1]); },
                _ => for (i, x) in a.iter().enumerate() { let (o, f) = ty.field_off(i); let o = o as usize; let n = f.size() as usize; ser(f, x, &mut out[o..o + n]); },
            }
        }
    }
}

pub fn parse(src: &str) -> Module {
    let mut names = Names { fns: HashMap::new(), gls: HashMap::new(), types: HashMap::new() };
    let mut funcs: Vec<Func> = vec![];
    let mut globals: Vec<Global> = vec![];
    let lines: Vec<&str> = src.lines().collect();
    // pass 1: names
    let mut typedefs = vec![];
    for l in &lines {
        if l.starts_with("define ") || l.starts_with("declare ") {
            let at = l.find('@').unwrap();
            let t = lex(&l[at..l[at..].find('(').map(|x| at + x).unwrap()]);
            if let Tok::G(n) = t[0] { names.fns.insert(n.to_string(), funcs.len() as u32);
                funcs.push(Func { name: n.to_string(), params: vec![], blocks: vec![], nregs: 0, ret: Ty::Void, defined: false }); }
        } else if l.starts_with('@') {
            let e = l.find(" = ").unwrap();
            if let Tok::G(n) = lex(&l[..e])[0] { names.gls.insert(n.to_string(), globals.len() as u32);
                globals.push(Global { name: n.to_string(), ty: Ty::Void, init: None, constant: false }); }
        } else if l.starts_with('%') && l.contains(" = type ") { typedefs.push(*l); }
    }
    for l in typedefs {
        let t = lex(l);
        let n = if let Tok::L(n) = t[0] { n } else { panic!() };
        let ty = { let mut p = P { t, i: 3, m: &names, regs: None }; p.ty() };
        names.types.insert(n.to_string(), ty);
    }
    let mut i = 0;
    let mut aliases: Vec<(u32, u64)> = vec![];
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let t = lex(l);
            let gi = if let Tok::G(n) = t[0] { names.gls[n] } else { panic!() };
            let mut p = P { t, i: 2, m: &names, regs: None };
            let mut ext = false; let mut constant = false; let mut alias = false;
            loop {
                match p.peek() {
                    Some(Tok::W("global")) => { p.i += 1; break; }
                    Some(Tok::W("constant")) => { p.i += 1; constant = true; break; }
                    Some(Tok::W("alias")) => { p.i += 1; alias = true; break; }
                    Some(Tok::W("external")) | Some(Tok::W("extern_weak")) => { ext = true; p.i += 1; }
                    Some(Tok::P('(')) => p.skip_parens(),
                    _ => { p.i += 1; }
                }
            }
            let ty = p.ty();
            if alias { p.expect(','); let (_, c) = p.tcv(); aliases.push((gi, cint(&c) as u64)); }
            else {
                let g = &mut globals[gi as usize];
                g.constant = constant;
                let mut buf = vec![0u8; ty.size() as usize];
                if !ext { p.skip_attrs(); if !(p.peek().is_none() || p.is_p(',')) { let c = p.cv(&ty); ser(&ty, &c, &mut buf); } g.init = Some(buf); }
                g.ty = ty;
            }
            i += 1;
        } else if l.starts_with("declare ") || l.starts_with("define ") {
            let def = l.starts_with("define ");
            let mut regs: HashMap<String, u32> = HashMap::new();
            let fi;
            {
                let t = lex(l);
                let mut p = P { t, i: 1, m: &names, regs: Some(&mut regs) };
                // skip to return type
                loop {
                    if p.is_type_start() { break; }
                    match p.next() { Tok::W("align") => { p.i += 1; } Tok::W("cc") => { p.i += 1; } _ => {} }
                    if p.is_p('(') { p.skip_parens(); }
                }
                let ret = p.ty();
                let n = match p.next() { Tok::G(n) => n, t => panic!("{:?}", t) };
                fi = names.fns[n];
                p.expect('(');
                let mut params = vec![];
                let mut anon = 0;
                if !p.eat_p(')') {
                    loop {
                        if p.eat_w("...") { p.expect(')'); break; }
                        let t = p.ty();
                        p.skip_attrs();
                        let r = match p.peek() { Some(Tok::L(n)) => { p.i += 1; p.reg(n) } _ => { let s = format!("{}", anon); p.reg(&s) } };
                        anon += 1;
                        params.push((t, r));
                        if p.eat_p(')') { break; }
                        p.expect(',');
                    }
                }
                let f = &mut funcs[fi as usize];
                f.ret = ret; f.params = params; f.defined = def;
            }
            i += 1;
            if !def { continue; }
            // collect body lines
            let mut body: Vec<String> = vec![];
            while lines[i] != "}" {
                let l = lines[i];
                let tr = l.trim_start();
                if tr.is_empty() || tr.starts_with(';') { i += 1; continue; }
                if !l.starts_with(' ') { body.push(l.to_string()); i += 1; continue; }
                if tr.starts_with("switch ") && !l.contains(']') {
                    let mut s = l.to_string(); i += 1;
                    loop { s.push(' '); s.push_str(lines[i]); let e = lines[i].trim_start().starts_with(']'); i += 1; if e { break; } }
                    body.push(s); continue;
                }
                if l.starts_with("          ") || tr.starts_with("#dbg") {
                    if tr.starts_with("#dbg") { i += 1; continue; }
                    let k = body.len() - 1; body[k].push(' '); body[k].push_str(l); i += 1; continue;
                }
                body.push(l.to_string()); i += 1;
            }
            // blocks
            let mut bid: HashMap<String, u32> = HashMap::new();
            let mut nb = 0;
            let is_label = |s: &str| !s.starts_with(' ');
            let lname = |s: &str| -> String { let e = s.find(':').unwrap(); s[..e].trim_matches('"').to_string() };
            if !is_label(&body[0]) { bid.insert("\0entry".into(), 0); nb = 1; }
            for s in &body { if is_label(s) { bid.insert(lname(s), nb); nb += 1; } }
            let mut blocks: Vec<Block> = vec![];
            if !is_label(&body[0]) { // unnamed entry: its number is the next anonymous
                let n = funcs[fi as usize].params.len();
                bid.insert(format!("{}", n), 0);
                blocks.push(Block { name: "entry".into(), phis: vec![], insts: vec![] });
            }
            for s in &body {
                if is_label(s) { blocks.push(Block { name: lname(s), phis: vec![], insts: vec![] }); continue; }
                let t = lex(s);
                let mut p = P { t, i: 0, m: &names, regs: Some(&mut regs) };
                let b = blocks.last_mut().unwrap();
                parse_inst(&mut p, b, &bid, s);
            }
            let f = &mut funcs[fi as usize];
            f.blocks = blocks;
            f.nregs = regs.len() as u32;
            i += 1;
        } else { i += 1; }
    }
    let _ = aliases;
    Module { funcs, fn_by_name: names.fns, globals, gl_by_name: names.gls }
}

fn parse_inst(p: &mut P, b: &mut Block, bid: &HashMap<String, u32>, src: &str) {
    let mut dst = None;
    if let (Some(Tok::L(n)), Some(Tok::P('='))) = (p.peek(), p.t.get(1).copied()) { dst = Some(p.reg(n)); p.i = 2; }
    let op = match p.next() { Tok::W(w) => w, t => panic!("inst {:?} {}", t, src) };
    let d = dst.unwrap_or(0);
    let lbl = |p: &mut P| -> u32 { assert!(p.eat_w("label"), "{}", src); match p.next() { Tok::L(n) => *bid.get(n).unwrap_or_else(|| panic!("label {} in {}", n, src)), _ => panic!() } };
    let binop = match op { "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "mul" => Some(BinOp::Mul), "udiv" => Some(BinOp::UDiv), "sdiv" => Some(BinOp::SDiv), "urem" => Some(BinOp::URem), "srem" => Some(BinOp::SRem), "shl" => Some(BinOp::Shl), "lshr" => Some(BinOp::LShr), "ashr" => Some(BinOp::AShr), "and" => Some(BinOp::And), "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor), "fadd" => Some(BinOp::FAdd), "fsub" => Some(BinOp::FSub), "fmul" => Some(BinOp::FMul), "fdiv" => Some(BinOp::FDiv), "frem" => Some(BinOp::FRem), _ => None };
    let cast = match op { "trunc" => Some(Cast::Trunc), "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt), "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt), "inttoptr" => Some(Cast::IntToPtr), "bitcast" => Some(Cast::BitCast), "fptoui" => Some(Cast::FpToUi), "fptosi" => Some(Cast::FpToSi), "uitofp" => Some(Cast::UiToFp), "sitofp" => Some(Cast::SiToFp), "fpext" => Some(Cast::FpExt), "fptrunc" => Some(Cast::FpTrunc), _ => None };
    let skip_flags = |p: &mut P| { while !p.is_type_start() { p.next(); if p.is_p('(') { p.skip_parens(); } } };
    let inst = if let Some(bo) = binop {
        skip_flags(p);
        let t = p.ty(); let x = p.opd(&t); p.expect(','); let y = p.opd(&t);
        Inst::Bin(d, bo, t, x, y)
    } else if let Some(c) = cast {
        skip_flags(p);
        let (t, x) = p.topd(); assert!(p.eat_w("to")); let t2 = p.ty();
        Inst::Cast(d, c, t, x, t2)
    } else {
        match op {
            "icmp" => {
                let mut pr = match p.next() { Tok::W(w) => w, _ => panic!() };
                if pr == "samesign" { pr = match p.next() { Tok::W(w) => w, _ => panic!() }; }
                let pred = match pr { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!("{}", src) };
                let t = p.ty(); let x = p.opd(&t); p.expect(','); let y = p.opd(&t);
                Inst::Icmp(d, pred, t, x, y)
            }
            "fcmp" => {
                let mut pr;
                loop { pr = match p.next() { Tok::W(w) => w, _ => panic!() }; if !matches!(pr, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { break; } }
                let t = p.ty(); let x = p.opd(&t); p.expect(','); let y = p.opd(&t);
                Inst::Fcmp(d, pr.to_string(), t, x, y)
            }
            "fneg" => { skip_flags(p); let (t, x) = p.topd(); Inst::FNeg(d, t, x) }
            "select" => {
                skip_flags(p);
                let (ct, c) = p.topd(); p.expect(','); let (t, x) = p.topd(); p.expect(','); let (_, y) = p.topd();
                Inst::Select(d, t, c, matches!(ct, Ty::Vec(..)), x, y)
            }
            "load" => {
                while p.is_w("atomic") || p.is_w("volatile") { p.i += 1; }
                let t = p.ty(); p.expect(','); let (_, a) = p.topd();
                Inst::Load(d, t, a)
            }
            "store" => {
                while p.is_w("atomic") || p.is_w("volatile") { p.i += 1; }
                let (t, v) = p.topd(); p.expect(','); let (_, a) = p.topd();
                Inst::Store(t, v, a)
            }
            "getelementptr" => {
                skip_flags(p);
                let t = p.ty(); p.expect(','); let (bt, base) = p.topd();
                if matches!(bt, Ty::Vec(..)) { b.insts.push(Inst::Unsupported(src.to_string())); return; }
                let mut off = 0u64; let mut dynx = vec![]; let mut cur = t.clone(); let mut j = 0;
                while p.eat_p(',') {
                    if let Some(Tok::M(_)) = p.peek() { break; }
                    let (it, ix) = p.topd();
                    let (scale, nxt) = if j == 0 { (cur.size(), cur.clone()) } else if let Ty::Struct(..) = cur {
                        let k = match ix { Opd::C(v) => v as usize, _ => panic!() };
                        let (o, f) = cur.field_off(k); off = off.wrapping_add(o); cur = f.clone(); j += 1; continue;
                    } else { let (_, f) = cur.field_off(0); (f.size(), f.clone()) };
                    match ix { Opd::C(v) => off = off.wrapping_add((sx(v, it.w()) as u64).wrapping_mul(scale)), o => dynx.push((o, it.w(), scale)) }
                    cur = nxt; j += 1;
                }
                Inst::Gep(d, base, off, dynx)
            }
            "alloca" => {
                if p.eat_w("inalloca") {}
                let t = p.ty(); let mut n = 1u64;
                if p.eat_p(',') { if p.is_type_start() { let (_, c) = p.topd(); if let Opd::C(v) = c { n = v as u64 } else { b.insts.push(Inst::Unsupported(src.to_string())); return; } } }
                Inst::Alloca(d, t.size() * n)
            }
            "br" => {
                if p.is_w("label") { let l = lbl(p); Inst::Br(l) }
                else { let (_, c) = p.topd(); p.expect(','); let x = lbl(p); p.expect(','); let y = lbl(p); Inst::CondBr(c, x, y) }
            }
            "switch" => {
                let (t, v) = p.topd(); p.expect(','); let def = lbl(p); p.expect('[');
                let mut cs = vec![];
                while !p.eat_p(']') { let (_, c) = p.tcv(); p.expect(','); let l = lbl(p); cs.push((cint(&c), l)); }
                Inst::Switch(t.w(), v, def, cs)
            }
            "ret" => { if p.eat_w("void") { Inst::Ret(Ty::Void, None) } else { let (t, v) = p.topd(); Inst::Ret(t, Some(v)) } }
            "unreachable" => Inst::Unreachable,
            "phi" => {
                skip_flags(p);
                let t = p.ty(); let mut v = vec![];
                loop {
                    p.expect('['); let o = p.opd(&t); p.expect(',');
                    let l = match p.next() { Tok::L(n) => bid[n], _ => panic!() };
                    p.expect(']'); v.push((l, o));
                    if !(p.eat_p(',') && p.is_p('[')) { break; }
                }
                b.phis.push((d, t, v));
                return;
            }
            "extractvalue" => {
                let (t, a) = p.topd(); let mut ix = vec![]; let mut cur = t;
                while p.eat_p(',') { if let Some(Tok::M(_)) = p.peek() { break; } let k = p.num() as u32; cur = cur.field_off(k as usize).1.clone(); ix.push(k); }
                Inst::ExtractValue(d, a, ix, cur)
            }
            "insertvalue" => {
                let (t, a) = p.topd(); p.expect(','); let (_, v) = p.topd(); let mut ix = vec![];
                while p.eat_p(',') { if let Some(Tok::M(_)) = p.peek() { break; } ix.push(p.num() as u32); }
                Inst::InsertValue(d, t, a, v, ix)
            }
            "extractelement" => { let (t, a) = p.topd(); p.expect(','); let (_, i) = p.topd(); Inst::ExtractElement(d, t, a, i) }
            "insertelement" => { let (t, a) = p.topd(); p.expect(','); let (_, v) = p.topd(); p.expect(','); let (_, i) = p.topd(); Inst::InsertElement(d, t, a, v, i) }
            "shufflevector" => {
                let (t, a) = p.topd(); p.expect(','); let (_, c) = p.topd(); p.expect(','); let (_, m) = p.tcv();
                let n = if let Ty::Vec(n, _) = &t { *n } else { panic!() }; let _ = n;
                let m = match m { Cv::Agg(v) => v.iter().map(|x| match x { Cv::Int(i) => Some(*i as u32), _ => None }).collect(), _ => { b.insts.push(Inst::Unsupported(src.to_string())); return; } };
                Inst::Shuffle(d, t, a, c, m)
            }
            "atomicrmw" => {
                if p.eat_w("volatile") {}
                let o = match p.next() { Tok::W(w) => w.to_string(), _ => panic!() };
                let (_, a) = p.topd(); p.expect(','); let (t, v) = p.topd();
                Inst::AtomicRmw(d, o, t, a, v)
            }
            "cmpxchg" => {
                while p.is_w("weak") || p.is_w("volatile") { p.i += 1; }
                let (_, a) = p.topd(); p.expect(','); let (t, c) = p.topd(); p.expect(','); let (_, n) = p.topd();
                Inst::CmpXchg(d, t, a, c, n)
            }
            "fence" => Inst::Nop,
            "freeze" => { let (t, x) = p.topd(); Inst::Freeze(d, t, x) }
            "landingpad" => Inst::LandingPad,
            "resume" => Inst::LandingPad,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { p.i += 1; }
                loop {
                    if p.is_type_start() { break; }
                    match p.next() { Tok::W("align") => { p.i += 1; } Tok::W("cc") => { p.i += 1; } _ => {} }
                    if p.is_p('(') { p.skip_parens(); }
                }
                let t = p.ty();
                if p.is_p('(') { p.skip_parens(); }
                let callee = match p.next() {
                    Tok::G(n) => match p.m.fns.get(n) { Some(&f) => Callee::Fn(f), None => panic!("callee {}", n) },
                    Tok::L(n) => Callee::Reg(Opd::Reg(p.reg(n))),
                    Tok::W("asm") => { let mut s = String::new(); loop { match p.peek() { Some(Tok::P('(')) => break, Some(Tok::S(x)) => { s.push_str(x); s.push('|'); p.i += 1; } _ => p.i += 1 } } Callee::Asm(s) }
                    tk => { if matches!(tk, Tok::W("inttoptr") | Tok::N(_) | Tok::W("null") | Tok::W("undef") | Tok::W("poison")) { b.insts.push(Inst::Unsupported(src.to_string())); return; } panic!("callee {:?} {}", tk, src) }
                };
                p.expect('(');
                let mut args = vec![];
                if !p.eat_p(')') { loop { args.push(p.topd()); if p.eat_p(')') { break; } p.expect(','); } }
                let mut normal = None;
                if op == "invoke" { while !p.is_w("to") { p.next(); } p.i += 1; normal = Some(lbl(p)); }
                Inst::Call(if t == Ty::Void { None } else { dst }, callee, t, args, normal)
            }
            _ => Inst::Unsupported(src.to_string()),
        }
    };
    b.insts.push(inst);
}
