//! Hash-consed bit-vector expression DAG with a local simplifier and
//! context-free interval analysis.  Width-1 values are booleans.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Not, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat,
    // floating point, on 64-bit IEEE bit patterns
    FAdd, FSub, FMul, FDiv, FLt, FLe, FEq, FIsNan, UiToF, SiToF, FToUiSat, FToSiSat, FRound, FTo32, FFrom32,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key { pub op: Op, pub w: u16, pub a: Ex, pub b: Ex, pub c: Ex, pub k: u128 }

pub struct Node { pub key: Key, pub ulo: u128, pub uhi: u128, pub slo: i128, pub shi: i128, pub h: u64 }

/// Integer polynomial: (sorted atoms, coefficient), sorted.  An atom is
/// node*2 + (1 if its unsigned reading is meant).
pub type Poly = std::rc::Rc<Vec<(Vec<u32>, i128)>>;
const MAX_TERMS: usize = 64;

pub struct Dag {
    pub nodes: Vec<Node>,
    map: FxMap<Key, Ex>,
    // evaluation scratch
    ev_gen: Vec<u32>, ev_val: Vec<u128>, gen: u32,
    vars_memo: FxMap<Ex, std::rc::Rc<Vec<u32>>>,
    poly_memo: FxMap<Ex, Option<Poly>>,
    poly_val: FxMap<Poly, Ex>,
    poly_lt: FxMap<Poly, (Ex, Ex)>,
    poly_eq: FxMap<Poly, (Ex, Ex)>,
    pub var_names: Vec<(String, u16)>, // var index -> (name, width)
    var_by_name: FxMap<(u32, u16), Ex>,
    pub abs: bool, pub fpfacts: bool, pub tables: bool, fp_var: FxMap<Ex, Ex>, fp_terms: Vec<(Op, Ex, Ex, Ex)>, pub abs_def: FxMap<u32, (Ex, Ex, Vec<Ex>)>, div_var: FxMap<Ex, Ex>,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}
fn smin(w: u16) -> i128 { if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) } }
fn smax(w: u16) -> i128 { if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 } }

/// Concrete semantics of every operator; used by the folder and by model evaluation.
pub fn apply(op: Op, w: u16, aw: u16, a: u128, b: u128, c: u128, k: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Const | Op::Var => unreachable!(),
        Op::Not => !a & m,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = sext(a, w); if b >= w as u128 { (if s < 0 { -1i128 } else { 0 }) as u128 & m } else { (s >> b) as u128 & m } }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        Op::Ite => if a != 0 { b } else { c },
        Op::ZExt => a,
        Op::SExt => sext(a, aw) as u128 & m,
        Op::Extract => (a >> k) & m,
        Op::Concat => { // k = width of low part
            ((a << k) | b) & m
        }
        Op::FAdd => (f64::from_bits(a as u64) + f64::from_bits(b as u64)).to_bits() as u128,
        Op::FSub => (f64::from_bits(a as u64) - f64::from_bits(b as u64)).to_bits() as u128,
        Op::FMul => (f64::from_bits(a as u64) * f64::from_bits(b as u64)).to_bits() as u128,
        Op::FDiv => (f64::from_bits(a as u64) / f64::from_bits(b as u64)).to_bits() as u128,
        Op::FLt => (f64::from_bits(a as u64) < f64::from_bits(b as u64)) as u128,
        Op::FLe => (f64::from_bits(a as u64) <= f64::from_bits(b as u64)) as u128,
        Op::FEq => (f64::from_bits(a as u64) == f64::from_bits(b as u64)) as u128,
        Op::FIsNan => f64::from_bits(a as u64).is_nan() as u128,
        Op::UiToF => (a as f64).to_bits() as u128,
        Op::SiToF => (sext(a, aw) as f64).to_bits() as u128,
        Op::FToUiSat => {
            let x = f64::from_bits(a as u64);
            if x.is_nan() || x <= 0.0 { 0 } else { let v = x as u128; if v > m { m } else { v } }
        }
        Op::FToSiSat => {
            let x = f64::from_bits(a as u64);
            if x.is_nan() { 0 } else { let v = x as i128; (v.clamp(smin(w), smax(w)) as u128) & m }
        }
        Op::FTo32 => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        Op::FFrom32 => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Op::FRound => { let x = f64::from_bits(a as u64); (match k { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round(), _ => x.round_ties_even() }).to_bits() as u128 }
    }
}

impl Dag {
    pub fn new() -> Dag {
        let mut d = Dag { nodes: vec![], map: Default::default(), ev_gen: vec![], ev_val: vec![], gen: 0,
            vars_memo: Default::default(), poly_memo: Default::default(), poly_val: Default::default(), poly_lt: Default::default(), poly_eq: Default::default(), var_names: vec![], var_by_name: Default::default(), abs: false, fpfacts: false, tables: false, fp_var: Default::default(), fp_terms: vec![], abs_def: Default::default(), div_var: Default::default() };
        d.konst(0, 1); // id 0 = false
        d.konst(1, 1); // id 1 = true
        d
    }
    fn lt(&self, a: Ex, b: Ex) -> bool { self.nodes[a as usize].h < self.nodes[b as usize].h }
    pub fn w(&self, e: Ex) -> u16 { self.nodes[e as usize].key.w }
    pub fn key(&self, e: Ex) -> Key { self.nodes[e as usize].key }
    pub fn as_const(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.key.op == Op::Const { Some(n.key.k) } else { None }
    }
    fn mk(&mut self, op: Op, w: u16, a: Ex, b: Ex, c: Ex, k: u128) -> Ex {
        let key = Key { op, w, a, b, c, k };
        if let Some(&e) = self.map.get(&key) { return e; }
        let (ulo, uhi, slo, shi) = self.range(&key);
        // structural hash: canonical operand order must not depend on creation order
        let mut hh = Fx::default();
        hh.write_u64(op as u64 + 77); hh.write_u64(w as u64);
        if op != Op::Var { hh.write_u64(k as u64); hh.write_u64((k >> 64) as u64); }
        if !matches!(op, Op::Const | Op::Var) {
            hh.write_u64(self.nodes[a as usize].h); hh.write_u64(self.nodes[b as usize].h); hh.write_u64(self.nodes[c as usize].h);
        }
        if op == Op::Var { for ch in self.var_names[k as usize].0.bytes() { hh.write_u64(ch as u64); } }
        let mut h = hh.finish(); h ^= h >> 29; h = h.wrapping_mul(0xbf58476d1ce4e5b9); h ^= h >> 32;
        // a singleton interval is a constant
        if op != Op::Const && ulo == uhi {
            let e = self.konst(ulo, w);
            self.map.insert(key, e);
            return e;
        }
        let e = self.nodes.len() as Ex;
        self.nodes.push(Node { key, ulo, uhi, slo, shi, h });
        self.map.insert(key, e);
        e
    }
    pub fn konst(&mut self, v: u128, w: u16) -> Ex { self.mk(Op::Const, w, 0, 0, 0, v & mask(w)) }
    pub fn bool(&self, b: bool) -> Ex { b as Ex }
    pub fn var(&mut self, idx: u32, w: u16) -> Ex {
        if let Some(&e) = self.var_by_name.get(&(idx, w)) { return e; }
        let vi = self.var_names.len();
        self.var_names.push((format!("v{}_{}", idx, w), w));
        let e = self.mk(Op::Var, w, 0, 0, 0, vi as u128);
        self.var_by_name.insert((idx, w), e);
        e
    }

    fn range(&self, k: &Key) -> (u128, u128, i128, i128) {
        let w = k.w;
        let m = mask(w);
        let n = |e: Ex| &self.nodes[e as usize];
        // helper: from unsigned range derive signed and vice versa
        let from_u = |lo: u128, hi: u128| -> (u128, u128, i128, i128) {
            let half = 1u128 << (w - 1);
            if hi < half { (lo, hi, lo as i128, hi as i128) }
            else if lo >= half { (lo, hi, sext(lo, w), sext(hi, w)) }
            else { (lo, hi, smin(w), smax(w)) }
        };
        let from_s = |lo: i128, hi: i128| -> (u128, u128, i128, i128) {
            if lo >= 0 { (lo as u128, hi as u128, lo, hi) }
            else if hi < 0 { ((lo as u128) & m, (hi as u128) & m, lo, hi) }
            else { (0, m, lo, hi) }
        };
        let full = (0u128, m, smin(w), smax(w));
        let inter = |x: (u128, u128, i128, i128), y: (u128, u128, i128, i128)| {
            (x.0.max(y.0), x.1.min(y.1), x.2.max(y.2), x.3.min(y.3))
        };
        match k.op {
            Op::Const => (k.k, k.k, sext(k.k, w), sext(k.k, w)),
            Op::Add => {
                let (a, b) = (n(k.a), n(k.b));
                let mut r = full;
                if let Some(h) = a.uhi.checked_add(b.uhi) { if h <= m { r = inter(r, from_u(a.ulo + b.ulo, h)); } }
                if let (Some(l), Some(h)) = (a.slo.checked_add(b.slo), a.shi.checked_add(b.shi)) {
                    if l >= smin(w) && h <= smax(w) { r = inter(r, from_s(l, h)); }
                }
                r
            }
            Op::Sub => {
                let (a, b) = (n(k.a), n(k.b));
                let mut r = full;
                if a.ulo >= b.uhi { r = inter(r, from_u(a.ulo - b.uhi, a.uhi - b.ulo)); }
                if let (Some(l), Some(h)) = (a.slo.checked_sub(b.shi), a.shi.checked_sub(b.slo)) {
                    if l >= smin(w) && h <= smax(w) { r = inter(r, from_s(l, h)); }
                }
                r
            }
            Op::Mul => {
                let (a, b) = (n(k.a), n(k.b));
                let mut r = full;
                if let Some(h) = a.uhi.checked_mul(b.uhi) { if h <= m { r = inter(r, from_u(a.ulo * b.ulo, h)); } }
                let ps = [a.slo.checked_mul(b.slo), a.slo.checked_mul(b.shi), a.shi.checked_mul(b.slo), a.shi.checked_mul(b.shi)];
                if ps.iter().all(|p| p.is_some()) {
                    let l = ps.iter().map(|p| p.unwrap()).min().unwrap();
                    let h = ps.iter().map(|p| p.unwrap()).max().unwrap();
                    if l >= smin(w) && h <= smax(w) { r = inter(r, from_s(l, h)); }
                }
                r
            }
            Op::UDiv => { let (a, b) = (n(k.a), n(k.b)); if b.ulo > 0 { from_u(a.ulo / b.uhi, a.uhi / b.ulo) } else { full } }
            Op::URem => { let (a, b) = (n(k.a), n(k.b)); if b.ulo > 0 { from_u(0, a.uhi.min(b.uhi - 1)) } else { full } }
            Op::SDiv => {
                let (a, b) = (n(k.a), n(k.b));
                if a.slo >= 0 && b.slo > 0 { from_s(a.slo / b.shi, a.shi / b.slo) }
                else if a.slo > smin(w) { let x = a.slo.abs().max(a.shi.abs());
                    if b.slo > 0 || b.shi < 0 { from_s(-x, x) } else { full } }
                else { full }
            }
            Op::And => { let (a, b) = (n(k.a), n(k.b)); from_u(0, a.uhi.min(b.uhi)) }
            Op::Or => { let (a, b) = (n(k.a), n(k.b));
                let bits = 128 - (a.uhi | b.uhi).leading_zeros();
                from_u(a.ulo.max(b.ulo), mask(bits as u16)) }
            Op::Xor => { let (a, b) = (n(k.a), n(k.b));
                let bits = 128 - (a.uhi | b.uhi).leading_zeros();
                from_u(0, mask(bits as u16).min(m)) }
            Op::Shl => {
                let a = n(k.a);
                if let Some(s) = self.as_const(k.b) {
                    if s < w as u128 && (a.uhi.leading_zeros() as u128) > s && (a.uhi << s) <= m { return from_u(a.ulo << s, a.uhi << s); }
                }
                full
            }
            Op::LShr => {
                let a = n(k.a);
                if let Some(s) = self.as_const(k.b) { if s < w as u128 { return from_u(a.ulo >> s, a.uhi >> s); } }
                from_u(0, a.uhi)
            }
            Op::AShr => {
                let a = n(k.a);
                if let Some(s) = self.as_const(k.b) { if s < w as u128 { return from_s(a.slo >> s, a.shi >> s); } }
                full
            }
            Op::Ite => { let (b, c) = (n(k.b), n(k.c)); (b.ulo.min(c.ulo), b.uhi.max(c.uhi), b.slo.min(c.slo), b.shi.max(c.shi)) }
            Op::ZExt => { let a = n(k.a); from_u(a.ulo, a.uhi) }
            Op::SExt => { let a = n(k.a); from_s(a.slo, a.shi) }
            Op::Extract => { let a = n(k.a); if k.k == 0 && a.uhi <= m { from_u(a.ulo, a.uhi) }
                else if (a.uhi >> k.k) <= m { from_u(a.ulo >> k.k, a.uhi >> k.k) }
                else if k.k == 0 && a.slo >= smin(w) && a.shi <= smax(w) { from_s(a.slo, a.shi) }
                else { full } }
            Op::Concat => { let (a, b) = (n(k.a), n(k.b)); from_u((a.ulo << k.k) | b.ulo, (a.uhi << k.k) | b.uhi) }
            Op::Eq => {
                let (a, b) = (n(k.a), n(k.b));
                if a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo { (0, 0, 0, 0) } else { full }
            }
            Op::Ult => { let (a, b) = (n(k.a), n(k.b));
                if a.uhi < b.ulo { (1, 1, -1, -1) } else if a.ulo >= b.uhi { (0, 0, 0, 0) } else { full } }
            Op::Ule => { let (a, b) = (n(k.a), n(k.b));
                if a.uhi <= b.ulo { (1, 1, -1, -1) } else if a.ulo > b.uhi { (0, 0, 0, 0) } else { full } }
            Op::Slt => { let (a, b) = (n(k.a), n(k.b));
                if a.shi < b.slo { (1, 1, -1, -1) } else if a.slo >= b.shi { (0, 0, 0, 0) } else { full } }
            Op::Sle => { let (a, b) = (n(k.a), n(k.b));
                if a.shi <= b.slo { (1, 1, -1, -1) } else if a.slo > b.shi { (0, 0, 0, 0) } else { full } }
            _ => full,
        }
    }

    /// Number of low bits known to be zero.
    pub fn tz(&self, e: Ex) -> u32 {
        let k = self.key(e);
        match k.op {
            Op::Const => if k.k == 0 { k.w as u32 } else { k.k.trailing_zeros() },
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(k.a).min(self.tz(k.b)),
            Op::And => self.tz(k.a).max(self.tz(k.b)),
            Op::Mul => (self.tz(k.a) + self.tz(k.b)).min(k.w as u32),
            Op::Shl => if let Some(s) = self.as_const(k.b) { (self.tz(k.a) + s as u32).min(k.w as u32) } else { self.tz(k.a) },
            Op::Ite => self.tz(k.b).min(self.tz(k.c)),
            Op::ZExt | Op::SExt => { let t = self.tz(k.a); if t >= self.w(k.a) as u32 { k.w as u32 } else { t } }
            Op::Extract => if k.k == 0 { self.tz(k.a).min(k.w as u32) } else { 0 },
            Op::Concat => { let t = self.tz(k.b); if t as u128 >= k.k { t + self.tz(k.a) } else { t } }
            _ => 0,
        }
    }

    fn padd(a: &Poly, b: &Poly, k: i128) -> Option<Poly> {
        let mut out: Vec<(Vec<u32>, i128)> = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            let o = if i == a.len() { std::cmp::Ordering::Greater } else if j == b.len() { std::cmp::Ordering::Less } else { a[i].0.cmp(&b[j].0) };
            match o {
                std::cmp::Ordering::Less => { out.push(a[i].clone()); i += 1; }
                std::cmp::Ordering::Greater => { out.push((b[j].0.clone(), b[j].1.checked_mul(k)?)); j += 1; }
                _ => { let c = a[i].1.checked_add(b[j].1.checked_mul(k)?)?; if c != 0 { out.push((a[i].0.clone(), c)); } i += 1; j += 1; }
            }
        }
        if out.len() > MAX_TERMS { return None; }
        Some(std::rc::Rc::new(out))
    }
    fn pmul(a: &Poly, b: &Poly) -> Option<Poly> {
        if a.len() * b.len() > MAX_TERMS { return None; }
        let mut m: std::collections::BTreeMap<Vec<u32>, i128> = Default::default();
        for x in a.iter() { for y in b.iter() {
            let mut k = x.0.clone(); k.extend(y.0.iter()); k.sort();
            if k.len() > 4 { return None; }
            let c = x.1.checked_mul(y.1)?;
            let e = m.entry(k).or_insert(0); *e = e.checked_add(c)?;
        } }
        Some(std::rc::Rc::new(m.into_iter().filter(|x| x.1 != 0).collect()))
    }
    fn patom(&self, e: Ex, unsigned: bool) -> Poly {
        let u = unsigned && self.nodes[e as usize].slo < 0;
        std::rc::Rc::new(vec![(vec![e * 2 + u as u32], 1)])
    }
    fn pconst(c: i128) -> Poly { std::rc::Rc::new(if c == 0 { vec![] } else { vec![(vec![], c)] }) }
    /// The signed integer value of a node as a polynomial over its atoms.
    fn poly(&mut self, e: Ex) -> Poly {
        if let Some(p) = self.poly_memo.get(&e) { return p.clone().unwrap(); }
        let k = self.key(e);
        let p: Option<Poly> = match k.op {
            Op::Const => Some(Self::pconst(sext(k.k, k.w))),
            Op::Add | Op::Sub | Op::Mul if self.no_soverflow(k.op, k.a, k.b) => {
                let (a, b) = (self.poly(k.a), self.poly(k.b));
                match k.op { Op::Add => Self::padd(&a, &b, 1), Op::Sub => Self::padd(&a, &b, -1), _ => Self::pmul(&a, &b) }
            }
            Op::SExt => Some(self.poly(k.a)),
            Op::ZExt => if self.nodes[k.a as usize].slo >= 0 && self.w(k.a) > 1 { Some(self.poly(k.a)) } else { Some(self.patom(k.a, true)) },
            Op::Not if k.w > 1 => { let a = self.poly(k.a); Self::padd(&Self::pconst(-1), &a, -1) }
            Op::Extract if k.k == 0 && k.w > 1 && { let n = &self.nodes[k.a as usize]; n.slo >= smin(k.w) && n.shi <= smax(k.w) } => Some(self.poly(k.a)),
            Op::Concat if self.as_const(k.b) == Some(0) && k.k < 100 && self.w(k.a) > 1 => { let a = self.poly(k.a); Self::pmul(&a, &Self::pconst(1i128 << k.k)) }
            _ => None,
        };
        let p = p.unwrap_or_else(|| self.patom(e, false));
        self.poly_memo.insert(e, Some(p.clone()));
        p
    }
    fn prange(&self, p: &Poly) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (0i128, 0i128);
        for (m, c) in p.iter() {
            let (mut l, mut h) = (1i128, 1i128);
            let mut i = 0;
            while i < m.len() {
                let a = m[i];
                let n = &self.nodes[(a / 2) as usize];
                let (al, ah) = if a & 1 == 1 { if n.uhi > i128::MAX as u128 { return None; } (n.ulo as i128, n.uhi as i128) } else { (n.slo, n.shi) };
                // squares are not negative
                let (bl, bh, st) = if i + 1 < m.len() && m[i + 1] == a { let (x, y) = (al.checked_mul(al)?, ah.checked_mul(ah)?); (if al <= 0 && ah >= 0 { 0 } else { x.min(y) }, x.max(y), 2) } else { (al, ah, 1) };
                let ps = [l.checked_mul(bl)?, l.checked_mul(bh)?, h.checked_mul(bl)?, h.checked_mul(bh)?];
                l = *ps.iter().min().unwrap(); h = *ps.iter().max().unwrap();
                i += st;
            }
            let (x, y) = (l.checked_mul(*c)?, h.checked_mul(*c)?);
            lo = lo.checked_add(x.min(y))?; hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    fn is_arith(&self, e: Ex) -> bool {
        let k = self.key(e);
        match k.op {
            Op::Add | Op::Sub | Op::Mul => true,
            Op::ZExt | Op::SExt | Op::Extract => self.is_arith(k.a),
            Op::Concat => self.as_const(k.b) == Some(0) && self.is_arith(k.a),
            Op::Not => k.w > 1 && self.is_arith(k.a),
            _ => false,
        }
    }
    /// Share one node among all ways of writing the same polynomial.
    fn share(&mut self, e: Ex) -> Ex {
        let k = self.key(e);
        if !matches!(k.op, Op::Add | Op::Sub | Op::Mul) || !self.no_soverflow(k.op, k.a, k.b) { return e; }
        let p = self.poly(e);
        if p.is_empty() { return self.konst(0, k.w); }
        if p.len() == 1 {
            if p[0].0.is_empty() { return self.konst(p[0].1 as u128, k.w); }
            if p[0].0.len() == 1 && p[0].1 == 1 {
                let a = p[0].0[0]; let x = a / 2; let xw = self.w(x);
                if a & 1 == 1 { if xw < k.w { return self.zext(x, k.w); } }
                else if xw <= k.w { return self.sext(x, k.w); }
                else { return self.extract(x, 0, k.w); }
            }
        }
        if let Some(&f) = self.poly_val.get(&p) { return self.resize(f, k.w); }
        let linear = !p.iter().any(|t| t.0.len() > 1);
        if linear && k.w <= 64 { self.poly_val.insert(p, e); return e; }
        let neg: Poly = std::rc::Rc::new(p.iter().map(|t| (t.0.clone(), -t.1)).collect());
        if let Some(&f) = self.poly_val.get(&neg) {
            let n = &self.nodes[f as usize];
            if n.slo > smin(k.w) && -n.slo <= smax(k.w) && n.shi <= smax(k.w) {
                let x = self.resize(f, k.w); let z = self.konst(0, k.w);
                let r = self.mk(Op::Sub, k.w, z, x, 0, 0);
                self.poly_memo.insert(r, Some(p));
                return r;
            }
        }
        // non-linear: compute in the narrowest sufficient width
        let (mut lo, mut hi) = { let n = &self.nodes[e as usize]; (n.slo, n.shi) };
        if let Some((l, h)) = self.prange(&p) { lo = lo.max(l); hi = hi.min(h); }
        let mut w = 2u16;
        while w < k.w && (lo < smin(w) || hi > smax(w)) { w += 1; }
        if w >= k.w { let v = self.abstracted(e, lo, hi, &p); self.poly_val.insert(p, v); return v; }
        let (a, b) = (self.extract(k.a, 0, w), self.extract(k.b, 0, w));
        let n = self.bin0(k.op, a, b);
        if self.w(n) != w || !matches!(self.key(n).op, Op::Add | Op::Sub | Op::Mul) { let v = self.abstracted(e, lo, hi, &p); self.poly_val.insert(p, v); return v; }
        { let m = &mut self.nodes[n as usize]; m.slo = m.slo.max(lo); m.shi = m.shi.min(hi); if lo >= 0 { m.ulo = m.ulo.max(lo as u128); m.uhi = m.uhi.min(hi as u128); } }
        self.poly_memo.insert(n, Some(p.clone()));
        let n = self.abstracted(n, lo, hi, &p);
        self.poly_val.insert(p, n);
        self.resize(n, k.w)
    }
    /// In abstract mode a non-linear polynomial is a variable of known range;
    /// its definition is only used to confirm counterexamples.
    fn abstracted(&mut self, e: Ex, lo: i128, hi: i128, p: &Poly) -> Ex {
        if !self.abs || (!p.iter().any(|t| t.0.len() > 1) && p.iter().filter(|t| t.0.len() > 0).count() < 2) { return e; }
        let w = self.w(e);
        let vi = self.var_names.len();
        self.var_names.push((format!("a{}_{}", vi, w), w));
        let v = self.mk(Op::Var, w, 0, 0, 0, vi as u128);
        let h = self.nodes[e as usize].h;
        { let m = &mut self.nodes[v as usize]; m.h = h.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xabcd; m.slo = m.slo.max(lo); m.shi = m.shi.min(hi); if lo >= 0 { m.ulo = m.ulo.max(lo as u128); m.uhi = m.uhi.min(hi as u128); } }
        let mut r = vec![];
        if lo > smin(w) { let c = self.konst(lo as u128, w); r.push(self.mk(Op::Sle, 1, c, v, 0, 0)); }
        if hi < smax(w) { let c = self.konst(hi as u128, w); r.push(self.mk(Op::Sle, 1, v, c, 0, 0)); }
        self.abs_def.insert(vi as u32, (v, e, r));
        self.poly_memo.insert(v, Some(p.clone()));
        v
    }
    /// In abstract mode a quotient q = a / b (b not zero: the code checks that, or
    /// it is undefined) is a variable with facts that hold of every quotient.
    fn abstract_div(&mut self, e: Ex) -> Ex {
        if !self.abs { return e; }
        if let Some(&v) = self.div_var.get(&e) { return v; }
        let k = self.key(e);
        let (a, b, w) = (k.a, k.b, k.w);
        let x = { let n = &self.nodes[a as usize]; if n.slo < -(1 << 110) || n.shi > 1 << 110 { return e; } n.slo.abs().max(n.shi.abs()).max(1) };
        let vi = self.var_names.len();
        self.var_names.push((format!("a{}_{}", vi, w), w));
        let q = self.mk(Op::Var, w, 0, 0, 0, vi as u128);
        let h = self.nodes[e as usize].h;
        let lo = if k.op == Op::UDiv { 0 } else { -x };
        { let m = &mut self.nodes[q as usize]; m.h = h.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xabce; m.slo = m.slo.max(lo); m.shi = m.shi.min(x); if lo >= 0 { m.ulo = m.ulo.max(lo as u128); m.uhi = m.uhi.min(x as u128); } }
        let mut r = vec![];
        if lo > smin(w) { let c = self.konst(lo as u128, w); r.push(self.mk(Op::Sle, 1, c, q, 0, 0)); }
        if x < smax(w) { let c = self.konst(x as u128, w); r.push(self.mk(Op::Sle, 1, q, c, 0, 0)); }
        self.div_var.insert(e, q);
        self.abs_def.insert(vi as u32, (q, e, r.clone()));
        let z = self.konst(0, w);
        let le = |d: &mut Dag, x: Ex, y: Ex| d.cmp(Op::Sle, x, y);
        let lt = |d: &mut Dag, x: Ex, y: Ex| d.cmp(Op::Slt, x, y);
        let imp = |d: &mut Dag, c: &[Ex], t: &[Ex]| { let mut g = 1; for &x in c { g = d.and(g, x); } let mut u = 1; for &x in t { u = d.and(u, x); } let n = d.not(g); d.or(n, u) };
        let neg = |d: &mut Dag, x: Ex| d.bin(Op::Sub, z, x);
        // remainder
        let qb = self.bin(Op::Mul, q, b);
        let rem = self.bin(Op::Sub, a, qb);
        let nb = neg(self, b);
        let (bp, bn) = (lt(self, z, b), lt(self, b, z));
        let nz = self.or(bp, bn);
        let (a0, a1) = (le(self, z, a), le(self, a, z));
        let (r0, r1) = (le(self, z, rem), le(self, rem, z));
        let mut f = vec![];
        f.push(imp(self, &[nz, a0], &[r0]));
        f.push(imp(self, &[nz, a1], &[r1]));
        let (c1, c2) = (lt(self, rem, b), lt(self, nb, rem));
        f.push(imp(self, &[bp], &[c1, c2]));
        let (c1, c2) = (lt(self, b, rem), lt(self, rem, nb));
        f.push(imp(self, &[bn], &[c1, c2]));
        // 0 <= x/b <= 1 or -1 <= x/b <= 0 with a = x * y bounds q by y
        if let Some((u, v)) = self.factors(a, w) {
            for (x, y) in [(u, v), (v, u)] {
                let nx = neg(self, x); let ny = neg(self, y);
                let (x0, x1) = (le(self, z, x), le(self, x, z));
                let (xb, bx) = (le(self, x, b), le(self, b, x));
                let (nxb, bnx) = (le(self, nx, b), le(self, b, nx));
                let (y0, y1) = (le(self, z, y), le(self, y, z));
                let (q0, q1) = (le(self, z, q), le(self, q, z));
                let (qy, yq, nyq, qny) = (le(self, q, y), le(self, y, q), le(self, ny, q), le(self, q, ny));
                f.push(imp(self, &[bp, x0, xb, y0], &[q0, qy])); f.push(imp(self, &[bp, x0, xb, y1], &[yq, q1]));
                f.push(imp(self, &[bn, x1, bx, y0], &[q0, qy])); f.push(imp(self, &[bn, x1, bx, y1], &[yq, q1]));
                f.push(imp(self, &[bp, x1, nxb, y0], &[nyq, q1])); f.push(imp(self, &[bp, x1, nxb, y1], &[q0, qny]));
                f.push(imp(self, &[bn, x0, bnx, y0], &[nyq, q1])); f.push(imp(self, &[bn, x0, bnx, y1], &[q0, qny]));
            }
        }
        f.retain(|&x| x != 1);
        r.extend(f.iter());
        self.abs_def.insert(vi as u32, (q, e, r));
        let mut vs: Vec<u32> = self.vars(rem).to_vec(); vs.retain(|v| self.abs_def.contains_key(v));
        if vs.len() == 1 && vs[0] != vi as u32 { let n = f.len().min(4); self.abs_def.get_mut(&vs[0]).unwrap().2.extend(f[..n].iter()); }
        q
    }
    fn strip(&self, e: Ex) -> Ex { let k = self.key(e); match k.op { Op::SExt => self.strip(k.a), Op::ZExt if self.nodes[k.a as usize].slo >= 0 => self.strip(k.a), _ => e } }
    /// The factors of a product, at width w.
    fn factors(&mut self, a: Ex, w: u16) -> Option<(Ex, Ex)> {
        let mut e = self.strip(a);
        let k = self.key(e);
        if k.op == Op::Var { e = self.abs_def.get(&(k.k as u32))?.1; e = self.strip(e); }
        let k = self.key(e);
        if k.op != Op::Mul || !self.no_soverflow(Op::Mul, k.a, k.b) { return None; }
        let (x, y) = (self.strip(k.a), self.strip(k.b));
        if self.w(x) > w || self.w(y) > w { return None; }
        Some((self.sext(x, w), self.sext(y, w)))
    }
    /// Definitions of the abstracted terms the given variables depend on.
    pub fn definitions(&mut self, vars: &[u32]) -> Vec<Ex> {
        let mut out = vec![];
        let mut seen: FxSet<u32> = Default::default();
        let mut todo = vars.to_vec();
        while let Some(v) = todo.pop() {
            if !seen.insert(v) { continue; }
            if let Some((x, e, _)) = self.abs_def.get(&v).cloned() {
                out.push(self.mk(Op::Eq, 1, x, e, 0, 0));
                todo.extend(self.vars(e).iter());
            }
        }
        out
    }
    fn resize(&mut self, f: Ex, w: u16) -> Ex {
        let fw = self.w(f);
        if fw == w { f } else if fw < w { self.sext_raw(f, w) } else { self.mk(Op::Extract, w, f, 0, 0, 0) }
    }
    fn sext_raw(&mut self, a: Ex, w: u16) -> Ex {
        if self.nodes[a as usize].slo >= 0 { return self.mk(Op::ZExt, w, a, 0, 0, 0); }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    fn atom_at(&mut self, a: u32, w: u16) -> Ex { let x = a / 2; if a & 1 == 1 { self.zext(x, w) } else if self.w(x) > w { self.extract(x, 0, w) } else { self.sext(x, w) } }
    /// Comparisons of arithmetic terms go through the difference polynomial.
    fn poly_cmp(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        if !(self.is_arith(a) || self.is_arith(b)) { return None; }
        if matches!(op, Op::Ult | Op::Ule) && (self.nodes[a as usize].slo < 0 || self.nodes[b as usize].slo < 0) { return None; }
        // less-than and equality only; x <= y is not(y < x)
        let (x, y, le) = match op { Op::Ule | Op::Sle => (b, a, true), _ => (a, b, false) };
        let (px, py) = (self.poly(x), self.poly(y));
        let mut p = Self::padd(&px, &py, -1)?;
        let eq = op == Op::Eq;
        if p.is_empty() { return Some((eq || le) as Ex); }
        if let Some((lo, hi)) = self.prange(&p) {
            if eq { if lo > 0 || hi < 0 { return Some(0); } }
            else if hi < 0 { return Some(!le as Ex); }
            else if lo >= 0 { return Some(le as Ex); }
        }
        // x - y against zero for plain atoms
        if p.len() == 2 && p[0].0.len() == 1 && p[1].0.len() == 1 && p[0].1.abs() == 1 && p[0].1 == -p[1].1 {
            let (m, n) = if p[0].1 == 1 { (p[0].0[0], p[1].0[0]) } else { (p[1].0[0], p[0].0[0]) };
            let (wm, wn) = (self.w(m / 2), self.w(n / 2));
            let w = (wm + (m & 1) as u16).max(wn + (n & 1) as u16);
            if w <= 128 && !(self.is_arith(m / 2) || self.is_arith(n / 2)) {
                let both_u = m & 1 == 1 && n & 1 == 1;
                let w = if both_u { wm.max(wn) } else { w };
                let (u, v) = (self.atom_at(m, w), self.atom_at(n, w));
                if eq { return Some(self.cmp(Op::Eq, u, v)); }
                let (o1, o2) = if both_u { (Op::Ult, Op::Ule) } else { (Op::Slt, Op::Sle) };
                return Some(if le { self.cmp(o2, v, u) } else { self.cmp(o1, u, v) });
            }
        }
        if eq {
            if p[0].1 < 0 { p = std::rc::Rc::new(p.iter().map(|t| (t.0.clone(), -t.1)).collect()); }
            let (u, v) = *self.poly_eq.entry(p).or_insert((x, y));
            let (u, v) = if self.lt(u, v) { (u, v) } else { (v, u) };
            return Some(self.mk(Op::Eq, 1, u, v, 0, 0));
        }
        let (u, v) = *self.poly_lt.entry(p).or_insert((x, y)); // u < v
        let nn = self.nodes[u as usize].slo >= 0 && self.nodes[v as usize].slo >= 0;
        Some(match (le, nn) { (false, false) => self.mk(Op::Slt, 1, u, v, 0, 0), (false, true) => self.mk(Op::Ult, 1, u, v, 0, 0), (true, false) => self.mk(Op::Sle, 1, v, u, 0, 0), (true, true) => self.mk(Op::Ule, 1, v, u, 0, 0) })
    }

    pub fn not(&mut self, a: Ex) -> Ex {
        let k = self.key(a);
        if let Some(v) = self.as_const(a) { return self.konst(!v, k.w); }
        match k.op {
            Op::Not => k.a,
            Op::Ult => self.cmp(Op::Ule, k.b, k.a),
            Op::Ule => self.cmp(Op::Ult, k.b, k.a),
            Op::Slt => self.cmp(Op::Sle, k.b, k.a),
            Op::Sle => self.cmp(Op::Slt, k.b, k.a),
            _ => self.mk(Op::Not, k.w, a, 0, 0, 0),
        }
    }

    pub fn cmp(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return apply(op, 1, aw, x, y, 0, 0) as Ex;
        }
        if a == b { return matches!(op, Op::Eq | Op::Ule | Op::Sle) as Ex; }
        if aw > 1 { if let Some(r) = self.poly_cmp(op, a, b) { return r; } }
        let (ka, kb) = (self.key(a), self.key(b));
        match op {
            Op::Eq => {
                if aw == 1 {
                    if let Some(v) = self.as_const(b) { return if v == 1 { a } else { self.not(a) }; }
                    if let Some(v) = self.as_const(a) { return if v == 1 { b } else { self.not(b) }; }
                }
                // constants on the right
                if ka.op == Op::Const { return self.cmp(Op::Eq, b, a); }
                if kb.op == Op::Const {
                    let c = kb.k;
                    match ka.op {
                        Op::ZExt => { let iw = self.w(ka.a); return if c > mask(iw) { 0 } else { let kc = self.konst(c, iw); self.cmp(Op::Eq, ka.a, kc) }; }
                        Op::SExt => { let iw = self.w(ka.a); let t = c & mask(iw); return if (sext(t, iw) as u128) & mask(aw) != c { 0 } else { let kc = self.konst(t, iw); self.cmp(Op::Eq, ka.a, kc) }; }
                        Op::Add => if let Some(c2) = self.as_const(ka.b) { let kc = self.konst(c.wrapping_sub(c2), aw); return self.cmp(Op::Eq, ka.a, kc); },
                        Op::Sub => {
                            if let Some(c2) = self.as_const(ka.a) { let kc = self.konst(c2.wrapping_sub(c), aw); return self.cmp(Op::Eq, ka.b, kc); }
                            if c == 0 { return self.cmp(Op::Eq, ka.a, ka.b); }
                        }
                        Op::Xor => {
                            if let Some(c2) = self.as_const(ka.b) { let kc = self.konst(c ^ c2, aw); return self.cmp(Op::Eq, ka.a, kc); }
                            if c == 0 { return self.cmp(Op::Eq, ka.a, ka.b); }
                        }
                        Op::Not => { let kc = self.konst(!c, aw); return self.cmp(Op::Eq, ka.a, kc); }
                        Op::Or if c == 0 && aw > 1 => { let z = self.konst(0, aw); let p = self.cmp(Op::Eq, ka.a, z); let q = self.cmp(Op::Eq, ka.b, z); return self.and(p, q); }
                        Op::Shl => if let Some(s) = self.as_const(ka.b) {
                            // (x << s) == c
                            let s32 = s as u32;
                            if s32 < aw as u32 {
                                if c & ((1u128 << s) - 1) != 0 { return 0; }
                                let low = self.extract(ka.a, 0, aw - s as u16);
                                let kc = self.konst(c >> s, aw - s as u16);
                                return self.cmp(Op::Eq, low, kc);
                            }
                        },
                        Op::Concat => {
                            let lw = ka.k as u16;
                            let (h, l) = (self.konst(c >> lw, aw - lw), self.konst(c, lw));
                            let p = self.cmp(Op::Eq, ka.a, h);
                            let q = self.cmp(Op::Eq, ka.b, l);
                            return self.and(p, q);
                        }
                        Op::Ite => {
                            let (t, f) = (self.as_const(ka.b), self.as_const(ka.c));
                            if t.is_some() || f.is_some() || self.ite_consts(ka.b) || self.ite_consts(ka.c) {
                                let p = self.cmp(Op::Eq, ka.b, b);
                                let q = self.cmp(Op::Eq, ka.c, b);
                                return self.ite(ka.a, p, q);
                            }
                        }
                        _ => {}
                    }
                }
                if ka.op == Op::ZExt && kb.op == Op::ZExt {
                    let (wa, wb) = (self.w(ka.a), self.w(kb.a));
                    if wa == wb { return self.cmp(Op::Eq, ka.a, kb.a); }
                    if wa < wb { let z = self.zext(ka.a, wb); return self.cmp(Op::Eq, z, kb.a); }
                    let z = self.zext(kb.a, wa); return self.cmp(Op::Eq, ka.a, z);
                }
                if ka.op == Op::SExt && kb.op == Op::SExt && self.w(ka.a) == self.w(kb.a) { return self.cmp(Op::Eq, ka.a, kb.a); }
                if ka.op == Op::Concat && kb.op == Op::Concat && ka.k == kb.k {
                    let p = self.cmp(Op::Eq, ka.a, kb.a); let q = self.cmp(Op::Eq, ka.b, kb.b); return self.and(p, q);
                }
                // x + c == y + c
                if ka.op == Op::Add && kb.op == Op::Add && ka.b == kb.b { return self.cmp(Op::Eq, ka.a, kb.a); }
                if ka.op == Op::Sub && kb.op == Op::Sub && ka.b == kb.b { return self.cmp(Op::Eq, ka.a, kb.a); }
                let (x, y) = if self.lt(a, b) { (a, b) } else { (b, a) };
                self.mk(Op::Eq, 1, x, y, 0, 0)
            }
            Op::Ult | Op::Ule => {
                if ka.op == Op::ZExt && kb.op == Op::ZExt {
                    let (wa, wb) = (self.w(ka.a), self.w(kb.a));
                    if wa == wb { return self.cmp(op, ka.a, kb.a); }
                    let wm = wa.max(wb);
                    let x = self.zext(ka.a, wm); let y = self.zext(kb.a, wm);
                    return self.cmp(op, x, y);
                }
                if let (Op::ZExt, Some(c)) = (ka.op, self.as_const(b)) {
                    let iw = self.w(ka.a);
                    if c > mask(iw) { return 1; }
                    let kc = self.konst(c, iw); return self.cmp(op, ka.a, kc);
                }
                if let (Op::ZExt, Some(c)) = (kb.op, self.as_const(a)) {
                    let iw = self.w(kb.a);
                    if c > mask(iw) { return 0; }
                    let kc = self.konst(c, iw); return self.cmp(op, kc, kb.a);
                }
                // ult with constants: canonicalise some to equality
                if op == Op::Ult { if let Some(c) = self.as_const(b) { if c == 0 { return 0; } if c == 1 { let z = self.konst(0, aw); return self.cmp(Op::Eq, a, z); } } }
                if op == Op::Ule { if let Some(c) = self.as_const(b) { if c == 0 { let z = self.konst(0, aw); return self.cmp(Op::Eq, a, z); } } }
                if op == Op::Ult { if let Some(0) = self.as_const(a) { let e = self.cmp(Op::Eq, b, a); return self.not(e); } }
                // prefer unsigned compare of narrower values when both fit
                self.mk(op, 1, a, b, 0, 0)
            }
            Op::Slt | Op::Sle => {
                if ka.op == Op::SExt && kb.op == Op::SExt && self.w(ka.a) == self.w(kb.a) { return self.cmp(op, ka.a, kb.a); }
                let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                if na.slo >= 0 && nb.slo >= 0 {
                    return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                self.mk(op, 1, a, b, 0, 0)
            }
            _ => unreachable!(),
        }
    }
    fn ite_consts(&self, e: Ex) -> bool {
        let k = self.key(e);
        k.op == Op::Ite && (self.as_const(k.b).is_some() || self.as_const(k.c).is_some())
    }

    pub fn and(&mut self, a: Ex, b: Ex) -> Ex { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: Ex, b: Ex) -> Ex { self.bin(Op::Or, a, b) }

    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let e = self.bin0(op, a, b);
        if matches!(op, Op::Add | Op::Sub | Op::Mul) { self.share(e) } else { e }
    }
    fn bin0(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { let v = apply(op, w, w, x, y, 0, 0); return self.konst(v, w); }
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return b; }
                if ca.is_some() { return self.bin(Op::Add, b, a); }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                let (ka, kb) = (self.key(a), self.key(b));
                if let Some(y) = cb {
                    if ka.op == Op::Add { if let Some(x) = self.as_const(ka.b) { let k = self.konst(x.wrapping_add(y), w); return self.bin(Op::Add, ka.a, k); } }
                    if ka.op == Op::Sub { if let Some(x) = self.as_const(ka.a) { let k = self.konst(x.wrapping_add(y), w); return self.bin(Op::Sub, k, ka.b); } }
                    return self.mk(Op::Add, w, a, b, 0, 0);
                }
                // float constants outwards: (x + c) + y -> (x + y) + c
                if ka.op == Op::Add { if self.as_const(ka.b).is_some() { let s = self.bin(Op::Add, ka.a, b); return self.bin(Op::Add, s, ka.b); } }
                if kb.op == Op::Add { if self.as_const(kb.b).is_some() { let s = self.bin(Op::Add, a, kb.a); return self.bin(Op::Add, s, kb.b); } }
                // x + (y - x) = y
                if kb.op == Op::Sub && kb.b == a { return kb.a; }
                if ka.op == Op::Sub && ka.b == b { return ka.a; }
                let (x, y) = if self.lt(a, b) { (a, b) } else { (b, a) };
                self.mk(Op::Add, w, x, y, 0, 0)
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.konst(0, w); }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(y) = cb { let k = self.konst(y.wrapping_neg(), w); return self.bin(Op::Add, a, k); }
                let (ka, kb) = (self.key(a), self.key(b));
                if ka.op == Op::Add {
                    if ka.a == b { return ka.b; } if ka.b == b { return ka.a; }
                    if kb.op == Op::Add {
                        if ka.a == kb.a { return self.bin(Op::Sub, ka.b, kb.b); }
                        if ka.b == kb.b { return self.bin(Op::Sub, ka.a, kb.a); }
                    }
                    if self.as_const(ka.b).is_some() { let s = self.bin(Op::Sub, ka.a, b); return self.bin(Op::Add, s, ka.b); }
                }
                if kb.op == Op::Add { if let Some(c) = self.as_const(kb.b) { let s = self.bin(Op::Sub, a, kb.a); let k = self.konst(c.wrapping_neg(), w); return self.bin(Op::Add, s, k); } }
                self.mk(Op::Sub, w, a, b, 0, 0)
            }
            Op::Mul => {
                if cb == Some(0) || ca == Some(0) { return self.konst(0, w); }
                if cb == Some(1) { return a; }
                if ca == Some(1) { return b; }
                if ca.is_some() { return self.bin(Op::Mul, b, a); }
                if w == 1 { return self.bin(Op::And, a, b); }
                if let Some(y) = cb {
                    if y.is_power_of_two() { let k = self.konst(y.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, k); }
                    return self.mk(Op::Mul, w, a, b, 0, 0);
                }
                let (x, y) = if self.lt(a, b) { (a, b) } else { (b, a) };
                self.mk(Op::Mul, w, x, y, 0, 0)
            }
            Op::And => {
                if ca.is_some() { return self.bin(Op::And, b, a); }
                if a == b { return a; }
                if let Some(y) = cb {
                    if y == 0 { return b; }
                    if y == m { return a; }
                    if self.nodes[a as usize].uhi <= y && (y + 1).is_power_of_two() { return a; }
                    if (y + 1).is_power_of_two() { let t = self.extract(a, 0, y.trailing_ones() as u16); return self.zext(t, w); }
                    let ka = self.key(a);
                    if ka.op == Op::ZExt {
                        let iw = self.w(ka.a);
                        let k = self.konst(y, iw); let t = self.bin(Op::And, ka.a, k); return self.zext(t, w);
                    }
                    // contiguous high mask: keep top bits
                    let tz = y.trailing_zeros() as u16;
                    if tz > 0 && (y >> tz) == mask(w - tz) { let hi = self.extract(a, tz, w - tz); let z = self.konst(0, tz); return self.concat(hi, z); }
                } else if w == 1 {
                    let (ka, kb) = (self.key(a), self.key(b));
                    if (ka.op == Op::Not && ka.a == b) || (kb.op == Op::Not && kb.a == a) { return 0; }
                    if ka.op == Op::And && (ka.a == b || ka.b == b) { return a; }
                    if kb.op == Op::And && (kb.a == a || kb.b == a) { return b; }
                }
                let (x, y) = if self.lt(a, b) { (a, b) } else { (b, a) };
                if cb.is_some() { return self.mk(Op::And, w, a, b, 0, 0); }
                self.mk(Op::And, w, x, y, 0, 0)
            }
            Op::Or => {
                if ca.is_some() { return self.bin(Op::Or, b, a); }
                if a == b { return a; }
                if let Some(y) = cb { if y == 0 { return a; } if y == m { return b; } return self.mk(Op::Or, w, a, b, 0, 0); }
                let (ka, kb) = (self.key(a), self.key(b));
                if w == 1 {
                    if (ka.op == Op::Not && ka.a == b) || (kb.op == Op::Not && kb.a == a) { return 1; }
                    if ka.op == Op::Or && (ka.a == b || ka.b == b) { return a; }
                    if kb.op == Op::Or && (kb.a == a || kb.b == a) { return b; }
                }
                // byte assembly: concat(hi, 0s) | zext(lo)
                for (x, kx, y) in [(a, ka, b), (b, kb, a)] {
                    let _ = x;
                    if kx.op == Op::Concat { if let Some(0) = self.as_const(kx.b) {
                        let lw = kx.k as u16;
                        if self.nodes[y as usize].uhi <= mask(lw) { let l = self.extract(y, 0, lw); return self.concat(kx.a, l); }
                    } }
                    if kx.op == Op::ZExt {
                        let ki = self.key(kx.a);
                        if ki.op == Op::Concat { if let Some(0) = self.as_const(ki.b) {
                            let lw = ki.k as u16;
                            if self.nodes[y as usize].uhi <= mask(lw) { let l = self.extract(y, 0, lw); let c = self.concat(ki.a, l); return self.zext(c, w); }
                        } }
                    }
                }
                let (x, y) = if self.lt(a, b) { (a, b) } else { (b, a) };
                self.mk(Op::Or, w, x, y, 0, 0)
            }
            Op::Xor => {
                if ca.is_some() { return self.bin(Op::Xor, b, a); }
                if a == b { return self.konst(0, w); }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return self.not(a); }
                if w == 1 {
                    let (ka, kb) = (self.key(a), self.key(b));
                    if ka.op == Op::Not { let x = self.bin(Op::Xor, ka.a, b); return self.not(x); }
                    if kb.op == Op::Not { let x = self.bin(Op::Xor, a, kb.a); return self.not(x); }
                }
                let (x, y) = if cb.is_none() && self.lt(a, b) { (a, b) } else if cb.is_some() { (a, b) } else { (b, a) };
                self.mk(Op::Xor, w, x, y, 0, 0)
            }
            Op::Shl => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    if s >= w as u128 { return self.konst(0, w); }
                    let s = s as u16;
                    let lo = self.extract(a, 0, w - s);
                    let z = self.konst(0, s);
                    return self.concat(lo, z);
                }
                if ca == Some(0) { return a; }
                self.mk(Op::Shl, w, a, b, 0, 0)
            }
            Op::LShr => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    if s >= w as u128 { return self.konst(0, w); }
                    let s = s as u16;
                    let hi = self.extract(a, s, w - s);
                    return self.zext(hi, w);
                }
                if ca == Some(0) { return a; }
                self.mk(Op::LShr, w, a, b, 0, 0)
            }
            Op::AShr => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    let s = (s.min(w as u128 - 1)) as u16;
                    let hi = self.extract(a, s, w - s);
                    return self.sext(hi, w);
                }
                self.mk(Op::AShr, w, a, b, 0, 0)
            }
            Op::UDiv => {
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.konst(y.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, k); } }
                if self.nodes[a as usize].uhi < self.nodes[b as usize].ulo { return self.konst(0, w); }
                let e = self.mk(op, w, a, b, 0, 0);
                if cb.is_none() && self.nodes[a as usize].slo >= 0 && self.nodes[b as usize].slo >= 0 { self.abstract_div(e) } else { e }
            }
            Op::URem => {
                if cb == Some(1) { return self.konst(0, w); }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.konst(y - 1, w); return self.bin(Op::And, a, k); } }
                if self.nodes[a as usize].uhi < self.nodes[b as usize].ulo { return a; }
                self.mk(op, w, a, b, 0, 0)
            }
            Op::SDiv => {
                if cb == Some(1) { return a; }
                let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                if na.slo >= 0 && nb.slo >= 0 { return self.bin(Op::UDiv, a, b); }
                let e = self.mk(op, w, a, b, 0, 0);
                if cb.is_none() { self.abstract_div(e) } else { e }
            }
            Op::SRem => {
                let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                if na.slo >= 0 && nb.slo >= 0 { return self.bin(Op::URem, a, b); }
                self.mk(op, w, a, b, 0, 0)
            }
            _ => self.mk(op, w, a, b, 0, 0),
        }
    }

    pub fn ite(&mut self, c: Ex, t: Ex, f: Ex) -> Ex {
        if c == 1 { return t; }
        if c == 0 { return f; }
        if t == f { return t; }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(f));
        let kc = self.key(c);
        if kc.op == Op::Not { return self.ite(kc.a, f, t); }
        if w == 1 {
            if t == 1 { return self.or(c, f); }
            if f == 0 { return self.and(c, t); }
            if t == 0 { let n = self.not(c); return self.and(n, f); }
            if f == 1 { let n = self.not(c); return self.or(n, t); }
        }
        let (kt, kf) = (self.key(t), self.key(f));
        if kt.op == Op::Ite && kt.a == c { return self.ite(c, kt.b, f); }
        if kf.op == Op::Ite && kf.a == c { return self.ite(c, t, kf.c); }
        if kf.op == Op::Ite && kf.b == t { let o = self.or(c, kf.a); return self.ite(o, t, kf.c); }
        // pull common extensions out so that narrow values stay narrow
        if kt.op == Op::ZExt && kf.op == Op::ZExt && self.w(kt.a) == self.w(kf.a) {
            let i = self.ite(c, kt.a, kf.a); return self.zext(i, w);
        }
        self.mk(Op::Ite, w, c, t, f, 0)
    }

    pub fn zext(&mut self, a: Ex, w: u16) -> Ex {
        let aw = self.w(a);
        if aw == w { return a; }
        debug_assert!(w > aw);
        if let Some(v) = self.as_const(a) { return self.konst(v, w); }
        let k = self.key(a);
        if k.op == Op::ZExt { return self.zext(k.a, w); }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: Ex, w: u16) -> Ex {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.as_const(a) { return self.konst(sext(v, aw) as u128, w); }
        if aw > 1 && self.nodes[a as usize].slo >= 0 { return self.zext(a, w); }
        let k = self.key(a);
        if k.op == Op::SExt { return self.sext(k.a, w); }
        if k.op == Op::ZExt { return self.zext(k.a, w); }
        // sext(x op y) = sext(x) op sext(y) when the narrow operation cannot overflow
        if matches!(k.op, Op::Add | Op::Sub | Op::Mul) && self.no_soverflow(k.op, k.a, k.b) {
            let x = self.sext(k.a, w); let y = self.sext(k.b, w);
            return self.bin(k.op, x, y);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    /// Interval argument that a signed operation does not overflow.
    pub fn no_soverflow(&self, op: Op, a: Ex, b: Ex) -> bool {
        let w = self.w(a);
        let (a, b) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        let ok = |x: Option<i128>| x.map_or(false, |x| x >= smin(w) && x <= smax(w));
        match op {
            Op::Add => ok(a.slo.checked_add(b.slo)) && ok(a.shi.checked_add(b.shi)),
            Op::Sub => ok(a.slo.checked_sub(b.shi)) && ok(a.shi.checked_sub(b.slo)),
            Op::Mul => ok(a.slo.checked_mul(b.slo)) && ok(a.slo.checked_mul(b.shi)) && ok(a.shi.checked_mul(b.slo)) && ok(a.shi.checked_mul(b.shi)),
            _ => false,
        }
    }
    pub fn no_uoverflow(&self, op: Op, a: Ex, b: Ex) -> bool {
        let m = mask(self.w(a));
        let (a, b) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        match op {
            Op::Add => a.uhi.checked_add(b.uhi).map_or(false, |x| x <= m),
            Op::Sub => a.ulo >= b.uhi,
            Op::Mul => a.uhi.checked_mul(b.uhi).map_or(false, |x| x <= m),
            _ => false,
        }
    }
    pub fn extract(&mut self, a: Ex, lo: u16, w: u16) -> Ex {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        debug_assert!(lo + w <= aw);
        if let Some(v) = self.as_const(a) { return self.konst(v >> lo, w); }
        let k = self.key(a);
        match k.op {
            Op::Extract => return self.extract(k.a, lo + k.k as u16, w),
            Op::ZExt => {
                let iw = self.w(k.a);
                if lo >= iw { return self.konst(0, w); }
                if lo + w <= iw { return self.extract(k.a, lo, w); }
                let p = self.extract(k.a, lo, iw - lo);
                return self.zext(p, w);
            }
            Op::SExt => {
                let iw = self.w(k.a);
                if lo + w <= iw { return self.extract(k.a, lo, w); }
                if lo == 0 { return self.sext(k.a, w); }
            }
            Op::Concat => {
                let lw = k.k as u16;
                if lo >= lw { return self.extract(k.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(k.b, lo, w); }
                let l = self.extract(k.b, lo, lw - lo);
                let h = self.extract(k.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::Ite => {
                // a choice of doubles is kept whole: it is put together again later
                if (self.as_const(k.b).is_some() || self.as_const(k.c).is_some()) && !(self.tables && aw == 64 && w >= 8 && self.const_leaves(a, 0) <= 64) {
                    let t = self.extract(k.b, lo, w); let f = self.extract(k.c, lo, w);
                    return self.ite(k.a, t, f);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(k.a, lo, w); let y = self.extract(k.b, lo, w);
                return self.bin(k.op, x, y);
            }
            Op::Not => { let x = self.extract(k.a, lo, w); return self.not(x); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // truncation commutes with ring operations
                let x = self.extract(k.a, 0, w); let y = self.extract(k.b, 0, w);
                return self.bin(k.op, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, hi: Ex, lo: Ex) -> Ex {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(c), true) = (self.as_const(hi), self.tables) {
            let k = self.key(lo);
            if k.op == Op::Extract && k.k == 0 && self.w(k.a) == w && self.const_leaves(k.a, 0) <= 64 && self.leaves_start(k.a, c, lw) { return k.a; }
        }
        if let (Some(c), true) = (self.as_const(lo), self.tables) {
            let k = self.key(hi);
            if k.op == Op::Extract && k.k == lw as u128 && self.const_leaves(k.a, 0) <= 64 && self.leaves_end(k.a, c, lw) { return self.extract(k.a, 0, w); }
        }
        if let (Some(h), Some(l)) = (self.as_const(hi), self.as_const(lo)) { return self.konst((h << lw) | l, w); }
        if let Some(0) = self.as_const(hi) { return self.zext(lo, w); }
        let (kh, kl) = (self.key(hi), self.key(lo));
        if kh.op == Op::Extract && kl.op == Op::Extract && kh.a == kl.a && kh.k == kl.k + lw as u128 {
            return self.extract(kh.a, kl.k as u16, w);
        }
        if kh.op == Op::Extract && kh.a == lo && kh.k == lw as u128 { return self.extract(lo, 0, w); }
        // concat(concat(x, ext), ext)
        if kh.op == Op::Concat {
            let klo = self.key(kh.b);
            if klo.op == Op::Extract && kl.op == Op::Extract && klo.a == kl.a && klo.k == kl.k + lw as u128 {
                let m = self.extract(kl.a, kl.k as u16, lw + kh.k as u16);
                return self.concat(kh.a, m);
            }
        }
        // concat(zext(x), y): keep the zeros outermost
        if kh.op == Op::ZExt { let c = self.concat(kh.a, lo); return self.zext(c, w); }
        self.mk(Op::Concat, w, hi, lo, 0, lw as u128)
    }
    pub fn fp(&mut self, op: Op, w: u16, a: Ex, b: Ex, k: u128) -> Ex {
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = apply(op, w, self.w(a), x, y, 0, k); return self.konst(v, w);
        }
        // a choice between constants stays one
        if !self.tables {}
        else if a == b || cb.is_some() || ca.is_some() {
            let s = if ca.is_some() { b } else { a };
            if self.const_leaves(s, 0) <= 600 {
                let ks = self.key(s);
                let (b2, b3) = if a == b { (ks.b, ks.c) } else { (b, b) };
                let (t, f) = if ca.is_some() { (self.fp(op, w, a, ks.b, k), self.fp(op, w, a, ks.c, k)) } else { (self.fp(op, w, ks.b, b2, k), self.fp(op, w, ks.c, b3, k)) };
                return self.ite(ks.a, t, f);
            }
        }
        else if self.const_leaves(a, 0) * self.const_leaves(b, 0) <= 600 {
            let ks = self.key(a);
            let (t, f) = (self.fp(op, w, ks.b, b, k), self.fp(op, w, ks.c, b, k));
            return self.ite(ks.a, t, f);
        }
        let e = self.mk(op, w, a, b, 0, k);
        if self.abs && !matches!(op, Op::FLt | Op::FLe | Op::FEq | Op::FIsNan | Op::UiToF | Op::SiToF) { return self.abstract_fp(e); }
        e
    }
    fn leaves_start(&self, e: Ex, c: u128, w: u16) -> bool { let k = self.key(e); if k.op == Op::Ite { self.leaves_start(k.b, c, w) && self.leaves_start(k.c, c, w) } else { k.k >> w == c } }
    fn leaves_end(&self, e: Ex, c: u128, w: u16) -> bool { let k = self.key(e); if k.op == Op::Ite { self.leaves_end(k.b, c, w) && self.leaves_end(k.c, c, w) } else { k.k & mask(w) == c } }
    /// Number of leaves of a tree of choices between constants, 1000 if it is none.
    fn const_leaves(&self, e: Ex, depth: u32) -> u32 {
        let k = self.key(e);
        if depth > 0 && k.op == Op::Const { return 1; }
        if k.op != Op::Ite || depth > 40 { return 1000; }
        let n = self.const_leaves(k.b, depth + 1);
        if n >= 1000 { return 1000; }
        (n + self.const_leaves(k.c, depth + 1)).min(1000)
    }
    /// In abstract mode a rounded result is a variable, with facts that hold of
    /// IEEE arithmetic (rounding is monotone and keeps signs; differences of
    /// different numbers are not zero) if asked for.
    fn abstract_fp(&mut self, e: Ex) -> Ex {
        if let Some(&v) = self.fp_var.get(&e) { return v; }
        let k = self.key(e); let w = k.w;
        let vi = self.var_names.len();
        self.var_names.push((format!("a{}_{}", vi, w), w));
        let v = self.mk(Op::Var, w, 0, 0, 0, vi as u128);
        let h = self.nodes[e as usize].h;
        self.nodes[v as usize].h = h.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xabcf;
        self.fp_var.insert(e, v);
        self.abs_def.insert(vi as u32, (v, e, vec![]));
        if !self.fpfacts { return v; }
        let (a, b) = (k.a, k.b);
        let z = self.konst(0, 64); let one = self.konst(1f64.to_bits() as u128, 64);
        let le = |d: &mut Dag, x: Ex, y: Ex| d.fp(Op::FLe, 1, x, y, 0);
        let lt = |d: &mut Dag, x: Ex, y: Ex| d.fp(Op::FLt, 1, x, y, 0);
        let eq = |d: &mut Dag, x: Ex, y: Ex| d.fp(Op::FEq, 1, x, y, 0);
        let nn = |d: &mut Dag, x: Ex| { let n = d.fp(Op::FIsNan, 1, x, x, 0); d.not(n) };
        let expo = |d: &mut Dag, x: Ex, lim: u128| { let f = d.extract(x, 52, 11); let c = d.konst(lim, 11); d.cmp(Op::Ult, f, c) };
        let fin = |d: &mut Dag, x: Ex| expo(d, x, 0x7ff);
        let imp = |d: &mut Dag, c: &[Ex], t: Ex| { let mut g = 1; for &x in c { g = d.and(g, x); } let n = d.not(g); d.or(n, t) };
        let mut f = vec![];
        match k.op {
            Op::FSub | Op::FAdd => {
                let (fa, fb, na, nb, nv, fv) = (fin(self, a), fin(self, b), nn(self, a), nn(self, b), nn(self, v), fin(self, v));
                f.push(imp(self, &[fa, nb], nv)); f.push(imp(self, &[fb, na], nv));
                let (sa, sb) = (expo(self, a, 0x7fe), expo(self, b, 0x7fe));
                f.push(imp(self, &[sa, sb], fv));
                if k.op == Op::FSub {
                    let (l, g, q) = (lt(self, a, b), lt(self, b, a), eq(self, a, b));
                    let (l2, g2, q2) = (lt(self, v, z), lt(self, z, v), eq(self, v, z));
                    f.push(imp(self, &[l], l2)); f.push(imp(self, &[g], g2)); f.push(imp(self, &[q, fa], q2));
                }
            }
            Op::FMul | Op::FDiv => {
                let (fa, fb, na, nb, nv) = (fin(self, a), fin(self, b), nn(self, a), nn(self, b), nn(self, v));
                let (qa, qb) = (eq(self, a, z), eq(self, b, z));
                let (za, zb) = (self.not(qa), self.not(qb));
                let (pa, pb, ma, mb) = (le(self, z, a), le(self, z, b), le(self, a, z), le(self, b, z));
                let (pb, mb) = if k.op == Op::FDiv { (lt(self, z, b), lt(self, b, z)) } else { (pb, mb) };
                let (pv, mv, q) = (le(self, z, v), le(self, v, z), eq(self, v, z));
                let o = if k.op == Op::FMul { vec![fa, fb] } else { vec![fa, zb, nb] };
                f.push(imp(self, &o, nv));
                f.push(imp(self, &[na, fb, zb], nv));
                f.push(imp(self, &[pa, pb, nv], pv)); f.push(imp(self, &[ma, mb, nv], pv)); f.push(imp(self, &[pa, mb, nv], mv)); f.push(imp(self, &[ma, pb, nv], mv));
                f.push(imp(self, &[qa, nv], q));
                if k.op == Op::FDiv {
                    let (l, l2) = (le(self, a, b), le(self, v, one)); f.push(imp(self, &[l, pa, nv], l2));
                    let (l, l2) = (le(self, b, a), le(self, v, one)); f.push(imp(self, &[l, ma, nv], l2));
                    let (x, y) = (eq(self, a, b), self.cmp(Op::Eq, v, one)); f.push(imp(self, &[x, fa, zb], y));
                } else {
                    for (a, b, fb, pb) in [(a, b, fb, pb), (b, a, fa, pa)] {
                        let (l, l2) = (le(self, a, one), le(self, v, b)); f.push(imp(self, &[l, pb, fb, nv], l2));
                        let (x, y) = (eq(self, a, one), eq(self, v, b)); let n = nn(self, b); f.push(imp(self, &[x, n], y));
                    }
                }
            }
            Op::FToUiSat if w <= 53 => {
                let top = self.konst(((mask(w) as f64).to_bits()) as u128, 64); let m = self.konst(mask(w), w); let zero = self.konst(0, w);
                let (g, l, n) = (le(self, top, a), lt(self, a, one), nn(self, a));
                let (q, y) = (self.cmp(Op::Eq, v, m), self.cmp(Op::Eq, v, zero));
                f.push(imp(self, &[g], q)); f.push(imp(self, &[l], y)); f.push(self.or(n, y));
            }
            _ => {}
        }
        for (op, a2, b2, v2) in self.fp_terms.clone() {
            if op != k.op { continue; }
            let (nv, nv2) = (nn(self, v), nn(self, v2));
            match op {
                Op::FSub | Op::FAdd => for (x, y, p, q, r, s) in [(a, b, a2, b2, v, v2), (a2, b2, a, b, v2, v)] {
                    let (l, l2, t) = (le(self, x, p), if op == Op::FSub { le(self, q, y) } else { le(self, y, q) }, le(self, r, s));
                    f.push(imp(self, &[l, l2, nv, nv2], t));
                },
                Op::FMul | Op::FDiv => {
                    let same = if b == b2 { Some((b, a, a2)) } else if op == Op::FMul && a == a2 { Some((a, b, b2)) } else { None };
                    if let Some((c, x, y)) = same {
                        let (p, m) = (lt(self, z, c), lt(self, c, z));
                        for (x, y, r, s) in [(x, y, v, v2), (y, x, v2, v)] {
                            let (l, t1, t2) = (le(self, x, y), le(self, r, s), le(self, s, r));
                            f.push(imp(self, &[p, l, nv, nv2], t1)); f.push(imp(self, &[m, l, nv, nv2], t2));
                        }
                    }
                }
                Op::FToUiSat | Op::FRound | Op::FTo32 if w == self.w(v2) && k.k == self.key(self.abs_def[&(self.key(v2).k as u32)].1).k => for (x, y, r, s) in [(a, a2, v, v2), (a2, a, v2, v)] {
                    let l = le(self, x, y); let t = match op { Op::FToUiSat => self.cmp(Op::Ule, r, s), Op::FRound => le(self, r, s), _ => 1 };
                    f.push(imp(self, &[l], t));
                },
                _ => {}
            }
        }
        self.fp_terms.push((k.op, a, b, v));
        f.retain(|&x| x != 1);
        self.abs_def.insert(vi as u32, (v, e, f));
        v
    }

    /// Rebuild a node with new children.
    pub fn rebuild(&mut self, k: Key, a: Ex, b: Ex, c: Ex) -> Ex {
        match k.op {
            Op::Const | Op::Var => unreachable!(),
            Op::Not => self.not(a),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => self.cmp(k.op, a, b),
            Op::Ite => self.ite(a, b, c),
            Op::ZExt => self.zext(a, k.w),
            Op::SExt => self.sext(a, k.w),
            Op::Extract => self.extract(a, k.k as u16, k.w),
            Op::Concat => self.concat(a, b),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq => self.fp(k.op, k.w, a, b, k.k),
            Op::FIsNan | Op::UiToF | Op::SiToF | Op::FToUiSat | Op::FToSiSat | Op::FRound | Op::FTo32 | Op::FFrom32 => { self.fp(k.op, k.w, a, a, k.k) }
            _ => self.bin(k.op, a, b),
        }
    }

    /// Evaluate under an assignment of variables (missing variables are 0).
    pub fn eval(&mut self, e: Ex, model: &FxMap<u32, u128>) -> u128 {
        self.gen += 1;
        if self.ev_gen.len() < self.nodes.len() { self.ev_gen.resize(self.nodes.len() + 1024, 0); self.ev_val.resize(self.nodes.len() + 1024, 0); }
        let g = self.gen;
        self.eval_rec(e, model, g)
    }
    fn eval_rec(&mut self, e: Ex, model: &FxMap<u32, u128>, g: u32) -> u128 {
        let i = e as usize;
        if self.ev_gen[i] == g { return self.ev_val[i]; }
        let k = self.nodes[i].key;
        let v = match k.op {
            Op::Const => k.k,
            Op::Var => match model.get(&(k.k as u32)) { Some(&v) => v, None => match self.abs_def.get(&(k.k as u32)) { Some(x) => { let d = x.1; self.eval_rec(d, model, g) } None => 0 } },
            Op::Ite => { if self.eval_rec(k.a, model, g) != 0 { self.eval_rec(k.b, model, g) } else { self.eval_rec(k.c, model, g) } }
            Op::Not | Op::ZExt | Op::SExt | Op::Extract | Op::FIsNan | Op::UiToF | Op::SiToF | Op::FToUiSat | Op::FToSiSat | Op::FRound | Op::FTo32 | Op::FFrom32 => {
                let a = self.eval_rec(k.a, model, g); apply(k.op, k.w, self.nodes[k.a as usize].key.w, a, 0, 0, k.k)
            }
            _ => {
                let a = self.eval_rec(k.a, model, g); let b = self.eval_rec(k.b, model, g);
                apply(k.op, k.w, self.nodes[k.a as usize].key.w, a, b, 0, k.k)
            }
        };
        self.ev_gen[i] = g;
        self.ev_val[i] = v;
        v
    }
    pub fn children(&self, e: Ex) -> ([Ex; 3], usize) {
        let k = self.nodes[e as usize].key;
        match k.op {
            Op::Const | Op::Var => ([0; 3], 0),
            Op::Not | Op::ZExt | Op::SExt | Op::Extract | Op::FIsNan | Op::UiToF | Op::SiToF | Op::FToUiSat | Op::FToSiSat | Op::FRound | Op::FTo32 | Op::FFrom32 => ([k.a, 0, 0], 1),
            Op::Ite => ([k.a, k.b, k.c], 3),
            _ => ([k.a, k.b, 0], 2),
        }
    }
    /// Variables occurring in an expression (sorted), memoised.
    pub fn vars(&mut self, e: Ex) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&e) { return v.clone(); }
        self.gen += 1;
        if self.ev_gen.len() < self.nodes.len() { self.ev_gen.resize(self.nodes.len() + 1024, 0); self.ev_val.resize(self.nodes.len() + 1024, 0); }
        let g = self.gen;
        let mut st = vec![e];
        let mut out = vec![];
        while let Some(x) = st.pop() {
            if self.ev_gen[x as usize] == g { continue; }
            self.ev_gen[x as usize] = g;
            let k = self.nodes[x as usize].key;
            if k.op == Op::Var { out.push(k.k as u32); }
            let (c, n) = self.children(x);
            for i in 0..n { st.push(c[i]); }
        }
        out.sort();
        let r = std::rc::Rc::new(out);
        self.vars_memo.insert(e, r.clone());
        r
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    /// Every fact about rounded arithmetic is true of the arithmetic of this machine.
    #[test] fn fp_facts() {
        let mut d = Dag::new(); d.abs = true; d.fpfacts = true;
        let v: Vec<Ex> = (0..4).map(|i| { d.var_names.push((format!("v{}", i), 64)); d.var(i, 64) }).collect();
        let c = d.konst((u32::MAX as f64).to_bits() as u128, 64);
        let mut t = vec![];
        for op in [Op::FAdd, Op::FSub, Op::FMul, Op::FDiv] { for &(a, b) in &[(0, 1), (2, 1), (1, 0), (2, 3), (0, 3)] { t.push(d.fp(op, 64, v[a], v[b], 0)); } t.push(d.fp(op, 64, v[0], c, 0)); t.push(d.fp(op, 64, v[1], c, 0)); }
        for &x in &v { for w in [8, 32] { d.fp(Op::FToUiSat, w, x, x, 0); } for k in 0..5 { d.fp(Op::FRound, 64, x, x, k); } d.fp(Op::FTo32, 32, x, x, 0); }
        let facts: Vec<Ex> = d.abs_def.values().flat_map(|x| x.2.clone()).collect();
        assert!(facts.len() > 300);
        let sp = [0.0, 1.0, 2.0, 0.5, 1.5, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NAN, 255.0, 255.9, 4294967295.0, 4294967296.0, 1e300, 3.0, f64::MAX / 2.0];
        let mut r = 88172645463325252u64;
        for i in 0..60000 {
            let mut m: FxMap<u32, u128> = Default::default();
            for j in 0..4u32 {
                r ^= r << 13; r ^= r >> 7; r ^= r << 17;
                let x = match (r >> 60) % 4 { 0 => r.rotate_left(20), 1 => (1.0 + (r % 1024) as f64 / 512.0).to_bits(), _ => { let s: f64 = sp[(r >> 8) as usize % sp.len()]; if r & 1 == 1 { (-s).to_bits() } else { s.to_bits() } } };
                m.insert(j, x as u128);
            }
            for &f in &facts { assert_eq!(d.eval(f, &m), 1, "fact {} at {:?} ({})", f, m, i); }
        }
    }
}
