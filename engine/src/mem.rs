//! Flat memory of disjoint objects.  Object id = address >> 32.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone)]
pub struct Obj { pub bytes: Vec<u8>, pub sym: BTreeMap<u32, (Ex, u8)>, pub ro: bool }

pub const HEAP: u64 = 1 << 28;
pub const STACK: u64 = 1 << 29;
const CH: usize = 32;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    heap: Vec<Rc<Chunk>>,
    nheap: usize,
    stack: Vec<Rc<Obj>>,
    glob: BTreeMap<u32, Rc<Obj>>,
    shared: Arc<Vec<(Vec<u8>, bool)>>,
}

pub type R<T> = Result<T, String>;

impl Mem {
    pub fn new(shared: Arc<Vec<(Vec<u8>, bool)>>) -> Mem { Mem { heap: vec![], nheap: 0, stack: vec![], glob: BTreeMap::new(), shared } }
    pub fn malloc(&mut self, size: u64) -> u64 {
        let id = self.nheap; self.nheap += 1;
        let o = Rc::new(Obj { bytes: vec![0; size as usize], sym: BTreeMap::new(), ro: false });
        if id % CH == 0 { self.heap.push(Rc::new(Vec::with_capacity(CH))); }
        let c = Rc::make_mut(&mut self.heap[id / CH]);
        c.push(Some(o));
        (HEAP + id as u64) << 32
    }
    pub fn free(&mut self, addr: u64) -> R<()> {
        if addr == 0 { return Ok(()); }
        let id = addr >> 32;
        if addr & 0xffff_ffff != 0 || id < HEAP || id >= STACK { return Err(format!("free of non-heap address {:#x}", addr)); }
        let id = (id - HEAP) as usize;
        if id >= self.nheap || self.heap[id / CH][id % CH].is_none() { return Err("double free".into()); }
        Rc::make_mut(&mut self.heap[id / CH])[id % CH] = None;
        Ok(())
    }
    pub fn stack_len(&self) -> usize { self.stack.len() }
    pub fn alloca(&mut self, size: u64) -> u64 {
        self.stack.push(Rc::new(Obj { bytes: vec![0; size as usize], sym: BTreeMap::new(), ro: false }));
        (STACK + self.stack.len() as u64 - 1) << 32
    }
    pub fn stack_pop(&mut self, n: usize) { self.stack.truncate(n); }
    pub fn live(&self) -> usize { self.heap.iter().map(|c| c.iter().filter(|x| x.is_some()).count()).sum() }
    pub fn size_of(&self, addr: u64) -> Option<u64> {
        let id = addr >> 32;
        if id >= crate::ir::FN_BASE { None }
        else if id >= STACK { self.stack.get((id - STACK) as usize).map(|o| o.bytes.len() as u64) }
        else if id >= HEAP { let i = (id - HEAP) as usize; self.heap.get(i / CH).and_then(|c| c.get(i % CH)).and_then(|o| o.as_ref()).map(|o| o.bytes.len() as u64) }
        else if id >= 1 { self.shared.get(id as usize - 1).map(|o| o.0.len() as u64) }
        else { None }
    }
    fn with<T>(&self, addr: u64, n: u64, f: impl FnOnce(&[u8], Option<&BTreeMap<u32, (Ex, u8)>>, usize) -> T) -> R<T> {
        let id = addr >> 32; let off = (addr & 0xffff_ffff) as usize;
        let chk = |len: usize| -> R<()> { if off as u64 + n <= len as u64 { Ok(()) } else { Err(format!("out-of-bounds access {:#x}+{} (object size {})", addr, n, len)) } };
        if id >= STACK && id < crate::ir::FN_BASE {
            let o = self.stack.get((id - STACK) as usize).ok_or("dangling stack access")?; chk(o.bytes.len())?;
            return Ok(f(&o.bytes, if o.sym.is_empty() { None } else { Some(&o.sym) }, off));
        }
        if id >= HEAP && id < STACK {
            let i = (id - HEAP) as usize;
            let o = self.heap.get(i / CH).and_then(|c| c.get(i % CH)).and_then(|o| o.as_ref()).ok_or("access to freed or unknown heap object")?; chk(o.bytes.len())?;
            return Ok(f(&o.bytes, if o.sym.is_empty() { None } else { Some(&o.sym) }, off));
        }
        if id >= 1 && id < HEAP {
            if let Some(o) = self.glob.get(&(id as u32)) { chk(o.bytes.len())?; return Ok(f(&o.bytes, if o.sym.is_empty() { None } else { Some(&o.sym) }, off)); }
            if let Some(o) = self.shared.get(id as usize - 1) { chk(o.0.len())?; return Ok(f(&o.0, None, off)); }
        }
        Err(format!("access to unmapped address {:#x}", addr))
    }
    pub fn obj_mut(&mut self, addr: u64, n: u64) -> R<(&mut Obj, usize)> {
        let id = addr >> 32; let off = (addr & 0xffff_ffff) as usize;
        let o: &mut Obj = if id >= STACK && id < crate::ir::FN_BASE {
            Rc::make_mut(self.stack.get_mut((id - STACK) as usize).ok_or("dangling stack write")?)
        } else if id >= HEAP && id < STACK {
            let i = (id - HEAP) as usize;
            let c = self.heap.get_mut(i / CH).ok_or("write to unknown heap object")?;
            Rc::make_mut(Rc::make_mut(c).get_mut(i % CH).and_then(|o| o.as_mut()).ok_or("write to freed heap object")?)
        } else if id >= 1 && id < HEAP {
            let sh = self.shared.get(id as usize - 1).ok_or("unmapped write")?;
            let e = self.glob.entry(id as u32).or_insert_with(|| Rc::new(Obj { bytes: sh.0.clone(), sym: BTreeMap::new(), ro: sh.1 }));
            if e.ro { return Err("write to constant".into()); }
            Rc::make_mut(e)
        } else { return Err(format!("write to unmapped address {:#x}", addr)); };
        if off as u64 + n > o.bytes.len() as u64 { return Err(format!("out-of-bounds write {:#x}+{} (object size {})", addr, n, o.bytes.len())); }
        Ok((o, off))
    }
    /// Load n <= 16 bytes: concrete value or expression.
    pub fn load(&self, d: &mut Dag, addr: u64, n: u64) -> R<Result<u128, Ex>> {
        self.with(addr, n, |b, sym, off| {
            let conc = |o: usize, n: usize| { let mut v = 0u128; for i in (0..n).rev() { v = (v << 8) | b[o + i] as u128; } v };
            let sym = match sym { None => return Ok(conc(off, n as usize)), Some(s) => s };
            if let Some(&(e, l)) = sym.get(&(off as u32)) { if l as u64 == n { return Err(e); } }
            // overlapping entries
            let lo = off as u32; let hi = off as u32 + n as u32;
            let mut parts: Vec<(u32, u32, Ex)> = vec![]; // start,end,expr
            for (&s, &(e, l)) in sym.range(lo.saturating_sub(15)..hi) {
                let en = s + l as u32;
                if en <= lo { continue; }
                let a = s.max(lo); let z = en.min(hi);
                let x = d.extract(e, ((a - s) * 8) as u16, ((z - a) * 8) as u16);
                parts.push((a, z, x));
            }
            if parts.is_empty() { return Ok(conc(off, n as usize)); }
            // assemble low to high
            let mut acc: Option<Ex> = None; let mut at = lo;
            let push = |d: &mut Dag, x: Ex, acc: &mut Option<Ex>| { *acc = Some(match *acc { None => x, Some(l) => d.concat(x, l) }); };
            for (a, z, x) in parts {
                if at < a { let k = d.konst(conc(at as usize, (a - at) as usize), ((a - at) * 8) as u16); push(d, k, &mut acc); }
                push(d, x, &mut acc); at = z;
            }
            if at < hi { let k = d.konst(conc(at as usize, (hi - at) as usize), ((hi - at) * 8) as u16); push(d, k, &mut acc); }
            let e = acc.unwrap();
            if let Some(v) = d.as_const(e) { return Ok(v); }
            Err(e)
        })
    }
    fn clear_sym(d: &mut Dag, o: &mut Obj, lo: u32, hi: u32) {
        if o.sym.is_empty() { return; }
        let hits: Vec<(u32, Ex, u8)> = o.sym.range(lo.saturating_sub(15)..hi).filter(|(&s, &(_, l))| s + l as u32 > lo).map(|(&s, &(e, l))| (s, e, l)).collect();
        for (s, e, l) in hits {
            o.sym.remove(&s);
            let en = s + l as u32;
            if s < lo { let x = d.extract(e, 0, ((lo - s) * 8) as u16); put(d, o, s, x, (lo - s) as u8); }
            if en > hi { let x = d.extract(e, ((hi - s) * 8) as u16, ((en - hi) * 8) as u16); put(d, o, hi, x, (en - hi) as u8); }
        }
        fn put(d: &mut Dag, o: &mut Obj, at: u32, x: Ex, n: u8) {
            if let Some(v) = d.as_const(x) { for i in 0..n as usize { o.bytes[at as usize + i] = (v >> (8 * i)) as u8; } }
            else { o.sym.insert(at, (x, n)); }
        }
    }
    pub fn store(&mut self, d: &mut Dag, addr: u64, n: u64, v: Result<u128, Ex>) -> R<()> {
        let (o, off) = self.obj_mut(addr, n)?;
        Self::clear_sym(d, o, off as u32, off as u32 + n as u32);
        match v {
            Ok(v) => for i in 0..n as usize { o.bytes[off + i] = (v >> (8 * i)) as u8; },
            Err(e) => { o.sym.insert(off as u32, (e, n as u8)); }
        }
        Ok(())
    }
    pub fn copy(&mut self, d: &mut Dag, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (bytes, syms) = self.with(src, n, |b, sym, off| {
            let v = b[off..off + n as usize].to_vec();
            let mut s: Vec<(u32, Ex, u8)> = vec![];
            if let Some(sym) = sym {
                let lo = off as u32; let hi = lo + n as u32;
                for (&st, &(e, l)) in sym.range(lo.saturating_sub(15)..hi) {
                    let en = st + l as u32; if en <= lo { continue; }
                    let a = st.max(lo); let z = en.min(hi);
                    let x = d.extract(e, ((a - st) * 8) as u16, ((z - a) * 8) as u16);
                    s.push((a - lo, x, (z - a) as u8));
                }
            }
            (v, s)
        })?;
        let (o, off) = self.obj_mut(dst, n)?;
        Self::clear_sym(d, o, off as u32, off as u32 + n as u32);
        o.bytes[off..off + n as usize].copy_from_slice(&bytes);
        for (r, x, l) in syms {
            if let Some(v) = d.as_const(x) { for i in 0..l as usize { o.bytes[off + r as usize + i] = (v >> (8 * i)) as u8; } }
            else { o.sym.insert(off as u32 + r, (x, l)); }
        }
        Ok(())
    }
    pub fn set(&mut self, d: &mut Dag, dst: u64, n: u64, v: Result<u8, Ex>) -> R<()> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.obj_mut(dst, n)?;
        Self::clear_sym(d, o, off as u32, off as u32 + n as u32);
        match v {
            Ok(b) => for i in 0..n as usize { o.bytes[off + i] = b; },
            Err(e) => for i in 0..n as u32 { o.sym.insert(off as u32 + i, (e, 1)); },
        }
        Ok(())
    }
    pub fn cstr(&self, addr: u64) -> String {
        let mut s = String::new();
        let mut a = addr;
        loop { match self.with(a, 1, |b, _, o| b[o]) { Ok(0) | Err(_) => return s, Ok(c) => s.push(c as char) } a += 1; if s.len() > 200 { return s; } }
    }
    pub fn bytes(&self, addr: u64, n: u64) -> Option<Vec<u8>> { self.with(addr, n, |b, _, o| b[o..o + n as usize].to_vec()).ok() }
}
