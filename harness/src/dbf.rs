//! C03 (well-formed .dbf streams), C04 (everything else), C05 (field values).
use crate::src::*;
use crate::sym::*;
use encoding::EncodingRef;
use std::fmt::Write;
use topogeo::read::shapefile::dbf::*;

/// A string stands for its bytes.
fn text(s: &str) -> &[u8] { s.as_bytes() }
fn eq(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i]; } r }
pub struct Sink(pub usize);
impl Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); Ok(()) } }

pub struct Field { pub name: Vec<u8>, pub code: u8, pub len: u8 }
pub fn descriptor(o: &mut Bytes, f: &Field) {
    for b in f.name.iter() { o.u8(*b); }
    if f.name.len() < 11 { o.u8(0).any(10 - f.name.len()); }
    o.u8(f.code).any(4).u8(f.len).any(15);
}
pub fn header(o: &mut Bytes, records: u32, head: u16, row: u16) {
    let (m, d) = (any_u8(), any_u8());
    assume(m >= 1); assume(m <= 12); assume(d >= 1); assume(d <= 31);
    o.any(2).u8(m).u8(d).le32(records).le16(head).le16(row).any(20);
}
fn ascii() -> EncodingRef { encoding::all::ASCII }
/// params: fields at most, records at most, greatest field width, bytes per read, 1: print the records
#[no_mangle] pub extern "C" fn h_good() {
    let (nf, nr, fw, chunk) = (param(0), param(1), param(2), param(3) as usize);
    let nf = pick(nf + 1) as usize; let n = pick(nr + 1) as usize;
    let mut fields = vec![];
    for i in 0..nf {
        let k = [11, 3, 10, 0][(i + pick(2) as usize) % 4];
        let name = (0..k).map(|_| { let b = any_u8(); assume(b != 0); assume(b < 128); b }).collect();
        fields.push(Field { name, code: b'C', len: 1 + pick(fw) as u8 });
    }
    let row = 1 + fields.iter().map(|f| f.len as usize).sum::<usize>();
    let mut o = Bytes::new();
    header(&mut o, n as u32, (32 + 32 * nf + 1) as u16, row as u16);
    for f in fields.iter() { descriptor(&mut o, f); }
    o.u8(13);
    let start = o.0.len();
    for _ in 0..n { o.any(1); for _ in 1..row { let b = any_u8(); assume(b > 32); assume(b < 128); o.u8(b); } }
    let extra = pick(2) as usize; o.any(extra);
    let r = DbfReader::new(Src::new(&o.0, chunk), ascii());
    check(r.is_ok(), 1);
    let mut r = r.unwrap();
    check(r.meta.n_records == n && r.meta.n_bytes_per_record == row && r.meta.fields.len() == nf, 2);
    for (g, f) in r.meta.fields.iter().zip(fields.iter()) { check(eq(text(&g.name), &f.name), 3); }
    let got: Vec<DbfField> = r.meta.fields.iter().map(|f| f.clone()).collect();
    for k in 0..n {
        let x = r.next();
        check(matches!(x, Some(Ok(_))), 4);
        let x = x.unwrap().unwrap();
        let want = &o.0[start + k * row..start + (k + 1) * row];
        check(eq(&x.bytes, want), 5);
        let mut at = 1;
        for (i, f) in fields.iter().enumerate() {
            let s = got[i].read_string(&x);
            check(s.is_ok(), 6);
            check(eq(text(&s.unwrap()), &want[at..at + f.len as usize]), 7);
            at += f.len as usize;
        }
        if param(4) == 1 {
            let mut w = vec![b'{']; let mut at = 1;
            for (i, f) in fields.iter().enumerate() {
                if i > 0 { w.extend_from_slice(b"; "); }
                w.extend_from_slice(&f.name); w.push(b':'); w.extend_from_slice(&want[at..at + f.len as usize]);
                at += f.len as usize;
            }
            w.push(b'}');
            let mut s = String::new();
            check(write!(s, "{}", x).is_ok(), 10);
            check(eq(text(&s), &w), 11);
        }
    }
    check(r.next().is_none(), 8);
    check(r.next().is_none(), 9);
    obs(n as u64); obs(row as u64);
    reach(1);
    if n > 0 && nf > 1 { reach(2); }
}
/// Looking fields up by name finds the first one of that name.
/// params: fields, length of names
#[no_mangle] pub extern "C" fn h_lookup() {
    let (nf, k) = (param(0) as usize, param(1) as usize);
    let mut o = Bytes::new();
    let mut row = 1;
    let fields: Vec<Field> = (0..nf).map(|i| { row += 1 + i; Field { name: (0..k).map(|_| { let b = any_u8(); assume(b != 0); assume(b < 128); b }).collect(), code: b'C', len: 1 + i as u8 } }).collect();
    header(&mut o, 1, (32 + 32 * nf + 1) as u16, row as u16);
    for f in fields.iter() { descriptor(&mut o, f); }
    o.u8(13).any(1);
    for i in 0..nf { for _ in 0..1 + i { o.u8(b'a' + i as u8); } }
    let mut r = DbfReader::new(Src::new(&o.0, 0), ascii()).unwrap();
    let q: Vec<u8> = (0..k).map(|_| { let b = any_u8(); assume(b < 128); b }).collect();
    let name = String::from_utf8(q.clone()).unwrap();
    let f = r.get_field(&name);
    let x = r.next().unwrap().unwrap();
    let mut want = None;
    for i in 0..nf { if split(eq(&fields[i].name, &q)) { want = Some(i); break; } }
    match want {
        None => { check(f.is_none(), 1); reach(1); }
        Some(i) => {
            check(f.is_some(), 2);
            let f = f.unwrap();
            check(eq(text(&f.name), &q), 3);
            let s = f.read_string(&x);
            check(s.is_ok(), 4);
            let s = s.unwrap();
            check(s.len() == 1 + i && s.as_bytes()[0] == b'a' + i as u8, 5);
            reach(2);
        }
    }
    obs(want.unwrap_or(9) as u64);
}
fn le16(b: &[u8], i: usize) -> u64 { b[i] as u64 | (b[i + 1] as u64) << 8 }
/// Any bytes.  params: bytes in all, rows to read, bytes per read, 1: print the rows, fields (99: any header),
/// greatest width of a field (0: any)
#[no_mangle] pub extern "C" fn h_any() {
    let (n, rows, chunk, print, fields, wide) = (param(0) as usize, param(1), param(2) as usize, param(3) == 1, param(4) as usize, param(5) as u8);
    let mut o = Bytes::new();
    o.any(n);
    if fields < 99 {
        // one-letter names, and the announced size of the header is right
        o.0[8] = (33 + 32 * fields) as u8; o.0[9] = 0; o.0[11] = 0;
        for i in 0..fields { o.0[32 + 32 * i] = b'a' + i as u8; o.0[33 + 32 * i] = 0; if wide > 0 { let w = o.0[48 + 32 * i]; assume(w <= wide); } }
    }
    let b = &o.0;
    let r = DbfReader::new(Src::new(b, chunk), ascii());
    if n < 32 { check(r.is_err(), 1); reach(2); return; }
    if split((b[2] > 12) | (b[3] > 31)) { check(r.is_err(), 2); reach(2); return; }
    let head = le16(b, 8);
    if split((head < 32) | (head > n as u64)) { check(r.is_err(), 3); reach(2); return; }
    let head = conc(head) as usize;
    let nf = (head - 32) / 32;
    let mut len = vec![]; let mut code = vec![];
    for i in 0..nf {
        let d = &b[32 + 32 * i..64 + 32 * i];
        for k in 0..11 { if split(d[k] == 0) { break; } if split(d[k] >= 128) { check(r.is_err(), 4); reach(3); return; } }
        len.push(d[16] as u64); code.push(d[11]);
    }
    check(r.is_ok(), 5);
    let mut r = r.unwrap();
    check(r.meta.fields.len() == nf, 6);
    let row = le16(b, 10);
    let count = le16(b, 4) | le16(b, 6) << 16;
    let mut at = head as u64;
    for k in 0..rows {
        let x = r.next();
        if !split(k < count) { check(x.is_none(), 7); reach(4); break; }
        check(x.is_some(), 8);
        let x = x.unwrap();
        if split(at + row > n as u64) { check(x.is_err(), 9); reach(5); break; }
        check(x.is_ok(), 10);
        let x = x.unwrap();
        let row = conc(row);
        check(x.bytes.len() as u64 == row, 11);
        check(eq(&x.bytes, &b[at as usize..(at + row) as usize]), 12);
        at += row;
        let mut off = 1;
        for i in 0..nf {
            let s = r.meta.fields[i].read_string(&x);
            if split(off + len[i] > row) { check(s.is_err(), 13); reach(6); }
            else if split((code[i] == b'C') | (code[i] == b'N')) { reach(7); }
            else if split((code[i] == b'+') | (code[i] == b'|')) { if split(len[i] < 4) { check(s.is_err(), 14); } else { check(s.is_ok(), 15); } reach(8); }
            else { check(s.is_err(), 16); reach(9); }
            off += len[i];
        }
        if print { let mut s = Sink(0); let _ = write!(s, "{}", x); check(s.0 > 0, 17); }
    }
    reach(1);
    obs(nf as u64); obs(at);
}
/// A good file that ends early or fails to read at any byte.
/// params: fields, records, 1: fails instead of ending, bytes per read
#[no_mangle] pub extern "C" fn h_cut() {
    let (nf, n, fails, chunk) = (param(0) as usize, param(1) as usize, param(2) == 1, param(3) as usize);
    let mut o = Bytes::new();
    let row = 1 + 2 * nf;
    header(&mut o, n as u32, (33 + 32 * nf) as u16, row as u16);
    for i in 0..nf { descriptor(&mut o, &Field { name: vec![b'a' + i as u8], code: b'C', len: 2 }); }
    o.u8(13);
    let start = o.0.len();
    o.any(n * row);
    let total = o.0.len();
    let cut = pick(total as u64) as usize;
    let mut s = Src::new(if fails { &o.0 } else { &o.0[..cut] }, chunk);
    if fails { s.fail_at = cut; }
    obs(cut as u64);
    let r = DbfReader::new(s, ascii());
    if cut < start { check(r.is_err(), 1); reach(1); return; }
    check(r.is_ok(), 2);
    let mut r = r.unwrap();
    for k in 0..n {
        let (a, b) = (start + k * row, start + (k + 1) * row);
        let x = r.next();
        if b > cut { check(matches!(x, Some(Err(_))), 3); reach(2); break; }
        match x { Some(Ok(x)) => check(eq(&x.bytes, &o.0[a..b]), 4), _ => check(false, 5) }
        reach(3);
    }
}
fn one(code: u8, bytes: &[u8], enc: EncodingRef) -> Result<String, DbfError> {
    let n = bytes.len();
    let mut o = Bytes::new();
    header(&mut o, 1, 65, (3 + n) as u16);
    // the field lies between two others
    let c = |c: u8, len: usize| Field { name: vec![b'f'], code: c, len: len as u8 };
    let mut h = vec![];
    descriptor(&mut o, &c(code, n));
    o.u8(13).u8(32);
    h.extend_from_slice(bytes);
    o.0.extend_from_slice(&h);
    o.u8(b'x').u8(b'y');
    let mut r = DbfReader::new(Src::new(&o.0, 0), enc).unwrap();
    let x = r.next().unwrap().unwrap();
    let f = r.get_field("f").unwrap();
    f.read_string(&x)
}
const C1252: [u32; 32] = [0x20ac, 0x81, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0x8d, 0x17d, 0x8f, 0x90, 0x2018, 0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0x9d, 0x17e, 0x178];
/// params: width, encoding (0 ASCII, 1 UTF-8, 2 windows-1252)
#[no_mangle] pub extern "C" fn h_text() {
    let (n, e) = (param(0) as usize, param(1));
    let b: Vec<u8> = (0..n).map(|_| any_u8()).collect();
    let got = one(b'C', &b, match e { 0 => ascii(), 1 => encoding::all::UTF_8, _ => encoding::all::WINDOWS_1252 });
    let mut m = n;
    while m > 0 && split(b[m - 1] == 32) { m -= 1; }
    let t = &b[..m];
    let want: Option<Vec<u8>> = match e {
        0 => if t.iter().all(|&c| split(c < 128)) { Some(t.to_vec()) } else { None },
        1 => if std::str::from_utf8(t).is_ok() { Some(t.to_vec()) } else { None },
        _ => { let mut s = String::new(); for &c in t { let c = if split(c < 128) || split(c >= 160) { c as u32 } else { let k = conc(c as u64) as usize - 128; C1252[k] }; s.push(unsafe { char::from_u32_unchecked(c) }); } Some(s.into_bytes()) }
    };
    match want { Some(w) => { check(got.is_ok(), 1); check(eq(text(&got.unwrap()), &w), 2); reach(1); if m < n { reach(2); } } None => { check(got.is_err(), 3); reach(3); } }
    obs(m as u64);
}
/// params: width
#[no_mangle] pub extern "C" fn h_number() {
    let n = param(0) as usize;
    let b: Vec<u8> = (0..n).map(|_| any_u8()).collect();
    let got = one(b'N', &b, ascii());
    let digit = |i: usize| i < n && split((b[i] >= b'0') & (b[i] <= b'9'));
    let mut i = 0;
    while i < n && split(b[i] == 32) { i += 1; }
    let from = i;
    if i < n && split(b[i] == b'-') { i += 1; }
    let d = i;
    while digit(i) { i += 1; }
    let mut ok = i > d;
    if ok && i < n && split(b[i] == b'.') { let f = i + 1; i = f; while digit(i) { i += 1; } ok = i > f; }
    ok = ok && i == n;
    if ok { check(got.is_ok(), 1); check(eq(text(&got.unwrap()), &b[from..]), 2); reach(1); } else { check(got.is_err(), 3); reach(2); }
    obs(from as u64);
}
/// params: width of the field, bits of the value, bits to shift it by, 1: complemented, 2: against the standard library's text
#[no_mangle] pub extern "C" fn h_long() {
    let (n, w, sh) = (param(0) as usize, param(1) as u32, param(2) as u32);
    let v = ((bits(w) << sh) as u32) ^ (if param(3) == 1 { u32::MAX } else { 0 });
    let mut b = v.to_le_bytes().to_vec();
    while b.len() < n { b.push(any_u8()); }
    let code = if pick(2) == 1 { b'+' } else { b'|' };
    let got = one(code, &b[..n], ascii());
    if n < 4 { check(got.is_err(), 1); reach(1); return; }
    check(got.is_ok(), 2);
    let s = got.unwrap(); let s = s.as_bytes();
    check(s.len() > 0 && s.len() <= 10, 3);
    if param(3) == 2 { check(eq(s, v.to_string().as_bytes()), 7); obs(s.len() as u64); reach(1); return; }
    let mut x = 0u64;
    for &c in s.iter() { check((c >= b'0') & (c <= b'9'), 4); x = x * 10 + (c - b'0') as u64; }
    check(x == v as u64, 5);
    check(s.len() == 1 || s[0] != b'0', 6);
    obs(s.len() as u64);
    reach(1);
}
