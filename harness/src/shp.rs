//! C01 (well-formed .shp streams) and C02 (everything else).
use crate::src::*;
use crate::sym::*;
use topogeo::read::shapefile::shp::*;

pub struct Rec { pub number: u32, pub rings: Vec<Vec<(u64, u64)>> }
pub fn header(o: &mut Bytes, words: u32, bbox: &[u64; 4]) {
    o.be32(9994).any(20).be32(words).le32(1000).le32(5);
    for b in bbox.iter() { o.le64(*b); }
    o.any(32);
}
/// Bytes of a record, header included.
pub fn size(r: &Rec) -> usize { 8 + 44 + r.rings.iter().map(|g| 4 + 16 * g.len()).sum::<usize>() }
pub fn record(o: &mut Bytes, r: &Rec) {
    o.be32(r.number).be32(((size(r) - 8) / 2) as u32).le32(5).any(32);
    o.le32(r.rings.len() as u32).le32(r.rings.iter().map(|g| g.len()).sum::<usize>() as u32);
    let mut n = 0;
    for g in r.rings.iter() { o.le32(n); n += g.len() as u32; }
    for g in r.rings.iter() { for p in g.iter() { o.le64(p.0).le64(p.1); } }
}
pub fn same(got: &ShpPolygonRecord, want: &Rec, id: u32) {
    check(got.record_number == want.number, id);
    check(got.rings.len() == want.rings.len(), id + 1);
    for (g, w) in got.rings.iter().zip(want.rings.iter()) {
        check(g.0.len() == w.len(), id + 2);
        for (p, q) in g.0.iter().zip(w.iter()) { check(p.0.to_bits() == q.0 && p.1.to_bits() == q.1, id + 3); }
    }
}
/// params: records at most, rings per record at most, points per ring at most, bytes per read (0: all)
#[no_mangle] pub extern "C" fn h_good() {
    let (nrec, nring, npt, chunk) = (param(0), param(1), param(2), param(3) as usize);
    let n = pick(nrec + 1) as usize;
    let mut recs = vec![];
    for _ in 0..n {
        let k = 1 + pick(nring) as usize;
        let mut rings = vec![];
        for _ in 0..k { let m = 4 + pick(npt - 3) as usize; rings.push((0..m).map(|_| (bits(64), bits(64))).collect()); }
        recs.push(Rec { number: any_u32(), rings });
    }
    let total = 100 + recs.iter().map(size).sum::<usize>();
    let bbox = [bits(64), bits(64), bits(64), bits(64)];
    let mut o = Bytes::new();
    header(&mut o, (total / 2) as u32, &bbox);
    for r in recs.iter() { record(&mut o, r); }
    // what follows the announced end is not part of the file
    let extra = pick(2) as usize * 9;
    o.any(extra);
    let r = ShpReader::new(Src::new(&o.0, chunk));
    check(r.is_ok(), 1);
    let mut r = r.unwrap();
    check(r.header.file_n_bytes == total, 2);
    let b = r.header.bounding_box;
    check(b.0.to_bits() == bbox[0] && b.1.to_bits() == bbox[1] && b.2.to_bits() == bbox[2] && b.3.to_bits() == bbox[3], 3);
    for w in recs.iter() {
        match r.next() { Some(Ok(g)) => same(&g, w, 10), _ => check(false, 4) }
    }
    check(r.next().is_none(), 5);
    check(r.next().is_none(), 6);
    obs(n as u64); obs(total as u64);
    reach(1);
    if n == nrec as usize { reach(2); }
}
fn le32(b: &[u8], i: usize) -> u32 { u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) }
fn be32(b: &[u8], i: usize) -> u32 { u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) }
/// What a record at the given place holds: None if it is not a valid one.
fn parse(b: &[u8]) -> Option<Vec<(usize, usize)>> {
    if b.len() < 44 { return None; }
    if !split(le32(b, 0) == 5) { return None; }
    let (p, q) = (le32(b, 36) as u64, le32(b, 40) as u64);
    if !split(p > 0 && 44 + 4 * p + 16 * q == b.len() as u64) { return None; }
    let (p, q) = (conc(p) as usize, conc(q) as usize);
    let mut v = vec![];
    for i in 0..p {
        let s = le32(b, 44 + 4 * i) as u64;
        let e = if i + 1 < p { le32(b, 48 + 4 * i) as u64 } else { q as u64 };
        if !split(s + 4 <= e && e <= q as u64) { return None; }
        v.push((conc(s) as usize, conc(e) as usize));
    }
    Some(v)
}
/// Any bytes after (or in) the header.
/// params: bytes in all, 1: any header bytes too, items to read, bytes per read, least and greatest size of the first record (0: any)
#[no_mangle] pub extern "C" fn h_any() {
    let (n, all, items, chunk) = (param(0) as usize, param(1) == 1, param(2), param(3) as usize);
    let mut o = Bytes::new();
    let words = any_u32();
    if all { o.any(n); } else { header(&mut o, words, &[bits(64), bits(64), bits(64), bits(64)]); o.any(n - 100); }
    let b = &o.0;
    let r = ShpReader::new(Src::new(b, chunk));
    let good = n >= 100 && split(be32(b, 0) == 9994 && le32(b, 28) == 1000 && le32(b, 32) == 5);
    check(r.is_ok() == good, 1);
    if !good { reach(2); obs(0); return; }
    let mut r = r.unwrap();
    let end = be32(b, 24) as u64 * 2;
    check(r.header.file_n_bytes as u64 == end, 2);
    let mut at = 100usize;
    for _ in 0..items {
        let got = r.next();
        if !split((at as u64) < end) { check(got.is_none(), 3); reach(3); break; }
        check(got.is_some(), 4);
        let got = got.unwrap();
        if at + 8 > n { check(got.is_err(), 5); check(r.next().is_none(), 6); reach(4); break; }
        let len = be32(b, at + 4) as u64 * 2;
        if split(len > (n - at - 8) as u64) { check(got.is_err(), 7); check(r.next().is_none(), 8); reach(5); break; }
        let len = conc(len) as usize;
        let fits = split((at + 8 + len) as u64 <= end);
        let want = if fits { parse(&b[at + 8..at + 8 + len]) } else { None };
        match want {
            None => { check(got.is_err(), 9); reach(6); if !fits { check(r.next().is_none(), 10); break; } }
            Some(v) => {
                check(got.is_ok(), 11);
                let g = got.unwrap();
                check(g.record_number == be32(b, at), 12);
                check(g.rings.len() == v.len(), 13);
                let first = at + 8 + 44 + 4 * v.len();
                for (k, &(s, e)) in v.iter().enumerate() {
                    check(g.rings[k].0.len() == e - s, 14);
                    for i in s..e {
                        let p = &g.rings[k].0[i - s];
                        let mut w = [0u8; 16]; w.copy_from_slice(&b[first + 16 * i..first + 16 * i + 16]);
                        let w = u128::from_le_bytes(w);
                        check(p.0.to_bits() == w as u64 && p.1.to_bits() == (w >> 64) as u64, 15);
                    }
                }
                reach(7);
            }
        }
        at += 8 + len;
    }
    obs(at as u64);
    reach(1);
}
/// A good file that ends early or fails to read at any byte.
/// params: records, 1: fails instead of ending, bytes per read
#[no_mangle] pub extern "C" fn h_cut() {
    let (nrec, fails, chunk) = (param(0) as usize, param(1) == 1, param(2) as usize);
    let recs: Vec<Rec> = (0..nrec).map(|k| Rec { number: any_u32(), rings: (0..1 + k % 2).map(|_| (0..4 + k).map(|_| (bits(64), bits(64))).collect()).collect() }).collect();
    let total = 100 + recs.iter().map(size).sum::<usize>();
    let mut o = Bytes::new();
    header(&mut o, (total / 2) as u32, &[bits(64), bits(64), bits(64), bits(64)]);
    for r in recs.iter() { record(&mut o, r); }
    let cut = pick(total as u64) as usize;
    let mut s = Src::new(if fails { &o.0 } else { &o.0[..cut] }, chunk);
    if fails { s.fail_at = cut; }
    obs(cut as u64);
    let r = ShpReader::new(s);
    if cut < 100 { check(r.is_err(), 1); reach(1); return; }
    check(r.is_ok(), 2);
    let mut r = r.unwrap();
    let mut at = 100;
    for w in recs.iter() {
        at += size(w);
        let g = r.next();
        if at > cut { check(matches!(g, Some(Err(_))), 3); reach(2); break; }
        match g { Some(Ok(g)) => same(&g, w, 10), _ => check(false, 4) }
        reach(3);
    }
    check(r.next().is_none(), 5);
}
