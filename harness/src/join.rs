//! C06 (joining the two files), C07 (grid coordinates), C08 (outer and inner rings).
use crate::src::*;
use crate::sym::*;
use crate::tu::*;
use topogeo::geo::{Point, Region, Ring};
use topogeo::read::shapefile::dbf::DbfRecord;
use topogeo::read::shapefile::shapefile::*;
use topogeo::read::shapefile::geo::ShapefileGeoIterator;

type P = (u64, u64);
struct Rec { kind: u32, rings: Vec<Vec<P>> }
fn shp(bbox: &[u64; 4], recs: &[Rec]) -> Bytes {
    let size = |r: &Rec| 44 + r.rings.iter().map(|g| 4 + 16 * g.len()).sum::<usize>();
    let total = 100 + recs.iter().map(|r| 8 + size(r)).sum::<usize>();
    let mut o = Bytes::new();
    o.be32(9994).be32(0).be32(0).be32(0).be32(0).be32(0).be32((total / 2) as u32).le32(1000).le32(5);
    for b in bbox.iter() { o.le64(*b); }
    for _ in 0..32 { o.u8(0); }
    for r in recs.iter() {
        o.be32(7).be32((size(r) / 2) as u32).le32(r.kind);
        for _ in 0..32 { o.u8(0); }
        o.le32(r.rings.len() as u32).le32(r.rings.iter().map(|g| g.len()).sum::<usize>() as u32);
        let mut n = 0;
        for g in r.rings.iter() { o.le32(n); n += g.len() as u32; }
        for g in r.rings.iter() { for p in g.iter() { o.le64(p.0).le64(p.1); } }
    }
    o
}
fn dbf(rows: &[[u8; 3]]) -> Bytes {
    let mut o = Bytes::new();
    o.u8(3).u8(100).u8(6).u8(15).le32(rows.len() as u32).le16(65).le16(3);
    for _ in 0..20 { o.u8(0); }
    o.u8(b'f'); for _ in 0..10 { o.u8(0); } o.u8(b'C').le32(0).u8(2); for _ in 0..15 { o.u8(0); }
    o.u8(13);
    for r in rows { for b in r.iter() { o.u8(*b); } }
    o
}
fn same_row(d: &DbfRecord, want: &[u8; 3]) -> bool { d.bytes.len() == 3 && (d.bytes[0] == want[0]) & (d.bytes[1] == want[1]) & (d.bytes[2] == want[2]) }
/// What either file gives as its n-th item: 0 nothing, 1 an error, 2 a record.
fn side(items: &[u8], i: usize) -> u8 { if i < items.len() { items[i] } else { 0 } }
/// params: shapes at most, rows at most, 1: through the region iterator
#[no_mangle] pub extern "C" fn h_join() {
    let (ns, nd, geo) = (param(0), param(1), param(2) == 1);
    let n = pick(ns + 1) as usize; let m = pick(nd + 1) as usize;
    // a ring of each record is told from the others by a coordinate
    let mark: Vec<u64> = (0..n).map(|_| if geo { 0 } else { bits(64) }).collect();
    let bad: Vec<bool> = (0..n).map(|_| pick(2) == 1).collect();
    let z = 0u64; let one = 1f64.to_bits();
    let recs: Vec<Rec> = (0..n).map(|i| Rec { kind: if bad[i] { 3 } else { 5 }, rings: vec![{ let mut v = vec![(z, z), (one, one), (one, mark[i])]; for _ in 0..i { v.push((one, mark[i])); } v.push((z, z)); v }] }).collect();
    let mut s = shp(&[z, z, one, one], &recs);
    let rows: Vec<[u8; 3]> = (0..m).map(|_| [any_u8(), any_u8(), any_u8()]).collect();
    let mut d = dbf(&rows);
    // either stream may be cut or fail inside any record
    let cut_s = pick(n as u64 + 1) as usize; let cut_d = pick(m as u64 + 1) as usize;
    let mut left: Vec<u8> = bad.iter().map(|&b| if b { 1 } else { 2 }).collect();
    if cut_s < n { let mut at = 100; for r in recs[..cut_s].iter() { at += 8 + 44 + 4 + 16 * r.rings[0].len(); } s.0.truncate(at + 11); left.truncate(cut_s); left.push(1); }
    let mut right = vec![2; m];
    if cut_d < m { d.0.truncate(65 + 3 * cut_d + 1); for k in cut_d..m { right[k] = 1; } }
    let head = pick(3);
    if head == 1 { s.0[3] = 0; }
    if head == 2 { d.0[2] = 13; }
    let r = ShapefileReader::new(Src::new(&s.0, 0), Src::new(&d.0, 0), encoding::all::ASCII);
    obs(n as u64); obs(m as u64);
    if head > 0 { check(r.is_err(), 1); reach(2); return; }
    check(r.is_ok(), 2);
    let mut r = r.unwrap();
    let mut g = None;
    let r: &mut ShapefileReader<Src, Src> = &mut r;
    let mut direct = None;
    if geo { g = Some(ShapefileGeoIterator::new(r)); } else { direct = Some(r); }
    let most = if n > m { n } else { m };
    for i in 0..most + 2 {
        // 0: end, 1: error, 2: record
        let mut got = 0; let mut len = 0; let mut mk = 0; let mut row_ok = false; let row = if i < m { rows[i] } else { [0; 3] };
        if let Some(ref mut g) = g {
            match g.next() { None => {}, Some(Err(_)) => got = 1, Some(Ok(x)) => { got = 2; let x: Region<DbfRecord> = x; row_ok = same_row(&x.data, &row); check(x.outer_rings.len() + x.inner_rings.len() == 1, 8); let q = if x.outer_rings.len() > 0 { &x.outer_rings[0] } else { &x.inner_rings[0] }; match q { &Ring::Points(ref p) => len = p.len(), &Ring::Edges(_) => check(false, 9) } } }
        } else if let Some(ref mut r) = direct {
            match r.next() { None => {}, Some(Err(_)) => got = 1, Some(Ok(x)) => { got = 2; row_ok = same_row(&x.data, &row); check(x.rings.len() == 1, 8); len = x.rings[0].0.len(); mk = x.rings[0].0[2].1.to_bits(); } }
        }
        let (a, b) = (side(&left, i), side(&right, i));
        let want = if a == 0 && b == 0 { 0 } else if a == 2 && b == 2 { 2 } else { 1 };
        check(got == want, 3);
        if got == 2 {
            check(row_ok, 4);
            check(len == 4 + i, 5);
            if !geo { check(mk == mark[i], 6); }
            reach(3);
        }
        if want == 0 { reach(4); }
        if want == 1 { reach(5); }
    }
    reach(1);
}
fn all(bbox: &[u64; 4], recs: Vec<Vec<Vec<P>>>) -> Vec<Region<DbfRecord>> {
    let rows: Vec<[u8; 3]> = recs.iter().map(|_| [32, 65, 66]).collect();
    let recs: Vec<Rec> = recs.into_iter().map(|rings| Rec { kind: 5, rings }).collect();
    let (s, d) = (shp(bbox, &recs), dbf(&rows));
    let mut r = ShapefileReader::new(Src::new(&s.0, 0), Src::new(&d.0, 0), encoding::all::ASCII).unwrap();
    let mut v = vec![];
    for x in ShapefileGeoIterator::new(&mut r) { v.push(x.unwrap()); }
    check(v.len() == recs.len(), 90);
    v
}
fn pts(r: &Ring) -> Vec<Point> { match r { &Ring::Points(ref p) => p.to_vec(), &Ring::Edges(_) => { check(false, 91); vec![] } } }
/// Where points go: each is converted as a record of its own.
fn grid(bbox: &[u64; 4], p: &[P]) -> Vec<Point> {
    let mut out = vec![];
    for r in all(bbox, p.iter().map(|p| vec![vec![*p; 4]]).collect()) {
        check(r.outer_rings.len() == 1 && r.inner_rings.len() == 0, 92);
        let q = pts(&r.outer_rings[0]);
        check(q.len() == 4 && peq(q[0], q[1]) & peq(q[0], q[2]) & peq(q[0], q[3]), 93);
        out.push(q[0]);
    }
    out
}
/// A finite double far from overflow.
fn double() -> u64 { let b = bits(64); assume(((b >> 52) & 0x7ff) < 0x7d0); b }
fn f(b: u64) -> f64 { f64::from_bits(b) }
/// The corners of any box.  params: 0: x only, 1: y only
#[no_mangle] pub extern "C" fn h_edges() {
    let y = param(0) == 1;
    let (a, b) = (double(), double());
    assume(f(a) < f(b));
    let (z, one) = (0f64.to_bits(), 1f64.to_bits());
    let (bbox, lo, hi) = if y { ([z, a, one, b], (z, a), (z, b)) } else { ([a, z, b, one], (a, one), (b, one)) };
    let g = grid(&bbox, &[lo, hi]);
    let (l, h) = if y { (g[1].1, g[0].1) } else { (g[0].0, g[1].0) };
    check(l == 0, 1);
    check(h == u32::MAX, 2);
    obs(l as u64); obs(h as u64);
    reach(1);
}
fn int(w: u32, base: i64, unit: f64) -> (i64, u64) { let k = bits(w) as i64; (k, ((k + base) as f64 * unit).to_bits()) }
/// Order and proportion.  params: bits, axis (1: y), what (0 order, 1 proportion), exponent of the unit + 100, offset + 1000
#[no_mangle] pub extern "C" fn h_scale() {
    let (w, y, what) = (param(0) as u32, param(1) == 1, param(2));
    let unit = f64::from_bits((923 + param(3)) << 52); let base = param(4) as i64 - 1000;
    let (a, b, p) = (int(w, base, unit), int(w, base, unit), int(w, base, unit));
    assume(a.0 < b.0); assume(a.0 <= p.0); assume(p.0 <= b.0);
    let (z, one) = (0f64.to_bits(), 1f64.to_bits());
    let bbox = if y { [z, a.1, one, b.1] } else { [a.1, z, b.1, one] };
    let at = |v: u64| if y { (z, v) } else { (v, one) };
    if what == 0 {
        let q = int(w, base, unit);
        assume(p.0 <= q.0); assume(q.0 <= b.0);
        let g = grid(&bbox, &[at(p.1), at(q.1)]);
        check(if y { g[0].1 >= g[1].1 } else { g[0].0 <= g[1].0 }, 1);
        obs(g[0].0 as u64);
    } else {
        let g = grid(&bbox, &[at(p.1)]);
        let (u, d) = if y { (g[0].1, b.0 - p.0) } else { (g[0].0, p.0 - a.0) };
        let e = u as i64 * (b.0 - a.0) - d * u32::MAX as i64;
        let lim = 2 * (b.0 - a.0);
        check((e < lim) & (e > -lim), 2);
        obs(u as u64);
    }
    reach(1);
}
/// Order, any doubles.  params: axis
#[no_mangle] pub extern "C" fn h_order() {
    let y = param(0) == 1;
    let (a, b, p, q) = (double(), double(), double(), double());
    assume(f(a) < f(b)); assume(f(a) <= f(p)); assume(f(p) <= f(q)); assume(f(q) <= f(b));
    let (z, one) = (0f64.to_bits(), 1f64.to_bits());
    let bbox = if y { [z, a, one, b] } else { [a, z, b, one] };
    let at = |v: u64| if y { (z, v) } else { (v, one) };
    let g = grid(&bbox, &[at(p), at(q)]);
    check(if y { g[0].1 >= g[1].1 } else { g[0].0 <= g[1].0 }, 1);
    reach(1);
    obs(0);
}
const T: [[i64; 8]; 4] = [
    [-360 << 20, -180 << 20, -90 << 20, -1, 0, 77 << 20, 180 << 20, 5_000_001 << 20],
    [0, 1, 2, 3, 5, 6, 7, 1000],
    [-90 << 20, -5 << 18, 0, 1 << 19, 3 << 19, (45 << 20) + 333, 90 << 20, 180 << 20],
    [5_932_000 << 20, (5_932_001 << 20) - 7, (5_932_017 << 20) + 1, 5_933_333 << 20, 5_940_000 << 20, (5_950_000 << 20) + 9, (5_961_111 << 20) + 1, 6_000_000 << 20]];
/// One of the values lo..hi of a table: as multiple of 2^-20, and as bits.
fn of(t: &[i64; 8], lo: usize, hi: usize) -> (i64, u64) {
    let i = bits(if hi - lo > 2 { 3 } else { 1 });
    let mut k = t[lo]; let mut b = (t[lo] as f64 / 1048576.0).to_bits();
    for j in lo + 1..hi { if_eq(i, (j - lo) as u64, &mut k, t[j], &mut b, (t[j] as f64 / 1048576.0).to_bits()); }
    (k, b)
}
fn if_eq(i: u64, j: u64, k: &mut i64, k1: i64, b: &mut u64, b1: u64) { let c = i == j; *k = std::hint::select_unpredictable(c, k1, *k); *b = std::hint::select_unpredictable(c, b1, *b); }
/// Order and proportion for coordinates as they are in files.  params: axis, table
#[no_mangle] pub extern "C" fn h_table() {
    let y = param(0) == 1; let t = &T[param(1) as usize];
    let (a, b, p, q) = (of(t, 0, 2), of(t, 6, 8), of(t, 0, 8), of(t, 0, 8));
    assume((a.0 < b.0) & (a.0 <= p.0) & (p.0 <= q.0) & (q.0 <= b.0));
    let (z, one) = (0f64.to_bits(), 1f64.to_bits());
    let bbox = if y { [z, a.1, one, b.1] } else { [a.1, z, b.1, one] };
    let at = |v: u64| if y { (z, v) } else { (v, one) };
    let g = grid(&bbox, &[at(p.1), at(q.1)]);
    check(if y { g[0].1 >= g[1].1 } else { g[0].0 <= g[1].0 }, 1);
    let (u, d) = if y { (g[0].1, b.0 - p.0) } else { (g[0].0, p.0 - a.0) };
    let e = u as i128 * (b.0 - a.0) as i128 - d as i128 * u32::MAX as i128;
    let lim = 2 * (b.0 - a.0) as i128;
    check((e < lim) & (e > -lim), 2);
    obs(u as u64);
    reach(1);
}
/// Each coordinate is converted on its own, whatever the other and the ring it is in; any doubles.
#[no_mangle] pub extern "C" fn h_axes() {
    let v: Vec<u64> = (0..8).map(|_| bits(64)).collect();
    let g = grid(&[v[0], v[1], v[2], v[3]], &[(v[4], v[5]), (v[4], v[6]), (v[7], v[5])]);
    check(g[0].0 == g[1].0, 1);
    check(g[0].1 == g[2].1, 2);
    reach(1);
    obs(0);
}
/// params: rings of the record (points of each: 4, 5, ...), 0: any doubles, 1: a few of them
#[no_mangle] pub extern "C" fn h_rings() {
    let (n, few) = (param(0) as usize, param(1) == 1);
    let bbox = if few { [0f64.to_bits(), 0f64.to_bits(), 9f64.to_bits(), 9f64.to_bits()] } else { [bits(64), bits(64), bits(64), bits(64)] };
    let c = || if few { let (a, b) = (bits(1), bits(1)); let mut v = 0u64; let mut k = 0i64; for j in 1..4 { if_eq(a * 2 + b, j, &mut k, 0, &mut v, (j as f64 * 3.0).to_bits()); } v } else { bits(64) };
    let mut rings: Vec<Vec<P>> = vec![];
    for k in 0..n { let l = 3 + k; let mut v: Vec<P> = (0..l).map(|_| (c(), c())).collect(); let f = v[0]; v.push(f); rings.push(v); }
    let q: Vec<Vec<Point>> = rings.iter().map(|r| grid(&bbox, r)).collect();
    let r = all(&bbox, vec![rings.clone()]);
    let (mut o, mut i) = (0, 0);
    for k in 0..n {
        let got = if split(shoelace(&q[k]) >= 0) { o += 1; check(r[0].outer_rings.len() >= o, 1); pts(&r[0].outer_rings[o - 1]) } else { i += 1; check(r[0].inner_rings.len() >= i, 2); pts(&r[0].inner_rings[i - 1]) };
        check(same_points(&got, &q[k]), 3);
    }
    check(r[0].outer_rings.len() == o && r[0].inner_rings.len() == i, 4);
    check(same_row(&r[0].data, &[32, 65, 66]), 5);
    obs(o as u64); obs(i as u64);
    reach(1);
    if o > 0 { reach(2); }
    if i > 0 { reach(3); }
}
