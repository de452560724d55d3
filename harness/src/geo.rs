//! C09 (area and winding order), C10 (points and edges).
use crate::sym::*;
use topogeo::geo::*;

pub fn pts(n: usize, w: u32) -> Vec<Point> {
    let mut v = Vec::with_capacity(n + 1);
    for _ in 0..n { v.push(Point(bits(w) as u32, bits(w) as u32)); }
    v
}
/// n arbitrary w-bit points, closed.
fn ring(n: usize, w: u32) -> Vec<Point> {
    let mut v = pts(n, w);
    let f = v[0];
    v.push(f);
    v
}
/// The specification: the shoelace sum over i128.
pub fn shoelace(p: &[Point]) -> i128 {
    let mut a = 0i128;
    for i in 0..p.len() - 1 {
        a += (p[i].0 as i128) * (p[i + 1].1 as i128) - (p[i + 1].0 as i128) * (p[i].1 as i128);
    }
    a
}
/// Splits a closed ring into k edges of consecutive points; the cuts are case-split.
fn split_edges(p: &[Point], k: usize) -> Vec<Edge> {
    let m = p.len() - 1; // segments
    let mut out = vec![];
    let mut at = 0;
    for i in 0..k {
        let left = m - at - (k - 1 - i); // at most this many segments now
        let n = if i == k - 1 { m - at } else { 1 + pick(left as u64) as usize };
        out.push(Edge(p[at..at + n + 1].to_vec().into_boxed_slice()));
        at += n;
    }
    out
}
fn cw(o: WindingOrder) -> bool { o == WindingOrder::Clockwise }

/// params: points, bits, edges
#[no_mangle] pub extern "C" fn h_area() {
    let n = param(0) as usize; let w = param(1) as u32; let k = param(2) as usize;
    let p = ring(n, w);
    let s = shoelace(&p);
    let abs = |a: i128| (a == s) | (a == -s);
    check(signed_area2(p.iter()) as i128 == s, 1);
    let (a, o) = area2_and_winding_order(p.iter());
    check(abs(a as i128) & (a as i128 >= 0), 2);
    check(cw(o) == (s >= 0), 3);
    check(area2(p.iter()) == a, 4);
    check(winding_order(p.iter()) == o, 5);
    // as a ring of points
    let r = Ring::Points(p.clone().into_boxed_slice());
    let (ra, ro) = r.area2_and_winding_order();
    check((ra as i128 == a as i128) & (ro == o), 6);
    check((r.area2() as i128 == a as i128) & (r.winding_order() == o), 7);
    // as a ring of edges
    let e = Ring::Edges(split_edges(&p, k).into_boxed_slice());
    let (ea, eo) = e.area2_and_winding_order();
    check((ea as i128 == a as i128) & (eo == o), 8);
    check((e.area2() as i128 == a as i128) & (e.winding_order() == o), 9);
    obs(a as u64); obs(cw(o) as u64);
    reach(1);
}
/// params: points, bits
#[no_mangle] pub extern "C" fn h_area_sym() {
    let n = param(0) as usize; let w = param(1) as u32;
    let p = ring(n, w);
    let (a, o) = area2_and_winding_order(p.iter());
    // another starting point
    let j = 1 + pick(n as u64 - 1) as usize;
    let mut q: Vec<Point> = p[j..n].to_vec();
    q.extend_from_slice(&p[..j + 1]);
    let (b, u) = area2_and_winding_order(q.iter());
    check((b == a) & (u == o), 1);
    // backwards
    let mut q = p.clone();
    q.reverse();
    let (b, u) = area2_and_winding_order(q.iter());
    check((b == a) & ((u != o) | ((a as i128 == 0) & cw(u))), 2);
    obs(a as u64);
    reach(1);
}
/// params: points, bits, edges.  Repeated points are allowed.
#[no_mangle] pub extern "C" fn h_views() {
    let n = param(0) as usize; let w = param(1) as u32; let k = param(2) as usize;
    let p = ring(n, w);
    let r = Ring::Points(p.clone().into_boxed_slice());
    let es = r.edges();
    check(es.len() == n, 1);
    for i in 0..es.len() {
        check(es[i].0.len() == 2, 2);
        check(es[i].0[0] == p[i] && es[i].0[1] == p[i + 1], 3);
    }
    let same = |x: &[Point]| { let mut ok = x.len() == p.len(); if ok { for i in 0..p.len() { ok &= x[i] == p[i]; } } ok };
    check(same(&r.points()), 4);
    let e = Ring::Edges(split_edges(&p, k).into_boxed_slice());
    check(same(&e.points()), 5);
    // edges() of a ring of edges is those edges
    let f = e.edges();
    if let Ring::Edges(ref g) = e {
        check(f.len() == g.len(), 6);
        for i in 0..f.len() {
            check(f[i].0.len() == g[i].0.len(), 7);
            for j in 0..f[i].0.len() { check(f[i].0[j] == g[i].0[j], 8); }
        }
    }
    // back and forth
    check(same(&Ring::Edges(r.edges()).points()), 9);
    let c = Ring::Points(e.points());
    let ce = c.edges();
    check(ce.len() == n, 10);
    for i in 0..ce.len() { check(ce[i].0.len() == 2 && ce[i].0[0] == p[i] && ce[i].0[1] == p[i + 1], 11); }
    obs(f.len() as u64);
    reach(1);
}
