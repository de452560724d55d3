//! C20 (what a simplified path keeps), C21 (Visvalingam's rule), C22 (structure).
use crate::sym::*;
use std::ptr;
use topogeo::geo::Point;
use topogeo::simplify;
use topogeo::topology::*;

fn pts(n: usize, w: u32, closed: bool) -> Vec<Point> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(Point(bits(w) as u32, bits(w) as u32)); }
    if closed { v[n - 1] = v[0]; }
    else { assume(v[n - 1] != v[0]); }
    v
}
fn edge<D>(p: &[Point]) -> TopoEdge<D> { TopoEdge { points: p.to_vec().into_boxed_slice(), rings: [ptr::null(); 2] } }
/// The real code, on one path.
fn simplified(p: &[Point], t: u64) -> Vec<Point> {
    let topo = Topology::<u8> { regions: vec![].into_boxed_slice(), edges: vec![edge(p)].into_boxed_slice() };
    simplify(topo, t).edges[0].points.to_vec()
}
fn eq(a: Point, b: Point) -> bool { (a.0 == b.0) & (a.1 == b.1) }
fn same(a: &[Point], b: &[Point]) -> bool {
    let mut ok = a.len() == b.len();
    if ok { for i in 0..a.len() { ok &= eq(a[i], b[i]); } }
    ok
}
/// Whether r is a subsequence of p, without branching on the points.
fn subsequence(r: &[Point], p: &[Point]) -> bool {
    // at[i]: r[..j] is a subsequence of p[..i]
    let mut at = vec![true; p.len() + 1];
    for j in 0..r.len() {
        let mut next = vec![false; p.len() + 1];
        for i in 0..p.len() { next[i + 1] = next[i] | (at[i] & eq(p[i], r[j])); }
        at = next;
    }
    at[p.len()]
}
/// Doubled triangle area: the specification.
fn tri(a: Point, b: Point, c: Point) -> u64 {
    let f = |u: u32| u as i128;
    let v = (f(b.0) - f(a.0)) * (f(c.1) - f(a.1)) - (f(c.0) - f(a.0)) * (f(b.1) - f(a.1));
    v.abs() as u64
}

/// The doubled area of a triangle fits 64 bits, so `tri` loses nothing.
/// params: bits
#[no_mangle] pub extern "C" fn h_tri() {
    let p = pts(3, param(0) as u32, false);
    let f = |u: u32| u as i128;
    let (a, b, c) = (p[0], p[1], p[2]);
    let v = (f(b.0) - f(a.0)) * (f(c.1) - f(a.1)) - (f(c.0) - f(a.0)) * (f(b.1) - f(a.1));
    let m = (1i128 << param(0)) - 1;
    check(v <= m * m, 1);
    check(v >= -m * m, 2);
    reach(1);
}
/// params: points, bits, closed
#[no_mangle] pub extern "C" fn h_keep() {
    let n = param(0) as usize; let w = param(1) as u32; let closed = param(2) == 1;
    let p = pts(n, w, closed);
    let t = bits(64);
    let r = simplified(&p, t);
    check(r.len() <= n && r.len() >= if n < 2 { n } else { 2 }, 1);
    check(eq(r[0], p[0]) & eq(r[r.len() - 1], p[n - 1]), 2);
    check(subsequence(&r, &p), 3);
    if closed {
        if n >= 4 { check(r.len() >= 4, 4); } else { check(r.len() == n, 5); }
    }
    if n <= 2 || (closed && n <= 4) { check(same(&r, &p), 6); }
    obs(r.len() as u64);
    reach(1);
    if r.len() < n { reach(2); }
}

struct Spec<'a> { p: &'a [Point], t: u64, r: &'a [Point], closed: bool, ok: bool, area: Vec<u64> }
impl<'a> Spec<'a> {
    fn new(p: &'a [Point], t: u64, r: &'a [Point], closed: bool) -> Spec<'a> {
        let n = p.len();
        let mut area = vec![0u64; n * n * n];
        for a in 0..n { for b in a + 1..n { for c in b + 1..n { area[(a * n + b) * n + c] = tri(p[a], p[b], p[c]); } } }
        Spec { p, t, r, closed, ok: false, area }
    }
    fn w(&self, rest: &[usize], i: usize) -> u64 { let n = self.p.len(); self.area[(rest[i - 1] * n + rest[i]) * n + rest[i + 1]] }
    /// rest: indices still there; cond: whether the rule may get here;
    /// eff: the weight each dropped point had; last: the largest so far
    fn go(&mut self, rest: &[usize], cond: bool, eff: &[u64], last: u64) {
        let m = rest.len();
        let mut done = cond;
        for i in 1..m - 1 { done &= self.w(rest, i) > self.t; }
        if self.closed && m < 4 && self.p.len() >= 4 {
            // a ring stays a ring: the two weightiest points stay
            let mut e = eff.to_vec();
            for i in 1..m - 1 { e[rest[i]] = self.w(rest, i); }
            if self.r.len() == 4 {
                let n = self.p.len();
                for i in 1..n - 1 { for j in i + 1..n - 1 {
                    let mut top = eq(self.r[1], self.p[i]) & eq(self.r[2], self.p[j]);
                    for k in 1..n - 1 { if k != i && k != j { top &= (e[k] <= e[i]) & (e[k] <= e[j]); } }
                    self.ok |= done & top;
                } }
            }
        } else if self.r.len() == m {
            let mut all = true;
            for i in 0..m { all &= eq(self.r[i], self.p[rest[i]]); }
            self.ok |= done & all;
        }
        for i in 1..m - 1 {
            let wi = self.w(rest, i);
            let mut c = cond & (wi <= self.t);
            for k in 1..m - 1 { if k != i { c &= wi <= self.w(rest, k); } }
            if cant(c) { continue; }
            let mut rest2 = rest.to_vec();
            rest2.remove(i);
            // in its place in the order of removal, a point weighs as much as any before it
            let lt = wi < last;
            let clamped = sel(lt, last, wi);
            let mut eff2 = eff.to_vec();
            eff2[rest[i]] = clamped;
            self.go(&rest2, c, &eff2, clamped);
        }
    }
}
/// params: points, bits, closed
#[no_mangle] pub extern "C" fn h_rule() {
    let n = param(0) as usize; let w = param(1) as u32; let closed = param(2) == 1;
    let p = pts(n, w, closed);
    let t = bits(64);
    let r = simplified(&p, t);
    let mut s = Spec::new(&p, t, &r, closed);
    let all: Vec<usize> = (0..n).collect();
    s.go(&all, true, &vec![0; n], 0);
    check(s.ok, 1);
    obs(r.len() as u64);
    reach(1);
    if r.len() < n { reach(2); }
}
/// What is left cannot be simplified further, whatever order was taken.
/// params: points, bits, closed
#[no_mangle] pub extern "C" fn h_fixpoint() {
    let n = param(0) as usize; let w = param(1) as u32; let closed = param(2) == 1;
    let p = pts(n, w, closed);
    let t = bits(64);
    let r = simplified(&p, t);
    if !closed || r.len() > 4 {
        for i in 1..r.len() - 1 { check(tri(r[i - 1], r[i], r[i + 1]) > t, 1); }
    }
    obs(r.len() as u64);
    reach(1);
    if r.len() < n { reach(2); }
}
/// Coordinates next to both ends of the range: one triangle, exact area.
/// params: bits
#[no_mangle] pub extern "C" fn h_weight() {
    let w = param(0) as u32;
    let far = |v: u32| { let top = any_bool(); sel(top, (u32::MAX - v) as u64, v as u64) as u32 };
    let mut p = vec![];
    for _ in 0..3 { let x = far(bits(w) as u32); let y = far(bits(w) as u32); p.push(Point(x, y)); }
    assume(!eq(p[0], p[2]));
    let t = bits(64);
    let r = simplified(&p, t);
    let f = |u: u32| u as i128;
    let v = (f(p[1].0) - f(p[0].0)) * (f(p[2].1) - f(p[0].1)) - (f(p[2].0) - f(p[0].0)) * (f(p[1].1) - f(p[0].1));
    let keep = (v > t as i128) | (-v > t as i128);
    check((r.len() == 3) == keep, 1);
    if r.len() == 3 { check(same(&r, &p), 2); reach(1); }
    else { check((r.len() == 2) & eq(r[0], p[0]) & eq(r[r.len() - 1], p[2]), 3); reach(2); }
    obs(r.len() as u64);
}

/// A map of three regions: nothing but the interior points of edges changes.
/// params: bits
#[no_mangle] pub extern "C" fn h_struct() {
    let w = param(0) as u32;
    let any = || Point(bits(w) as u32, bits(w) as u32);
    // a --e0-- b (shared), b --e1-- a, b --e2-- a, and an island e3
    let (a, b, c) = (any(), any(), any());
    assume(!eq(a, b));
    let ps: Vec<Vec<Point>> = vec![
        vec![a, any(), any(), b],
        vec![a, any(), b],
        vec![a, any(), b],
        vec![c, any(), any(), any(), c],
    ];
    let t = bits(64);
    let mut edges: Box<[TopoEdge<u32>]> = ps.iter().map(|p| edge(p)).collect::<Vec<_>>().into_boxed_slice();
    let e = |i: usize, d: Direction, edges: &Box<[TopoEdge<u32>]>| DirectedEdge { edge: &edges[i] as *const TopoEdge<u32>, direction: d };
    use Direction::*;
    let ring = |v: Vec<DirectedEdge<u32>>| TopoRing { directed_edges: v.into_boxed_slice(), region: ptr::null() };
    let data = [bits(32) as u32, bits(32) as u32, bits(32) as u32];
    let mut regions: Box<[TopoRegion<u32>]> = vec![
        TopoRegion { data: data[0], outer_rings: vec![ring(vec![e(0, Forward, &edges), e(1, Backward, &edges)])].into_boxed_slice(), inner_rings: vec![ring(vec![e(3, Backward, &edges)])].into_boxed_slice() },
        TopoRegion { data: data[1], outer_rings: vec![ring(vec![e(2, Forward, &edges), e(0, Backward, &edges)])].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() },
        TopoRegion { data: data[2], outer_rings: vec![ring(vec![e(3, Forward, &edges)])].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() },
    ].into_boxed_slice();
    for r in regions.iter_mut() {
        let p = r as *const TopoRegion<u32>;
        for g in r.outer_rings.iter_mut().chain(r.inner_rings.iter_mut()) { g.region = p; }
    }
    let r0 = &regions[0].outer_rings[0] as *const TopoRing<u32>;
    let r0i = &regions[0].inner_rings[0] as *const TopoRing<u32>;
    let r1 = &regions[1].outer_rings[0] as *const TopoRing<u32>;
    let r2 = &regions[2].outer_rings[0] as *const TopoRing<u32>;
    edges[0].rings = [r0, r1]; edges[1].rings = [r0, ptr::null()]; edges[2].rings = [r1, ptr::null()]; edges[3].rings = [r0i, r2];
    let ep: Vec<*const TopoEdge<u32>> = edges.iter().map(|e| e as *const _).collect();
    let got = simplify(Topology { regions, edges }, t);
    check(got.edges.len() == 4 && got.regions.len() == 3, 1);
    for i in 0..4 { check(&got.edges[i] as *const _ == ep[i], 2); }
    let want = [([0, 1].as_slice(), [Forward, Backward].as_slice()), (&[2, 0], &[Forward, Backward]), (&[3], &[Forward])];
    for i in 0..3 {
        let r = &got.regions[i];
        check(r.data == data[i], 3);
        check(r.outer_rings.len() == 1 && r.inner_rings.len() == (i == 0) as usize, 4);
        let g = &r.outer_rings[0];
        check(g.region == r as *const _ && g.directed_edges.len() == want[i].0.len(), 5);
        for (k, d) in g.directed_edges.iter().enumerate() { check(d.edge == ep[want[i].0[k]] && d.direction == want[i].1[k], 6); }
    }
    let g = &got.regions[0].inner_rings[0];
    check(g.region == &got.regions[0] as *const _ && g.directed_edges.len() == 1 && g.directed_edges[0].edge == ep[3] && g.directed_edges[0].direction == Backward, 7);
    let now = [&got.regions[0].outer_rings[0] as *const _, &got.regions[1].outer_rings[0] as *const _, &got.regions[2].outer_rings[0] as *const _, g as *const _];
    let eq2 = |i: usize, x: *const TopoRing<u32>, y: *const TopoRing<u32>| got.edges[i].rings[0] == x && got.edges[i].rings[1] == y;
    check(eq2(0, now[0], now[1]) && eq2(1, now[0], ptr::null()) && eq2(2, now[1], ptr::null()) && eq2(3, now[3], now[2]), 8);
    for i in 0..4 {
        let q = &got.edges[i].points;
        check(q.len() >= 2, 9);
        check(eq(q[0], ps[i][0]) & eq(q[q.len() - 1], ps[i][ps[i].len() - 1]), 10);
        // on its own the edge comes out the same
        check(same(q, &simplified(&ps[i], t)), 11);
    }
    check(got.edges[3].points.len() >= 4, 12);
    obs(got.edges[0].points.len() as u64); obs(got.edges[3].points.len() as u64);
    reach(1);
    if got.edges[0].points.len() == 2 { reach(2); }
}
