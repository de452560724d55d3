//! Helpers over topologies.
use crate::sym::*;
use std::ptr;
use topogeo::geo::Point;
use topogeo::topology::*;

pub fn peq(a: Point, b: Point) -> bool { (a.0 == b.0) & (a.1 == b.1) }
pub fn plt(a: Point, b: Point) -> bool { (a.0 < b.0) | ((a.0 == b.0) & (a.1 < b.1)) }
pub fn same_points(a: &[Point], b: &[Point]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for i in 0..a.len() { ok &= peq(a[i], b[i]); }
    ok
}
/// Same walk in the other direction.
pub fn same_reversed(a: &[Point], b: &[Point]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for i in 0..a.len() { ok &= peq(a[i], b[b.len() - 1 - i]); }
    ok
}
pub fn shoelace(p: &[Point]) -> i128 {
    let mut a = 0i128;
    for i in 1..p.len() { a += (p[i - 1].0 as i128) * (p[i].1 as i128) - (p[i].0 as i128) * (p[i - 1].1 as i128); }
    a
}
pub type T = Topology<u32>;
/// A ring as (edge index, forwards).
pub type R = Vec<(usize, bool)>;
/// Assembles a topology by hand: edges, then per region its data, outer and inner rings.
pub fn assemble(edges: Vec<Vec<Point>>, regions: Vec<(u32, Vec<R>, Vec<R>)>) -> T {
    let mut es: Box<[TopoEdge<u32>]> = edges.into_iter().map(|p| TopoEdge { points: p.into_boxed_slice(), rings: [ptr::null(); 2] }).collect::<Vec<_>>().into_boxed_slice();
    let ring = |r: R, es: &[TopoEdge<u32>]| TopoRing { directed_edges: r.into_iter().map(|(i, f)| DirectedEdge { edge: &es[i] as *const _, direction: if f { Direction::Forward } else { Direction::Backward } }).collect::<Vec<_>>().into_boxed_slice(), region: ptr::null() };
    let mut rs: Box<[TopoRegion<u32>]> = regions.into_iter().map(|(d, o, i)| TopoRegion {
        data: d,
        outer_rings: o.into_iter().map(|r| ring(r, &es)).collect::<Vec<_>>().into_boxed_slice(),
        inner_rings: i.into_iter().map(|r| ring(r, &es)).collect::<Vec<_>>().into_boxed_slice(),
    }).collect::<Vec<_>>().into_boxed_slice();
    for r in rs.iter_mut() {
        let p = r as *const TopoRegion<u32>;
        for g in r.outer_rings.iter_mut().chain(r.inner_rings.iter_mut()) {
            g.region = p;
            let gp = g as *const TopoRing<u32>;
            for d in g.directed_edges.iter() {
                let i = index(&es, d.edge);
                let k = if es[i].rings[0].is_null() { 0 } else { 1 };
                es[i].rings[k] = gp;
            }
        }
    }
    Topology { regions: rs, edges: es }
}
/// The index of an edge in the table of edges; usize::MAX if it is none of them.
pub fn index(es: &[TopoEdge<u32>], e: *const TopoEdge<u32>) -> usize {
    for i in 0..es.len() { if &es[i] as *const _ == e { return i; } }
    usize::MAX
}
pub fn directed(points: &[Point], forward: bool) -> Vec<Point> { let mut v = points.to_vec(); if !forward { v.reverse(); } v }
/// Every ring of every region with its owner's index and side.
pub fn rings(t: &T) -> Vec<(usize, bool, &TopoRing<u32>)> {
    let mut v = vec![];
    for (i, r) in t.regions.iter().enumerate() {
        for g in r.outer_rings.iter() { v.push((i, true, g)); }
        for g in r.inner_rings.iter() { v.push((i, false, g)); }
    }
    v
}
/// The points met on a walk around a ring; checks that it is closed and made of
/// edges of this topology.
pub fn walk(t: &T, g: &TopoRing<u32>, id: u32) -> Vec<Point> {
    let mut v: Vec<Point> = vec![];
    check(g.directed_edges.len() > 0, id);
    for d in g.directed_edges.iter() {
        let i = index(&t.edges, d.edge);
        check(i < t.edges.len(), id + 1);
        let p = directed(&t.edges[i].points, d.direction == Direction::Forward);
        check(p.len() >= 2, id + 2);
        if v.len() > 0 { check(peq(v[v.len() - 1], p[0]), id + 3); v.extend_from_slice(&p[1..]); } else { v.extend_from_slice(&p); }
    }
    check(peq(v[0], v[v.len() - 1]), id + 4);
    v
}
/// Regions, rings and edges point at each other as documented.  Uses ids id..id+5.
pub fn references(t: &T, id: u32) {
    let mut uses: Vec<Vec<*const TopoRing<u32>>> = (0..t.edges.len()).map(|_| vec![]).collect();
    for (i, _, g) in rings(t) {
        check(g.region == &t.regions[i] as *const _, id);
        for d in g.directed_edges.iter() {
            let k = index(&t.edges, d.edge);
            check(k < t.edges.len(), id + 1);
            uses[k].push(g as *const _);
        }
    }
    for k in 0..t.edges.len() {
        let r = t.edges[k].rings;
        check(uses[k].len() == 1 || uses[k].len() == 2, id + 2);
        if uses[k].len() == 1 { check(r[0] == uses[k][0] && r[1].is_null(), id + 3); }
        else { check((r[0] == uses[k][0] && r[1] == uses[k][1]) || (r[0] == uses[k][1] && r[1] == uses[k][0]), id + 4); }
    }
}
/// The points met on a walk around a ring, without checking anything.
pub fn walk_any(t: &T, g: &TopoRing<u32>) -> Vec<Point> {
    let mut v: Vec<Point> = vec![];
    for d in g.directed_edges.iter() {
        let i = index(&t.edges, d.edge);
        assume(i < t.edges.len());
        let p = directed(&t.edges[i].points, d.direction == Direction::Forward);
        let n = if v.len() > 0 { 1 } else { 0 };
        v.extend_from_slice(&p[n..]);
    }
    v
}
