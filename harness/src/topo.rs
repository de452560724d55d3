//! C11 (a built topology keeps every ring), C12 (sharing and references).
use crate::sym::*;
use crate::tu::*;
use topogeo::geo::*;
use topogeo::topology::*;

fn any(w: u32) -> Point { Point(bits(w) as u32, bits(w) as u32) }
fn tri(w: u32) -> Vec<Point> { poly(3, w) }
fn poly(n: usize, w: u32) -> Vec<Point> { let mut v: Vec<Point> = (0..n).map(|_| any(w)).collect(); let f = v[0]; v.push(f); v }
/// A ring as a list of paths; a single path stands for a ring of points.
type In = (Vec<Vec<Point>>, bool);
fn points(p: Vec<Point>) -> In { (vec![p], false) }
fn edges(p: Vec<Vec<Point>>) -> In { (p, true) }
fn ring(r: &In) -> Ring {
    if r.1 { Ring::Edges(r.0.iter().map(|p| Edge(p.to_vec().into_boxed_slice())).collect::<Vec<_>>().into_boxed_slice()) }
    else { Ring::Points(r.0[0].to_vec().into_boxed_slice()) }
}
/// The paths that become edges.
fn paths(r: &In) -> Vec<Vec<Point>> {
    if r.1 { r.0.clone() } else { let p = &r.0[0]; (1..p.len()).map(|i| vec![p[i - 1], p[i]]).collect() }
}
fn area(r: &In) -> i128 { let mut a = 0; for p in r.0.iter() { a += shoelace(p); } a }
struct Reg { data: u32, outer: Vec<In>, inner: Vec<In> }
fn maps(s: u64, w: u32) -> Vec<Reg> {
    let d = || bits(32) as u32;
    match s {
        // a ring in which points may repeat
        0 => vec![Reg { data: d(), outer: vec![points(poly(4, w))], inner: vec![] }],
        // two triangles in two regions
        1 => vec![Reg { data: d(), outer: vec![points(tri(w))], inner: vec![] }, Reg { data: d(), outer: vec![points(tri(w))], inner: vec![] }],
        // two triangles in one region, or one inside the other
        2 => vec![Reg { data: d(), outer: vec![points(tri(w)), points(tri(w))], inner: vec![] }],
        3 => vec![Reg { data: d(), outer: vec![points(tri(w))], inner: vec![points(tri(w))] }],
        // rings of edges, either direction, with one border of two segments in common or not
        4 => {
            let (a, b) = (any(w), any(w)); assume(!peq(a, b));
            let m = any(w); let n = any(w); let k = any(w);
            vec![Reg { data: d(), outer: vec![edges(vec![vec![a, m, b], vec![b, k, a]])], inner: vec![] },
                 Reg { data: d(), outer: vec![edges(vec![vec![b, n, a], vec![a, any(w), b]])], inner: vec![] }]
        }
        // a closed edge used from both sides: a hole and its filling, either way round
        5 => {
            let p = tri(w); let q = tri(w);
            assume(shoelace(&p) != 0); assume(shoelace(&q) != 0);
            vec![Reg { data: d(), outer: vec![edges(vec![p])], inner: vec![] }, Reg { data: d(), outer: vec![points(tri(w))], inner: vec![edges(vec![q])] }]
        }
        // a strip of a quadrilateral and a triangle with a common side given the other way round
        6 => {
            let (a, b, c, e) = (any(w), any(w), any(w), any(w));
            vec![Reg { data: d(), outer: vec![points(vec![a, b, c, a])], inner: vec![] }, Reg { data: d(), outer: vec![points(vec![c, b, any(w), e, c])], inner: vec![] }]
        }
        // three triangles
        _ => {
            let (a, b, c) = (any(w), any(w), any(w));
            vec![Reg { data: d(), outer: vec![points(vec![a, b, c, a])], inner: vec![] }, Reg { data: d(), outer: vec![points(vec![b, a, any(w), b])], inner: vec![] }, Reg { data: d(), outer: vec![points(vec![any(w), c, b, any(w)])], inner: vec![] }]
        }
    }
}
fn used_twice_at_most(m: &[Reg]) {
    let mut all: Vec<Vec<Point>> = vec![];
    for r in m { for g in r.outer.iter().chain(r.inner.iter()) { all.extend(paths(g)); } }
    for i in 0..all.len() { for j in 0..i { for k in 0..j {
        let same = |a: &[Point], b: &[Point]| same_points(a, b) | same_reversed(a, b);
        assume(!(same(&all[i], &all[j]) & same(&all[j], &all[k])) | (all[i].len() == 2 && all[i][0] == all[i][1]));
    } } }
}
/// params: map, bits, property (the other one's assertions are assumed)
#[no_mangle] pub extern "C" fn h_build() {
    let s = param(0); let w = param(1) as u32; let part = param(2);
    let c11 = |c: bool, id: u32| if part == 11 { check(c, id) };
    let c12 = |c: bool, id: u32| if part == 12 { check(c, id) };
    let m = maps(s, w);
    if s >= 4 { used_twice_at_most(&m); }
    let mut b = TopologyBuilder::new();
    for r in m.iter() {
        b.add_region(Region { data: r.data, outer_rings: r.outer.iter().map(ring).collect::<Vec<_>>().into_boxed_slice(), inner_rings: r.inner.iter().map(ring).collect::<Vec<_>>().into_boxed_slice() });
    }
    let t = b.into_topology();
    let mut k = 0;
    if part == 11 { for r in m.iter() {
        let left = |v: &[In]| { let mut o = vec![]; for g in v { if split(area(g) != 0) { o.push(g.clone()); } } o };
        let outer = left(&r.outer);
        if outer.len() == 0 { continue; }
        let inner = left(&r.inner);
        c11(k < t.regions.len(), 1);
        let n = &t.regions[k]; k += 1;
        c11(n.data == r.data, 2);
        c11(n.outer_rings.len() == outer.len(), 3);
        c11(n.inner_rings.len() == inner.len(), 4);
        for (j, g) in outer.iter().chain(inner.iter()).enumerate() {
            let got = if j < outer.len() { &n.outer_rings[j] } else { &n.inner_rings[j - outer.len()] };
            let walked = walk(&t, got, 20);
            // the ring without immediate repetitions
            let mut want: Vec<Point> = vec![];
            for p in paths(g).iter() {
                if p.len() == 2 && split(peq(p[0], p[1])) { continue; }
                if want.len() == 0 { want.push(p[0]); }
                want.extend_from_slice(&p[1..]);
            }
            c11(same_points(&walked, &want), 5);
        }
    } c11(k == t.regions.len(), 6); }
    if part == 12 { references(&t, 30); }
    let mut shared = false;
    for i in 0..t.edges.len() {
        let p = &t.edges[i].points;
        let (a, b) = (p[0], p[p.len() - 1]);
        c12(plt(a, b) | (peq(a, b) & (shoelace(p) >= 0)), 10);
        for j in 0..i { c12(!same_points(p, &t.edges[j].points) & !same_reversed(p, &t.edges[j].points), 11); }
        if !t.edges[i].rings[1].is_null() { shared = true; }
    }
    obs(t.regions.len() as u64); obs(t.edges.len() as u64);
    reach(1);
    if shared { reach(2); }
    if t.regions.len() == 0 { reach(3); }
}
