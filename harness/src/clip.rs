//! C16 (clipping a path), C17 (crossing points), C18 and C19 (clipping a topology).
use crate::sym::*;
use topogeo::clip::edge::clip_edge;
use topogeo::clip::ClipMask;
use topogeo::geo::Point;

fn eq(a: Point, b: Point) -> bool { (a.0 == b.0) & (a.1 == b.1) }
pub fn mask(kind: u64, at: u32) -> ClipMask {
    match kind { 0 => ClipMask::MinX(at), 1 => ClipMask::MaxX(at), 2 => ClipMask::MinY(at), _ => ClipMask::MaxY(at) }
}
/// The coordinate a mask looks at, and the other one.
pub fn along(kind: u64, p: Point) -> (u32, u32) { if kind < 2 { (p.0, p.1) } else { (p.1, p.0) } }
pub fn inside(kind: u64, at: u32, p: Point) -> bool { let v = along(kind, p).0; if kind % 2 == 0 { v > at } else { v < at } }
pub fn on(kind: u64, at: u32, p: Point) -> bool { along(kind, p).0 == at }

/// One segment from inside to outside, or the other way around.
/// params: bits, mask kind, 1: from outside to inside
#[no_mangle] pub extern "C" fn h_cross() {
    let w = param(0) as u32; let kind = param(1); let enter = param(2) == 1;
    let p = Point(bits(w) as u32, bits(w) as u32);
    let q = Point(bits(w) as u32, bits(w) as u32);
    let at = bits(w) as u32;
    assume(inside(kind, at, p));
    assume(!inside(kind, at, q) & !on(kind, at, q));
    // which way it leans
    split(along(kind, p).1 < along(kind, q).1);
    let r = if enter { clip_edge(&[q, p], &mask(kind, at)) } else { clip_edge(&[p, q], &mask(kind, at)) };
    check(r.len() == 2, 1);
    let (keep, c) = if enter { (r[1], r[0]) } else { (r[0], r[1]) };
    check(eq(keep, p), 2);
    let ((pa, po), (qa, qo), (ca, co)) = (along(kind, p), along(kind, q), along(kind, c));
    check(ca == at, 3);
    check(((po <= co) & (co <= qo)) | ((qo <= co) & (co <= po)), 4);
    // |co - exact| < 1, times the length of the segment across the mask
    let i = |u: u32| u as i128;
    let len = if kind % 2 == 0 { i(pa) - i(qa) } else { i(qa) - i(pa) };
    let e = if enter { (i(co) - i(qo)) * (i(pa) - i(qa)) - (i(at) - i(qa)) * (i(po) - i(qo)) } else { (i(co) - i(po)) * (i(qa) - i(pa)) - (i(at) - i(pa)) * (i(qo) - i(po)) };
    check((e < len) & (-e < len), 5);
    obs(c.0 as u64); obs(c.1 as u64);
    reach(1);
}
/// The crossing point of a segment, as the real code computes it (h_cross says what it must be).
fn crossing(a: Point, b: Point, kind: u64, at: u32) -> Point {
    let r = clip_edge(&[a, b], &mask(kind, at));
    if inside(kind, at, a) { r[r.len() - 1] } else { r[0] }
}
/// A whole path.
/// params: points, bits, mask kind, 1: closed
#[no_mangle] pub extern "C" fn h_path() {
    let n = param(0) as usize; let w = param(1) as u32; let kind = param(2); let closed = param(3) == 1;
    let mut p = vec![];
    for _ in 0..n { p.push(Point(bits(w) as u32, bits(w) as u32)); }
    if closed { p[n - 1] = p[0]; }
    let at = bits(w) as u32;
    let m = mask(kind, at);
    // 0: inside, 1: on the line, 2: outside
    let mut loc = vec![];
    for i in 0..n { loc.push(if split(inside(kind, at, p[i])) { 0 } else if split(on(kind, at, p[i])) { 1 } else { 2 }); }
    let r = clip_edge(&p, &m);
    // what must come out, points on the line not repeated
    let mut want: Vec<Point> = vec![];
    let line = |want: &mut Vec<Point>, q: Point| { let rep = match want.last() { Some(&l) => split(eq(l, q)), None => false }; if !rep { want.push(q); } };
    for i in 0..n {
        if loc[i] == 0 { want.push(p[i]); }
        if loc[i] == 1 && ((i > 0 && loc[i - 1] == 0) || (i + 1 < n && loc[i + 1] == 0)) { line(&mut want, p[i]); }
        if i + 1 < n && loc[i] + loc[i + 1] == 2 && loc[i] != 1 { let c = crossing(p[i], p[i + 1], kind, at); line(&mut want, c); }
    }
    check(r.len() == want.len(), 1);
    let mut ok = true;
    for i in 0..want.len() { ok &= eq(r[i], want[i]); }
    check(ok, 2);
    for q in r.iter() { check(inside(kind, at, *q) | on(kind, at, *q), 3); }
    let any_in = loc.iter().any(|&l| l == 0);
    check((r.len() == 0) == !any_in, 4);
    check(r.len() != 1, 5);
    // clipping again changes nothing
    let s = clip_edge(&r, &m);
    check(s.len() == r.len(), 6);
    let mut ok = true;
    for i in 0..r.len() { ok &= eq(r[i], s[i]); }
    check(ok, 7);
    obs(r.len() as u64);
    for q in r.iter() { obs(q.0 as u64); obs(q.1 as u64); }
    reach(1);
    if r.len() > 0 && loc.iter().any(|&l| l == 2) { reach(2); }
    if r.len() == 0 { reach(3); }
}
use crate::tu::*;
use topogeo::clip::clip_topology;
use topogeo::topology::*;

fn any(w: u32) -> Point { Point(bits(w) as u32, bits(w) as u32) }
/// Maps with arbitrary coordinates; edges in canonical direction, nothing else is assumed.
fn shape(s: u64, w: u32) -> Topology<u32> {
    let d = || bits(32) as u32;
    let island = |n: usize| { let mut v: Vec<Point> = (0..n).map(|_| any(w)).collect(); let f = v[0]; v.push(f); assume(shoelace(&v) > 0); v };
    let (f, b) = (true, false);
    match s {
        // one ring
        0 => { let e = island(3); assemble(vec![e], vec![(d(), vec![vec![(0, f)]], vec![])]) }
        1 => { let e = island(4); assemble(vec![e], vec![(d(), vec![vec![(0, f)]], vec![])]) }
        // two regions with a border in common
        2 => {
            let (p, q) = (any(w), any(w)); assume(plt(p, q));
            assemble(vec![vec![p, any(w), q], vec![p, any(w), q], vec![p, q]],
                vec![(d(), vec![vec![(0, f), (2, b)]], vec![]), (d(), vec![vec![(2, f), (1, b)]], vec![])])
        }
        // an island in a hole, and the hole filled
        3 => {
            let (o, i) = (island(3), island(3));
            assemble(vec![o, i], vec![(d(), vec![vec![(0, f)]], vec![vec![(1, b)]]), (d(), vec![vec![(1, f)]], vec![])])
        }
        // a region of two rings, a second region next to one of them
        4 => {
            let (p, q) = (any(w), any(w)); assume(plt(p, q));
            let i = island(3);
            assemble(vec![vec![p, any(w), q], vec![p, q], i, vec![p, any(w), q]],
                vec![(d(), vec![vec![(2, f)], vec![(0, f), (1, b)]], vec![]), (d(), vec![vec![(3, b), (1, f)]], vec![])])
        }
        // three regions around a point
        _ => {
            let (c, p, q, r) = (any(w), any(w), any(w), any(w));
            assume(plt(c, p)); assume(plt(c, q)); assume(plt(c, r)); assume(plt(p, q)); assume(plt(q, r));
            assemble(vec![vec![c, p], vec![c, q], vec![c, r], vec![p, q], vec![q, r], vec![p, r]],
                vec![(d(), vec![vec![(0, f), (3, f), (1, b)]], vec![]), (d(), vec![vec![(1, f), (4, f), (2, b)]], vec![]), (d(), vec![vec![(2, f), (5, b), (0, b)]], vec![])])
        }
    }
}
/// What a clipped ring must be: pieces of old edges (index, points) and gaps.
fn pieces(t: &T, g: &TopoRing<u32>, clipped: &[Vec<Point>]) -> (Vec<(Option<usize>, Vec<Point>)>, Vec<Point>) {
    let mut out: Vec<(Option<usize>, Vec<Point>)> = vec![];
    let mut w: Vec<Point> = vec![];
    for d in g.directed_edges.iter() {
        let i = index(&t.edges, d.edge);
        if clipped[i].len() == 0 { continue; }
        let p = directed(&clipped[i], d.direction == Direction::Forward);
        if let Some(&l) = w.last() {
            if split(peq(l, p[0])) { w.extend_from_slice(&p[1..]); }
            else { out.push((None, vec![l, p[0]])); w.extend_from_slice(&p); }
        } else { w.extend_from_slice(&p); }
        out.push((Some(i), p));
    }
    if w.len() > 0 {
        let (l, f) = (w[w.len() - 1], w[0]);
        if !split(peq(l, f)) { out.push((None, vec![l, f])); w.push(f); }
    }
    (out, w)
}
/// params: shape, bits, mask kind, 18 or 19: which property's assertions to decide (the others are assumed)
#[no_mangle] pub extern "C" fn h_map() {
    let part = param(3);
    let c18 = |c: bool, id: u32| if part == 18 { check(c, id) } else { assume(c) };
    let c19 = |c: bool, id: u32| if part == 19 { check(c, id) };
    let s = param(0); let w = param(1) as u32; let kind = param(2);
    let t = shape(s, w);
    let at = bits(w) as u32;
    let m = mask(kind, at);
    let clipped: Vec<Vec<Point>> = t.edges.iter().map(|e| clip_edge(&e.points, &m).to_vec()).collect();
    let c = clip_topology(&t, &m);
    if part == 19 {
        references(&c, 30);
        for (_, _, g) in rings(&c) { walk(&c, g, 20); }
        for e in c.edges.iter() {
            for q in e.points.iter() { check(inside(kind, at, *q) | on(kind, at, *q), 12); }
            let (a, b) = (e.points[0], e.points[e.points.len() - 1]);
            check(plt(a, b) | (peq(a, b) & (shoelace(&e.points) >= 0)), 13);
        }
    }
    // which regions and rings are left
    let mut k = 0;
    let mut ptr: Vec<*const TopoEdge<u32>> = vec![std::ptr::null(); t.edges.len()];
    let mut vanished = false;
    let mut gaps: Vec<(Point, Point, *const TopoEdge<u32>)> = vec![];
    for r in t.regions.iter() {
        let mut left = |gs: &[TopoRing<u32>]| { let mut v = vec![]; for g in gs.iter() { let (p, w) = pieces(&t, g, &clipped); let mut a = 0; for x in p.iter() { a += shoelace(&x.1); } if split(a != 0) { v.push((p, w)); } else if p.iter().any(|x| x.0.is_none()) { vanished = true; } } v };
        let outer = left(&r.outer_rings);
        if outer.len() == 0 { continue; }
        let inner = left(&r.inner_rings);
        c18(k < c.regions.len(), 1);
        let n = &c.regions[k]; k += 1;
        c18(n.data == r.data, 2);
        c18(n.outer_rings.len() == outer.len(), 3);
        c18(n.inner_rings.len() == inner.len(), 4);
        for (j, (p, wk)) in outer.iter().chain(inner.iter()).enumerate() {
            let g = if j < outer.len() { &n.outer_rings[j] } else { &n.inner_rings[j - outer.len()] };
            c18(same_points(&walk_any(&c, g), wk), 5);
            // pieces of one old edge are one new edge, whoever uses them
            c18(g.directed_edges.len() == p.len(), 6);
            for (i, (old, q)) in p.iter().enumerate() {
                let d = &g.directed_edges[i];
                let e = d.edge;
                c18(same_points(&directed(unsafe { &(*e).points }, d.direction == Direction::Forward), q), 7);
                match old {
                    Some(o) => { c19(ptr[*o].is_null() || ptr[*o] == e, 8); ptr[*o] = e; }
                    None => gaps.push((q[0], q[1], e)),
                }
            }
        }
    }
    c18(k == c.regions.len(), 9);
    // the same gap is one edge, unless more than two rings share it
    for i in 0..gaps.len() { for j in 0..i {
        let same = (peq(gaps[i].0, gaps[j].0) & peq(gaps[i].1, gaps[j].1)) | (peq(gaps[i].0, gaps[j].1) & peq(gaps[i].1, gaps[j].0));
        if gaps.len() == 2 && !vanished { c19((gaps[i].2 == gaps[j].2) == same, 10); }
        else if gaps[i].2 == gaps[j].2 { c19(same, 11); }
    } }
    // nothing outside, nothing changed
    let all_in = t.edges.iter().all(|e| e.points.iter().all(|p| { cant(!(inside(kind, at, *p) | on(kind, at, *p))) }));
    if all_in { reach(4); }
    obs(c.regions.len() as u64); obs(c.edges.len() as u64);
    reach(1);
    if c.regions.len() == 0 { reach(2); }
    if gaps.len() > 0 { reach(3); }
}
