//! C13 (what a region covers), C14 (normal form), C15 (shared borders).
use crate::sym::*;
use crate::tu::*;
use topogeo::geo::*;
use topogeo::topology::*;

pub const NONE: usize = 99;
/// A grid of cells with arbitrary column widths, row heights and (sheared) row offsets.
pub struct Grid { pub w: usize, pub h: usize, pub p: Vec<Vec<Point>>, pub cell: Vec<Vec<usize>> }
impl Grid {
    pub fn new(w: usize, h: usize, shear: bool) -> Grid {
        let mut x = vec![bits(26) as u32]; let mut y = vec![bits(26) as u32];
        for i in 0..w { let d = 1 + bits(26) as u32; x.push(x[i] + d); }
        for i in 0..h { let d = 1 + bits(26) as u32; y.push(y[i] + d); }
        let mut p = vec![];
        for j in 0..h + 1 { let o = if shear { bits(28) as u32 } else { 0 }; p.push(x.iter().map(|&x| Point(x + o, y[j])).collect()); }
        Grid { w, h, p, cell: vec![vec![NONE; w]; h] }
    }
    pub fn at(&self, i: i32, j: i32) -> usize { if i < 0 || j < 0 || i >= self.w as i32 || j >= self.h as i32 { NONE } else { self.cell[j as usize][i as usize] } }
    /// The corners of a cell, clockwise (y grows downwards), closed.
    pub fn corners(&self, i: usize, j: usize) -> Vec<Point> { vec![self.p[j][i], self.p[j][i + 1], self.p[j + 1][i + 1], self.p[j + 1][i], self.p[j][i]] }
    /// Which vertex a point is.
    pub fn vertex(&self, q: Point) -> Option<(i32, i32)> {
        for j in 0..self.h + 1 { for i in 0..self.w + 1 { if peq(self.p[j][i], q) { return Some((i as i32, j as i32)); } } }
        None
    }
    /// The cells on the right and on the left of a step between neighbouring vertices.
    pub fn sides(&self, a: (i32, i32), b: (i32, i32)) -> Option<(usize, usize)> {
        Some(match (b.0 - a.0, b.1 - a.1) {
            (1, 0) => (self.at(a.0, a.1), self.at(a.0, a.1 - 1)),
            (-1, 0) => (self.at(b.0, a.1 - 1), self.at(b.0, a.1)),
            (0, 1) => (self.at(a.0 - 1, a.1), self.at(a.0, a.1)),
            (0, -1) => (self.at(a.0, b.1), self.at(a.0 - 1, b.1)),
            _ => return None,
        })
    }
    /// How many borders between different regions (or a region and nothing) meet at a vertex.
    pub fn degree(&self, v: (i32, i32)) -> usize {
        let mut n = 0;
        for d in [(1, 0), (-1, 0), (0, 1), (0, -1)] {
            let u = (v.0 + d.0, v.1 + d.1);
            if u.0 < 0 || u.1 < 0 || u.0 > self.w as i32 || u.1 > self.h as i32 { continue; }
            let (r, l) = self.sides(v, u).unwrap();
            if r != l { n += 1; }
        }
        n
    }
    /// Steps along which the region is on the right and something else on the left.
    pub fn border(&self, r: usize) -> usize {
        let mut n = 0;
        for j in 0..self.h as i32 { for i in 0..self.w as i32 { if self.at(i, j) == r {
            for d in [(1, 0), (-1, 0), (0, 1), (0, -1)] { if self.at(i + d.0, j + d.1) != r { n += 1; } }
        } } }
        n
    }
}
pub fn rotated(p: &[Point], k: usize, back: bool) -> Vec<Point> {
    let n = p.len() - 1;
    let mut v: Vec<Point> = (0..n + 1).map(|i| p[(i + k) % n]).collect();
    if back { v.reverse(); }
    v
}
pub fn pring(p: Vec<Point>) -> Ring { Ring::Points(p.into_boxed_slice()) }
/// One region per used number, of one polygon per cell.
pub fn by_cells(g: &mut Grid, nreg: u64, turn: bool) -> (T, Vec<usize>, Vec<u32>) {
    for j in 0..g.h { for i in 0..g.w { let v = pick(nreg + 1) as usize; g.cell[j][i] = if v == nreg as usize { NONE } else { v }; } }
    let mut b = TopologyBuilder::new();
    let mut ids = vec![]; let mut data = vec![];
    // one cell is given from another corner, or the other way round
    let (k, back, which) = if turn { (pick(4) as usize, pick(2) == 1, pick((g.w * g.h) as u64) as usize) } else { (0, false, 0) };
    for r in 0..nreg as usize {
        let mut o = vec![];
        for j in 0..g.h { for i in 0..g.w { if g.cell[j][i] == r {
            let c = g.corners(i, j);
            o.push(pring(if turn && which == j * g.w + i { rotated(&c, k, back) } else { c }));
        } } }
        if o.len() == 0 { continue; }
        let d = bits(32) as u32;
        ids.push(r); data.push(d);
        b.add_region(Region { data: d, outer_rings: o.into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
    }
    (b.into_topology(), ids, data)
}
/// Everything there is to check about a normalized map.
pub fn normalized(g: &Grid, n: &T, ids: &[usize], data: &[u32], part: u64) {
    let c13 = |c: bool, id: u32| if part == 13 { check(c, id) };
    let c14 = |c: bool, id: u32| if part == 14 { check(c, id) };
    check(n.regions.len() == ids.len(), 1);
    // edges as steps between vertices
    let mut steps: Vec<Vec<(i32, i32)>> = vec![];
    for e in n.edges.iter() {
        let mut v = vec![];
        for q in e.points.iter() { let k = g.vertex(*q); check(k.is_some(), 2); v.push(k.unwrap()); }
        for i in 1..v.len() { check(g.sides(v[i - 1], v[i]).is_some(), 3); }
        steps.push(v);
    }
    for (k, r) in n.regions.iter().enumerate() {
        c13(r.data == data[k], 4);
        let mut seen: Vec<((i32, i32), (i32, i32))> = vec![];
        let mut used: Vec<usize> = vec![];
        for (side, gs) in [(true, &r.outer_rings), (false, &r.inner_rings)] {
            let mut last: Option<Point> = None;
            for t in gs.iter() {
                let mut wk: Vec<Point> = vec![];
                let m = t.directed_edges.len();
                check(m > 0, 5);
                let mut first_least = true;
                for (x, d) in t.directed_edges.iter().enumerate() {
                    let e = index(&n.edges, d.edge);
                    check(e < n.edges.len(), 20);
                    c14(!used.contains(&e), 10); used.push(e);
                    let mut s = steps[e].clone();
                    let mut p = n.edges[e].points.to_vec();
                    if d.direction == Direction::Backward { s.reverse(); p.reverse(); }
                    if x > 0 { check(peq(wk[wk.len() - 1], p[0]), 6); first_least &= !plt(p[0], wk[0]); wk.extend_from_slice(&p[1..]); } else { wk.extend_from_slice(&p); }
                    for i in 1..s.len() {
                        // the region lies on the right of every step, and only once
                        let (rt, lt) = g.sides(s[i - 1], s[i]).unwrap();
                        c13(rt == ids[k] && lt != ids[k], 7);
                        c13(!seen.contains(&(s[i - 1], s[i])), 8);
                        seen.push((s[i - 1], s[i]));
                        // borders meet at nodes only
                        if i + 1 < s.len() { c14(g.degree(s[i]) == 2, 11); }
                    }
                    // a node between two edges of a ring is where three or more borders meet
                    if m > 1 { c14(g.degree(s[0]) >= 3, 12); }
                }
                check(peq(wk[0], wk[wk.len() - 1]), 9);
                let a = shoelace(&wk);
                c14(if side { a > 0 } else { a < 0 }, 13);
                // where it starts
                if m > 1 { c14(first_least, 14); }
                else if g.degree(g.vertex(wk[0]).unwrap()) == 2 { for q in wk.iter() { c14(!plt(*q, wk[0]), 15); } }
                if let Some(l) = last { c14(!plt(wk[0], l), 16); }
                last = Some(wk[0]);
            }
        }
        c13(seen.len() == g.border(ids[k]), 17);
    }
    if part == 15 {
        references(n, 30);
        for (e, s) in steps.iter().enumerate() {
            let ed = &n.edges[e];
            check(plt(ed.points[0], ed.points[ed.points.len() - 1]) | (peq(ed.points[0], ed.points[ed.points.len() - 1]) & (shoelace(&ed.points) > 0)), 21);
            // two regions, or one, on every step of the edge
            for i in 1..s.len() {
                let (rt, lt) = g.sides(s[i - 1], s[i]).unwrap();
                let two = rt != NONE && lt != NONE;
                check(two != ed.rings[1].is_null(), 22);
                for f in 0..e { for j in 1..steps[f].len() { let (a, b) = (steps[f][j - 1], steps[f][j]); check((a, b) != (s[i - 1], s[i]) && (b, a) != (s[i - 1], s[i]), 23); } }
                let mut owners = vec![];
                for r in ed.rings.iter() { if !r.is_null() { owners.push(region_index(n, unsafe { (**r).region })); } }
                for c in [rt, lt] { if c != NONE { check(owners.iter().any(|&o| o < ids.len() && ids[o] == c), 24); } }
            }
        }
        for i in 0..n.edges.len() { let mut d = vec![]; for (_, _, t) in rings(n) { for x in t.directed_edges.iter() { if index(&n.edges, x.edge) == i { d.push(x.direction); } } } if d.len() == 2 { check(d[0] != d[1], 25); } }
    }
}
fn region_index(n: &T, r: *const TopoRegion<u32>) -> usize { for i in 0..n.regions.len() { if &n.regions[i] as *const _ == r { return i; } } usize::MAX }
/// Whether two maps are the same: regions, data, rings and the points of their edges.
pub fn same_map(a: &T, b: &T, id: u32) {
    check(a.regions.len() == b.regions.len() && a.edges.len() == b.edges.len(), id);
    for (r, s) in a.regions.iter().zip(b.regions.iter()) {
        check(r.data == s.data, id + 1);
        for (x, y) in [(&r.outer_rings, &s.outer_rings), (&r.inner_rings, &s.inner_rings)] {
            check(x.len() == y.len(), id + 2);
            for (g, h) in x.iter().zip(y.iter()) {
                check(g.directed_edges.len() == h.directed_edges.len(), id + 3);
                for (d, e) in g.directed_edges.iter().zip(h.directed_edges.iter()) {
                    check(d.direction == e.direction && same_points(unsafe { &(*d.edge).points }, unsafe { &(*e.edge).points }), id + 4);
                }
            }
        }
    }
}
/// Maps of cells: every assignment of cells to regions or nothing.
/// params: width, height, regions, 1: sheared, property, 1: one cell given from another corner or backwards
#[no_mangle] pub extern "C" fn h_cells() {
    let (w, h, r, sh, part, turn) = (param(0) as usize, param(1) as usize, param(2), param(3) == 1, param(4), param(5) == 1);
    let mut g = Grid::new(w, h, sh);
    let (t, ids, data) = by_cells(&mut g, r, turn);
    let n = topogeo::normalize(&t);
    normalized(&g, &n, &ids, &data, part);
    if part == 14 { let m = topogeo::normalize(&n); same_map(&n, &m, 40); }
    obs(n.regions.len() as u64); obs(n.edges.len() as u64);
    reach(1);
    if n.regions.len() > 1 { reach(2); }
    if n.regions.iter().any(|r| r.outer_rings.len() > 1) { reach(3); }
    if n.regions.iter().any(|r| r.inner_rings.len() > 0) { reach(4); }
}
impl Grid {
    /// The vertices around a block of cells, clockwise, closed.
    pub fn block(&self, a: usize, b: usize, c: usize, d: usize) -> Vec<Point> {
        let mut v = vec![];
        for i in a..c { v.push(self.p[b][i]); }
        for j in b..d { v.push(self.p[j][c]); }
        for i in (a + 1..c + 1).rev() { v.push(self.p[d][i]); }
        for j in (b + 1..d + 1).rev() { v.push(self.p[j][a]); }
        let f = v[0]; v.push(f);
        v
    }
    fn fill(&mut self, a: usize, b: usize, c: usize, d: usize, r: usize) { for j in b..d { for i in a..c { self.cell[j][i] = r; } } }
}
type Block = (usize, usize, usize, usize);
/// params: layout, 1: one ring starts elsewhere or runs backwards, property, 1: rings of the holes are single closed edges
#[no_mangle] pub extern "C" fn h_holes() {
    let (layout, turn, part, closed) = (param(0), param(1) == 1, param(2), param(3) == 1);
    // region -> outer and inner blocks
    let (w, h, mut blocks): (usize, usize, Vec<(Vec<Block>, Vec<Block>)>) = match layout {
        // a square hole, empty or filled
        0 => (3, 3, vec![(vec![(0, 0, 3, 3)], vec![(1, 1, 2, 2)])]),
        // a hole of two cells
        1 => (4, 3, vec![(vec![(0, 0, 4, 3)], vec![(1, 1, 3, 2)])]),
        // two holes that touch at a corner
        2 => (4, 4, vec![(vec![(0, 0, 4, 4)], vec![(1, 1, 2, 2), (2, 2, 3, 3)])]),
        // two holes side by side
        3 => (5, 3, vec![(vec![(0, 0, 5, 3)], vec![(3, 1, 4, 2), (1, 1, 2, 2)])]),
        // nested rings
        _ => (5, 5, vec![(vec![(0, 0, 5, 5)], vec![(1, 1, 4, 4)]), (vec![(1, 1, 4, 4)], vec![(2, 2, 3, 3)])]),
    };
    let mut g = Grid::new(w, h, false);
    for (r, (o, i)) in blocks.iter().enumerate() { for b in o { g.fill(b.0, b.1, b.2, b.3, r); } for b in i { g.fill(b.0, b.1, b.2, b.3, NONE); } }
    let free: Vec<(usize, usize)> = match layout { 0 => vec![(1, 1)], 1 => vec![(1, 1), (2, 1)], 2 => vec![(1, 1), (2, 2)], 3 => vec![(1, 1), (3, 1)], _ => vec![(2, 2)] };
    if layout > 3 { g.fill(1, 1, 4, 4, 1); g.fill(2, 2, 3, 3, NONE); }
    let nr = blocks.len();
    for &(i, j) in free.iter() {
        let v = pick(nr as u64 + 3) as usize;
        if v == nr + 2 { continue; }
        while blocks.len() <= v { blocks.push((vec![], vec![])); }
        blocks[v].0.push((i, j, i + 1, j + 1));
        g.cell[j][i] = v;
    }
    let nrings: usize = blocks.iter().map(|b| b.0.len() + b.1.len()).sum();
    let (which, k, back) = if turn { (pick(nrings as u64) as usize, pick(4) as usize, pick(2) == 1) } else { (0, 0, false) };
    let mut n = 0;
    let mut b = TopologyBuilder::new();
    let mut ids = vec![]; let mut data = vec![];
    for (r, (o, i)) in blocks.iter().enumerate() {
        let mut make = |v: &Vec<Block>, hole: bool| {
            let mut out = vec![];
            for &(a, bb, c, d) in v.iter() {
                let p = g.block(a, bb, c, d);
                // counter-clockwise holes, as files have them
                let p = if turn && n == which { rotated(&p, k * (p.len() - 1) / 4 + k % 2, back) } else { rotated(&p, 0, hole) };
                n += 1;
                out.push(if closed && (hole || p.len() == 5) { Ring::Edges(vec![Edge(p.into_boxed_slice())].into_boxed_slice()) } else { pring(p) });
            }
            out
        };
        let (o, i) = (make(o, false), make(i, true));
        if o.len() == 0 { continue; }
        let d = bits(32) as u32;
        ids.push(r); data.push(d);
        b.add_region(Region { data: d, outer_rings: o.into_boxed_slice(), inner_rings: i.into_boxed_slice() });
    }
    let n = topogeo::normalize(&b.into_topology());
    normalized(&g, &n, &ids, &data, part);
    if part == 14 { let m = topogeo::normalize(&n); same_map(&n, &m, 40); }
    obs(n.regions.len() as u64); obs(n.edges.len() as u64);
    reach(1);
    if n.regions.len() > 1 { reach(2); }
    if n.regions.iter().any(|r| r.inner_rings.len() > 0) { reach(4); }
}
