PRE = "use topogeo::geo::*;\n"
SIMP = '''
use topogeo::geo::Point;
use topogeo::topology::*;
fn simp(p: &[(u32, u32)], t: u64) -> Vec<(u32, u32)> {
    let e: TopoEdge<u8> = TopoEdge { points: p.iter().map(|q| Point(q.0, q.1)).collect::<Vec<_>>().into_boxed_slice(), rings: [std::ptr::null(); 2] };
    let t = topogeo::simplify(Topology { regions: vec![].into_boxed_slice(), edges: vec![e].into_boxed_slice() }, t);
    t.edges[0].points.iter().map(|q| (q.0, q.1)).collect()
}
'''
BUGS = [
 dict(id="B01", property="C09", edits=[("src/geo/mod.rs", "                for edge in edges.iter() {\n                    a += signed", "                for edge in edges.iter().filter(|e| e.0.len() > 2 || e.0[0] < e.0[1]) {\n                    a += signed")],
  needs="a ring of edges that contains a two-point edge running against the point order", what="its area and winding order ignore that edge's contribution",
  demo=PRE + '''
fn main() {
    let p = |x, y| Point(x, y);
    let e = |v: Vec<Point>| Edge(v.into_boxed_slice());
    let r = Ring::Edges(vec![e(vec![p(10, 10), p(50, 10), p(50, 50)]), e(vec![p(50, 50), p(10, 10)])].into_boxed_slice());
    assert_eq!(r.area2() as u64, 1600);
    let r = Ring::Edges(vec![e(vec![p(50, 10), p(50, 50), p(0, 20)]), e(vec![p(0, 20), p(50, 10)])].into_boxed_slice());
    assert_eq!(r.area2() as u64, 2000);
    let r = Ring::Edges(vec![e(vec![p(5, 1), p(50, 10), p(50, 50)]), e(vec![p(50, 50), p(5, 1)])].into_boxed_slice());
    assert_eq!(r.area2() as u64, 1800);
}
'''),
 dict(id="B02", property="C10", edits=[("src/geo/mod.rs", "                    .map(|(&p1, &p2)| Edge(vec![ p1, p2 ]", "                    .filter(|&(p1, p2)| p1 != p2 || points.len() < 5)\n                    .map(|(&p1, &p2)| Edge(vec![ p1, p2 ]")],
  needs="a ring of at least five points in which a point is repeated immediately", what="the ring has fewer edges than consecutive pairs of points",
  demo=PRE + '''
fn main() {
    let r = Ring::Points(vec![Point(0, 0), Point(9, 0), Point(9, 0), Point(9, 9), Point(0, 0)].into_boxed_slice());
    assert_eq!(r.edges().len(), 4);
}
'''),
 dict(id="B03", property="C21", edits=[("src/simplify/simplify_edge.rs", "                    b.weight = new_weight;\n                    self.sift_up(0, b.heap_index);", "                    b.weight = new_weight;\n                    self.sift_up(1, b.heap_index);")],
  needs="a path whose least point becomes least only after a neighbour was removed, while another point sits on top of the heap", what="a heavier point is removed before the lighter one",
  demo=SIMP + '''
// Repeatedly drop the interior point of least weight.
fn spec(p: &[(u32, u32)], t: u64) -> Vec<(u32, u32)> {
    let mut v = p.to_vec();
    loop {
        let w = |i: usize| { let (a, b, c) = (v[i - 1], v[i], v[i + 1]); ((b.0 as i64 - a.0 as i64) * (c.1 as i64 - a.1 as i64) - (c.0 as i64 - a.0 as i64) * (b.1 as i64 - a.1 as i64)).abs() as u64 };
        let m = (1..v.len() - 1).min_by_key(|&i| w(i));
        match m { Some(i) if w(i) <= t => { v.remove(i); } _ => return v }
    }
}
fn main() {
    let mut s: u64 = 12345;
    let mut r = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 40) % 1009) as u32 };
    for n in 4..9 { for _ in 0..500 {
        let p: Vec<(u32, u32)> = (0..n).map(|i| (i as u32 * 1000 + r(), r())).collect();
        let t = r() as u64 * 500;
        assert_eq!(simp(&p, t), spec(&p, t));
    } }
}
'''),
 dict(id="B04", property="C20", edits=[("src/simplify/simplify_edge.rs", "                } else if point.weight > second.weight {\n                    second = point;\n                    first_has_lower_index = true;", "                } else if point.weight > second.weight {\n                    second = point;")],
  needs="a closed path of at least five points that collapses, whose weightiest point comes before a later runner-up after an earlier swap", what="the two corners kept come out in the wrong order, so the result is not a subsequence and the ring turns over",
  demo=SIMP + '''
fn main() {
    let mut s: u64 = 99;
    let mut r = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 40) % 100) as u32 };
    for _ in 0..3000 {
        let mut p: Vec<(u32, u32)> = (0..6).map(|_| (r(), r())).collect();
        p[5] = p[0];
        if p[1..5].contains(&p[0]) || p[1] == p[3] || p[2] == p[4] || p[1] == p[4] { continue; }
        let q = simp(&p, 1 << 40);
        let mut k = 0;
        for x in &p { if k < q.len() && q[k] == *x { k += 1; } }
        assert_eq!(k, q.len(), "{:?} -> {:?}", p, q);
    }
}
'''),
 dict(id="B05", property="C22", edits=[("src/simplify/mod.rs", "        edge.points = new_points;", "        if new_points.len() > 2 || edge.rings[1].is_null() {\n            edge.points = new_points;\n        }")],
  needs="an edge shared by two rings that simplifies down to its end points", what="shared edges are simplified differently from unshared ones",
  demo='''
use topogeo::geo::*;
use topogeo::topology::*;
fn main() {
    let ring = |v: &[(u32, u32)]| Ring::Points(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice());
    let mut b = TopologyBuilder::new();
    for v in [[(0, 0), (100, 0), (51, 50), (50, 100), (0, 0)], [(100, 0), (200, 50), (50, 100), (51, 50), (100, 0)]].iter() {
        b.add_region(Region { data: 0u8, outer_rings: vec![ring(v)].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
    }
    let t = topogeo::normalize(&b.into_topology());
    let t = topogeo::simplify(t, 5000);
    for e in t.edges.iter() { if !e.rings[1].is_null() { assert_eq!(e.points.len(), 2); } }
}
'''),
]
