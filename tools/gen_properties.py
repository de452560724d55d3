#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Well-formed .shp streams decode exactly",
  "Reading a well-formed Polygon .shp stream yields exactly its records, in file order, each with its record number and with one ring per part. Every ring holds exactly the points between its part's start index and the next part's start (or the end of the record), with coordinates equal bit-for-bit to the little-endian doubles in the file. After the number of bytes announced by the header has been consumed the iteration ends, and the header's bounding box and length are reported as stored.",
  ["inputs"], "every well-formed .shp byte stream: any coordinates, part tables, record numbers, record counts",
  "Tests read two fixed fixture files with one or two triangles; part-table splits, several rings per record and other coordinate bits are never exercised.",
  ["src/read/shapefile/shp.rs"],
  [("header parser", "read_shp_header"), ("record parser", "parse_polygon_record"), ("byte accounting", "ShpReader::next")],
  ["ShpReader::new", "ShpReader::next"])
p("C02", "Malformed .shp input is rejected, never a crash or invented data",
  "For every byte stream offered as a .shp file, opening and iterating it returns values or errors and never panics, aborts or reads out of bounds. A wrong magic number, version or shape type, a record whose length disagrees with its part and point counts, a part table whose starts are out of order, lie beyond the points or leave a ring fewer than four points, a record running past the length in the header, or a truncated stream is reported as an error instead of a record.",
  ["inputs"], "every byte stream, truncated or corrupted at any byte",
  "No test feeds the reader a malformed file at all.",
  ["src/read/shapefile/shp.rs"],
  [("header validation", "read_shp_header"), ("record validation", "parse_polygon_record"), ("length check", "ShpReader::next")],
  ["ShpReader::new", "ShpReader::next"])
p("C03", "Well-formed .dbf streams decode exactly",
  "Reading a well-formed .dbf stream yields exactly the announced number of records, in file order, each holding exactly the bytes of its row, and then ends. The field list has one entry per field descriptor, in order, with the name up to its first NUL, and reading a field of a record uses exactly the bytes at the sum of the preceding field lengths plus the deletion flag; looking a field up by name finds the first field of that name, and a record prints as its names and values in order.",
  ["inputs"], "every well-formed .dbf byte stream: any field table, field widths, row contents, row count",
  "Tests read fixtures with one text field; multi-field offsets, other widths and row contents are not covered.",
  ["src/read/shapefile/dbf.rs"],
  [("header parser", "read_dbf_header"), ("field table", "read_dbf_fields / parse_dbf_field"), ("row reader", "read_dbf_record, DbfReader::next")],
  ["DbfReader::new", "DbfReader::next", "DbfReader::get_field", "DbfField::read_string"])
p("C04", "Malformed .dbf input is rejected, never a crash",
  "For every byte stream offered as a .dbf file, opening it, iterating it, looking up fields, reading any field of any returned record and printing a record return values or errors and never panic, abort or read out of bounds. Impossible creation dates, headers shorter than a header, truncated headers or rows, fields that do not fit in their row and field types the library cannot read are reported as errors.",
  ["inputs"], "every byte stream, truncated or corrupted at any byte, and every field of every record",
  "No test feeds the reader a malformed file or an unusual field type.",
  ["src/read/shapefile/dbf.rs"],
  [("header validation", "read_dbf_header / read_dbf_fields"), ("field access", "DbfField::read_string"), ("display", "impl Display for DbfRecord")],
  ["DbfReader::new", "DbfReader::next", "DbfField::read_string", "DbfRecord Display"])
p("C05", "Field values are read as the format says",
  "A text field reads as its bytes with trailing spaces (and only those) removed, decoded strictly in the chosen encoding: undecodable bytes are an error, never altered text. A numeric field reads as its digits without leading padding exactly when the padded bytes spell an optionally negative decimal number, and is an error otherwise; a long field reads as the decimal text of its little-endian 32-bit value.",
  ["inputs"], "every content of a field up to the stated width, for text, numeric and long fields",
  "Tests read three fixed text values; no numeric or long field and no padding or encoding error is exercised.",
  ["src/read/shapefile/dbf.rs"],
  [("trimming", "trim_end_spaces"), ("numeric validation", "dbf_numeric_to_valid_string"), ("dispatch", "DbfField::read_string")],
  ["DbfField::read_string"])
p("C06", "Shapes and attribute rows are joined one to one, or it is an error",
  "Iterating a .shp/.dbf pair yields, as its n-th item, the rings of the n-th shape together with the n-th attribute row. If either file runs out first, an error item is produced instead of a record or a silent end; if either side fails to read an item, that item is an error; the iteration ends without error only when both files end together. Opening fails if either file fails to open.",
  ["inputs", "fault_sequences"], "every pair of record counts and every position of a read error on either side",
  "Tests only read one pair of files with equal counts and no errors.",
  ["src/read/shapefile/shapefile.rs", "src/read/shapefile/geo.rs"],
  [("lock-step join", "ShapefileReader::next"), ("error mapping", "ShapefileReader::new"), ("pass-through", "ShapefileGeoIterator::next")],
  ["ShapefileReader::new", "ShapefileReader::next", "ShapefileGeoIterator::next"])
p("C07", "Projected coordinates map onto the u32 grid faithfully",
  "Converting shapefile points to grid points scales the file's bounding box onto the full grid: the box's left edge maps to x=0 and its right edge to x=4294967295, its top (largest y) to y=0 and its bottom to y=4294967295. The mapping of each axis depends only on that coordinate, is monotone (never swaps two points), is within two grid units of exact proportional scaling, and never fails for points inside the box.",
  ["inputs"], "every bounding box and every point in it, within the stated coordinate bounds",
  "No test checks a converted coordinate.",
  ["src/read/shapefile/geo.rs"],
  [("quantizer", "ShapefileQuantizer::new / quantize")],
  ["ShapefileGeoIterator::next"])
p("C08", "Every ring of a shape becomes exactly one outer or inner ring",
  "When a shape is converted to a region, every ring appears exactly once with all its points in order: among the outer rings if its converted points run clockwise (or enclose no area), among the inner rings otherwise, keeping file order within each group. The attribute row is carried unchanged.",
  ["inputs"], "every set of rings per shape, both directions",
  "No test looks at the regions the shapefile iterator produces.",
  ["src/read/shapefile/geo.rs", "src/geo/mod.rs"],
  [("classification", "ShapefileGeoIterator::next"), ("winding order", "Ring::winding_order")],
  ["ShapefileGeoIterator::next"])
p("C09", "Area and winding order are exact on the whole coordinate range",
  "For every closed ring of u32 points, the reported doubled area is exactly the absolute value of the shoelace sum, and the winding order is clockwise exactly when that sum (in a y-down coordinate system) is not negative. The result is the same whether the ring is given as points or split into edges, does not depend on which point comes first, keeps its size and flips direction when the ring is reversed, and no coordinates make it overflow or panic.",
  ["inputs"], "every ring, with coordinates anywhere in 0..=4294967295",
  "The only geometry tests in the repository are never compiled; the others use coordinates below 101 and no test checks an area.",
  ["src/geo/mod.rs"],
  [("shoelace sum", "signed_area2"), ("sign convention", "area2_and_winding_order, Ring::area2_and_winding_order")],
  ["signed_area2", "area2", "winding_order", "area2_and_winding_order", "Ring::area2", "Ring::winding_order"])
p("C10", "Points and edges are two faithful views of the same ring",
  "A ring given as points has one edge per consecutive pair of points, in order, each joining exactly those two points. A ring given as edges has as its points the vertices met when walking the edges in order, each shared vertex listed once, ending on the starting vertex; converting back and forth keeps the walk unchanged.",
  ["inputs"], "every ring up to the stated number of edges and points, any coordinates",
  "The only tests of these conversions are under a misspelt cfg and are never compiled.",
  ["src/geo/mod.rs"],
  [("conversions", "Ring::points, Ring::edges")],
  ["Ring::points", "Ring::edges"])
p("C11", "Building a topology keeps every region's rings point for point",
  "Every region with at least one outer ring of non-zero area appears in the topology exactly once, in the order added, with its data; every other region is left out. Each ring of non-zero area appears in its region, in order and on its side (outer or inner), and walking its directed edges from its first point visits exactly the ring's points in order, apart from immediately repeated points; zero-area rings are dropped.",
  ["inputs"], "every sequence of added regions forming non-overlapping polygons, any coordinates",
  "Tests count edges of a few fixed triangles and never walk a built ring.",
  ["src/topology/build.rs"],
  [("ring conversion", "TopologyBuilder::build_rings / build_ring"), ("edge interning", "build_directed_edge"), ("assembly", "into_topology")],
  ["TopologyBuilder::add_region", "TopologyBuilder::into_topology"])
p("C12", "Built topologies share edges and cross-reference consistently",
  "In a built topology no two edges have the same points in the same or opposite order: two rings that run along the same segment, in either direction, reference the same edge. Every edge runs in canonical direction (smaller end point first; a closed edge clockwise), every ring names its region, and every edge names exactly the rings whose walks use it, once per use, with the unused slot empty.",
  ["inputs", "histories"], "every sequence of added regions forming non-overlapping polygons, any coordinates and ring directions",
  "Tests check one shared diagonal between two fixed triangles.",
  ["src/topology/build.rs", "src/topology/types.rs"],
  [("canonical direction and interning", "build_directed_edge"), ("back pointers", "into_topology")],
  ["TopologyBuilder::into_topology"])
p("C13", "Normalizing never changes what a region covers",
  "Normalizing a topology keeps the regions, their order and their data, and keeps each region's covered area: every border segment between a region and something other than itself stays a border segment of that region with the region on the same side, and segments between two polygons of the same region disappear. No segment or point appears that was not there before, and valid input never makes it panic.",
  ["inputs"], "every topology built from non-overlapping polygons, including regions of several touching polygons, holes and filled holes",
  "Tests normalize ten fixed arrangements of triangles; merged polygons enclosing a hole, partly filled holes and corner contacts are not among them.",
  ["src/normalize.rs"],
  [("merging same-region polygons", "join_adjacent_rings"), ("joining edges", "join_related_edges"), ("direction", "wind_edges"), ("rotation", "rotate_edges")],
  ["normalize"])
p("C14", "Normalized topologies are in the documented normal form",
  "After normalizing, outer rings run clockwise and inner rings counter-clockwise, rings of a region are ordered by their first point, and every ring starts at the least (leftmost, then topmost) of its nodes; a ring consisting of a single edge that touches no other border starts at its least point. No two rings of a region share an edge, two consecutive edges of a ring never separate the same pair of regions unless three or more borders meet between them, and normalizing again changes nothing.",
  ["inputs"], "every topology built from non-overlapping polygons, any ring direction, rotation and order",
  "Tests check one rule at a time on fixed triangles.",
  ["src/normalize.rs"],
  [("rotation", "rotate_edges, rotate_island_edge"), ("direction", "wind_edges"), ("joining", "join_related_edges"), ("order", "NormRing::cmp, sort")],
  ["normalize"])
p("C15", "Normalizing keeps borders shared between neighbours",
  "In a normalized topology, wherever two different regions had a border segment in common, that segment lies on one edge that both regions' rings reference, in opposite directions; a segment with a region on one side only lies on an edge with one ring. Every edge is used, edges are unique and in canonical direction, and rings, regions and edges reference each other consistently.",
  ["inputs"], "every topology built from non-overlapping polygons, including regions touching at single points",
  "Tests check the shared edge of one pair of adjacent triangles.",
  ["src/normalize.rs", "src/topology/build.rs"],
  [("joining the same way from both sides", "join_related_edges, rotate_edges"), ("interning", "build_directed_edge")],
  ["normalize"])
p("C16", "Clipping a path keeps exactly the part inside the mask",
  "Every point of a clipped path lies on the kept side of the mask or on its line. All original points strictly inside are kept, in order, with nothing between two consecutive inside points; wherever the path leaves or enters, the exit and entry points on the mask line are inserted, and points on the line are kept exactly when they border an inside point. A path with no point strictly inside clips to nothing, a path entirely inside is returned unchanged, and clipping again with the same mask changes nothing.",
  ["inputs"], "every path up to the stated length, every mask kind and position, coordinates in 0..=4294967295",
  "Tests clip nine fixed short paths, only against vertical masks.",
  ["src/clip/edge.rs", "src/clip/types.rs"],
  [("Sutherland-Hodgman step", "clip_edge"), ("side test", "ClipMask::test")],
  ["clip_edge"])
p("C17", "Mask crossing points are accurate on the whole coordinate range",
  "The point where a segment crosses a mask line lies exactly on the mask line, between the segment's end points, and within one grid unit of the exact crossing, for every pair of points on opposite sides of the mask and every mask position. No coordinates make the computation overflow or panic.",
  ["inputs"], "every segment crossing every mask, coordinates in 0..=4294967295",
  "Tests use coordinates below 101, where no product overflows.",
  ["src/clip/types.rs"],
  [("interpolation", "ClipMask::intersect")],
  ["ClipMask via clip_edge"])
p("C18", "Clipping a topology clips each region and keeps its identity",
  "A clipped topology holds exactly the regions of which some outer ring keeps a non-zero area inside the mask, in their original order with their data. Each of their rings is the original ring clipped against the mask, its gaps closed along the mask line, on the same side (outer or inner), in order and direction; rings left without area disappear. A topology entirely inside is unchanged and one entirely outside becomes empty.",
  ["inputs"], "every normalized topology of non-overlapping polygons, every mask kind and position",
  "Tests clip one triangle at a time, with Forward edges, one edge per ring and vertical masks.",
  ["src/clip/topology.rs", "src/clip/edge.rs"],
  [("ring clipping", "Builder::clip_ring"), ("region filter", "Builder::add_region"), ("edge lookup", "find_old_edge_id")],
  ["clip_topology"])
p("C19", "Clipped topologies stay consistent and shared",
  "In a clipped topology every ring is a closed walk: each directed edge starts where the previous one ends. Every ring names its region, every edge names exactly the rings that use it and is used by at least one ring and at most two, every edge lies inside the mask and runs in canonical direction, and a border that two regions shared before is still shared by them where it survives.",
  ["inputs"], "every normalized topology of non-overlapping polygons, every mask kind and position",
  "Tests check one back pointer on one clipped triangle.",
  ["src/clip/topology.rs"],
  [("gap closing", "Builder::clip_ring"), ("new edge interning", "NewEdgeSet::build_directed_edge"), ("back pointers", "Builder::into_topology")],
  ["clip_topology"])
p("C20", "Simplifying a path only drops interior points and keeps rings rings",
  "A simplified path is a subsequence of the original path that keeps its first and last points, for every threshold. A closed path stays closed and keeps at least four points (three corners) if it had them; a path with nothing to drop is returned unchanged. No path a topology can hold makes simplification panic.",
  ["inputs"], "every path up to the stated length, open or closed, every threshold, any coordinates",
  "Tests simplify six fixed paths of at most five points with coordinates below 11.",
  ["src/simplify/simplify_edge.rs"],
  [("filter", "visvalingam_whyatt"), ("ring floor", "visvalingam_whyatt, is_ring branch")],
  ["simplify"])
p("C21", "Simplification removes exactly the points Visvalingam's rule removes",
  "The result is what removing the interior point of least doubled triangle area with its remaining neighbours, again and again while that area is at most the threshold, leaves: afterwards every remaining interior point forms a triangle of doubled area above the threshold. A closed path that would fall below four points keeps its two weightiest interior points instead. Triangle areas are exact for all u32 coordinates, so translating a path does not change which points are dropped.",
  ["inputs"], "every path up to the stated length and every threshold, any coordinates",
  "Tests fix six paths; heap order, weight updates and coordinates where the products overflow are not exercised.",
  ["src/simplify/simplify_edge.rs"],
  [("triangle area", "area2"), ("priority queue", "PointHeap"), ("weight update", "recalculate_point_weight")],
  ["simplify"])
p("C22", "Simplifying a topology leaves its structure untouched",
  "Simplification changes nothing but the interior points of edges: regions, data, ring order, directed edges and directions are the same, every edge is still used by the same rings, and edges keep their end points, so every ring stays a closed walk and neighbours keep sharing one simplified border. Each edge's result depends only on that edge's own points and the threshold.",
  ["inputs"], "every topology up to the stated size and every threshold",
  "No test simplifies a topology at all, only single paths.",
  ["src/simplify/mod.rs", "src/simplify/simplify_edge.rs"],
  [("edge-wise rewrite", "simplify"), ("fixed end points", "PointHeap::from")],
  ["simplify"])
p("C23", "The build, normalize, clip, simplify pipeline accepts every valid map",
  "For every set of regions that are non-overlapping simple polygons on the grid, building a topology, normalizing it, clipping it with any masks in sequence and simplifying it with any threshold completes without panicking, and the result is again a topology with closed rings and consistent references.",
  ["inputs", "histories"], "every valid set of regions up to the stated size, every mask sequence and threshold",
  "No test runs more than one stage after building.",
  ["src/topology/build.rs", "src/normalize.rs", "src/clip/topology.rs", "src/simplify/mod.rs"],
  [("stages", "TopologyBuilder, normalize, clip_topology, simplify")],
  ["TopologyBuilder::into_topology", "normalize", "clip_topology", "simplify"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
