"""Which harnesses decide which property, with which bounds."""
STUB_NOTES = [
    "formatting of panic messages is cut off: reaching a panic is already a violation",
    "hash values are a constant (every hash collides): results may not depend on hash order",
    "the allocator never fails below 2 GB and realloc always moves",
    "rustc's and LLVM's lowering to IR at opt-level 2 is trusted; the IR is regenerated from /repo on every run",
]
def R(group, entry, *params, **kw):
    d = {"group": group, "entry": entry, "params": list(params)}
    d.update(kw)
    return d
ABS = ["non-linear terms are variables of known range while paths are explored; a counterexample is only reported after the solver confirmed it with their definitions and it was replayed"]
BIG = ["--big", "256"]
MSG = ["the text of error messages is not modelled (formatting returns an empty string)"]
ALLOC = ["buffers of announced sizes above 256 bytes are modelled as one zeroed object of which the first 16 KB are addressable"]
NB = "every assignment of the cells of a grid (3x3 and 4x2 to two regions or nothing, 3x2 to three; thorough: 3x3 to three) with arbitrary column widths and row heights, sheared grids of up to 3x1 (thorough: 2x2) with arbitrary row offsets, one cell given from any corner and in either direction, regions with holes that are empty, partly filled, filled by others or by the region itself, touching at a corner or nested"
NO = "maps of more cells; cells of other shapes"
def HOLES(p):
    return [R("norm", "h_holes", l, 1, p, 0, reach=[1, 2, 4]) for l in range(5)] + [R("norm", "h_holes", l, 0, p, 1, reach=[1, 2, 4]) for l in (0, 3)]
PROPS = {
    "C01": {
        "quick": [R("shp", "h_good", 2, 3, 5, 0), R("shp", "h_good", 3, 2, 4, 1), R("shp", "h_good", 2, 2, 4, 7)],
        "thorough": [R("shp", "h_good", 3, 3, 6, 0), R("shp", "h_good", 2, 4, 5, 3)],
        "extra": BIG,
        "bounds": "every file of up to 2 records of up to 3 rings of 4-5 points, or 3 records of up to 2 rings of 4 points (thorough: 3 x 3 x 6 and 2 x 4 x 5), arbitrary coordinates (all 2^64 bit patterns), record numbers, boxes and ignored header bytes, bytes delivered all at once or in pieces of 1 or 7",
        "outside": "larger files", "assumptions": MSG,
    },
    "C02": {
        "quick": [R("shp", "h_any", 60, 1, 1, 0, reach=[2]), R("shp", "h_any", 108, 1, 2, 0, reach=[1, 2, 3, 4, 5, 6]), R("shp", "h_any", 160, 0, 1, 0, reach=[1, 5, 6]), R("shp", "h_any", 220, 0, 1, 0, reach=[1, 7]), R("shp", "h_any", 296, 0, 1, 0, reach=[1, 6, 7]), R("shp", "h_any", 224, 0, 2, 0, reach=[1, 6, 7]), R("shp", "h_cut", 2, 0, 0, reach=[1, 2, 3]), R("shp", "h_cut", 2, 1, 5, reach=[1, 2, 3])],
        "thorough": [R("shp", "h_any", 356, 0, 1, 0, reach=[1, 7]), R("shp", "h_any", 300, 0, 2, 0, reach=[1, 7]), R("shp", "h_cut", 3, 1, 1, reach=[1, 2, 3])],
        "extra": BIG,
        "bounds": "every stream of 60 and 108 bytes, every stream of 160, 220, 224 and 296 bytes (thorough: 300, 356) behind a well-formed file header of any announced length, the first one or two records read, then the end; and every well-formed file of two records of arbitrary content that ends or fails to read at any byte",
        "outside": "longer streams; allocations of announced sizes above 8 GB", "assumptions": MSG + ALLOC,
    },
    "C03": {
        "quick": [R("dbf", "h_good", 3, 2, 3, 0, 1, reach=[1, 2]), R("dbf", "h_good", 2, 2, 2, 3, 1, reach=[1, 2]), R("dbf", "h_lookup", 2, 2, reach=[1, 2]), R("dbf", "h_lookup", 3, 1, reach=[1, 2])],
        "thorough": [R("dbf", "h_good", 4, 3, 2, 0, 0, reach=[1, 2]), R("dbf", "h_good", 2, 3, 6, 1, 0, reach=[1, 2]), R("dbf", "h_lookup", 3, 3, reach=[1, 2])],
        "extra": BIG,
        "bounds": "every file of up to 3 text fields of width 1-3 and up to 2 rows (thorough: 4 x 2 x 3, 2 x 6 x 3) with arbitrary names of 0, 3, 10 or 11 characters, row contents, dates and ignored bytes, trailing bytes or none, bytes delivered all at once or in pieces of 3; looking up every name of 1-2 characters among 2-3 fields; the printed form of every row",
        "outside": "larger files; names that are not ASCII", "assumptions": ALLOC,
    },
    "C04": {
        "quick": [R("dbf", "h_any", 40, 1, 0, 0, 99, 0, reach=[2]), R("dbf", "h_any", 65, 1, 0, 0, 99, 0, reach=[1, 2, 3]), R("dbf", "h_any", 66, 1, 0, 0, 99, 0, reach=[1, 2, 3]), R("dbf", "h_any", 98, 0, 0, 0, 99, 0, reach=[1, 2, 3]), R("dbf", "h_any", 70, 1, 0, 0, 1, 0, reach=[1, 2, 4, 5, 6, 7, 8, 9]), R("dbf", "h_any", 70, 2, 0, 1, 1, 0, reach=[1, 5]), R("dbf", "h_any", 101, 1, 0, 0, 2, 0, reach=[1, 6, 7, 9]), R("dbf", "h_cut", 2, 3, 0, 0, reach=[1, 2, 3]), R("dbf", "h_cut", 1, 2, 1, 5, reach=[1, 2, 3])],
        "thorough": [R("dbf", "h_any", 73, 1, 0, 1, 1, 0, reach=[1, 6, 7, 8, 9]), R("dbf", "h_any", 74, 3, 0, 0, 1, 0, reach=[1, 4, 5])],
        "extra": BIG,
        "bounds": "every stream of 40, 65, 66 and 98 bytes; every stream of 70 bytes with one field descriptor and of 101 bytes with two (any types, widths, row lengths and row counts; one-letter names), reading up to two rows, every field of each and printing it; and every well-formed file of 1-2 fields and 2-3 rows that ends or fails to read at any byte",
        "outside": "longer streams", "assumptions": ALLOC,
    },
    "C05": {
        "quick": [R("dbf", "h_text", 6, 0, reach=[1, 2, 3]), R("dbf", "h_text", 5, 1, reach=[1, 2, 3]), R("dbf", "h_text", 3, 2, reach=[1, 2]), R("dbf", "h_number", 4, reach=[1, 2]), R("dbf", "h_number", 6, reach=[1, 2]), R("dbf", "h_long", 4, 16, 0, 0), R("dbf", "h_long", 4, 16, 0, 1), R("dbf", "h_long", 4, 32, 0, 2), R("dbf", "h_long", 6, 32, 0, 2), R("dbf", "h_long", 3, 24, 0, 0)],
        "thorough": [R("dbf", "h_long", 4, 20, 0, 0), R("dbf", "h_long", 4, 16, 16, 0), R("dbf", "h_number", 9, reach=[1, 2]), R("dbf", "h_text", 9, 0, reach=[1, 2, 3]), R("dbf", "h_text", 7, 1, reach=[1, 2, 3])],
        "extra": BIG,
        "bounds": "every content of a text field of 6 bytes in ASCII, 5 in UTF-8 and 3 in windows-1252 (thorough: 9, 7), of a numeric field of 4 and 6 bytes (thorough: 9), and of a long field of 3, 4 and 6 bytes: for all 2^32 values against the standard library's decimal text, and spelled out digit by digit for values below 2^16 and above 2^32 - 2^16",
        "outside": "wider fields", "assumptions": ALLOC,
    },
    "C06": {
        "quick": [R("join", "h_join", 3, 3, 0, reach=[1, 2, 3, 4, 5]), R("join", "h_join", 3, 3, 1, reach=[1, 2, 3, 4, 5])],
        "thorough": [R("join", "h_join", 5, 4, 0, reach=[1, 2, 3, 4, 5]), R("join", "h_join", 4, 5, 1, reach=[1, 2, 3, 4, 5])],
        "extra": BIG,
        "bounds": "every pair of files of up to 3 shapes and up to 3 rows (thorough: 5), any of the shapes unreadable, either file cut inside any record, either header bad; arbitrary rows; through the reader itself (arbitrary coordinates) and through the region iterator",
        "outside": "more records", "assumptions": MSG,
    },
    "C07": {
        "quick": [R("join", "h_edges", 0, extra=BIG + ["--fp"]), R("join", "h_edges", 1, extra=BIG + ["--fp"]), R("join", "h_order", 0, extra=BIG + ["--fp"]), R("join", "h_order", 1, extra=BIG + ["--fp"]), R("join", "h_axes", extra=BIG + ["--fp"])] + [R("join", "h_table", a, t, extra=BIG + ["--tables"]) for a in (0, 1) for t in range(4)] + [R("join", "h_scale", 2, a, 1, 100, 1000) for a in (0, 1)],
        "thorough": [R("join", "h_edges", 0), R("join", "h_edges", 1), R("join", "h_scale", 3, 0, 1, 97, 996), R("join", "h_scale", 3, 1, 1, 100, 1000), R("join", "h_scale", 3, 0, 1, 103, 1004)],
        "extra": BIG,
        "bounds": "corners, order and independence of the axes: every box and every point in it whose coordinates are doubles below 2^977; proportion: boxes and points on small integer grids and on tables of degrees, metres and tiny boxes, all combinations",
        "outside": "proportion for other boxes",
        "assumptions": MSG + ["corners and order are shown with each rounded result as a variable that obeys facts of IEEE arithmetic (rounding is monotone and keeps signs, x/x = 1, differences of different numbers are not zero); the thorough tier shows the corners with the exact definitions"],
    },
    "C08": {
        "quick": [R("join", "h_rings", 1, 0, reach=[1, 2, 3], extra=BIG + ["--abs", "--ints"]), R("join", "h_rings", 2, 0, reach=[1, 2, 3], extra=BIG + ["--abs", "--ints"]), R("join", "h_rings", 1, 1, reach=[1, 2, 3], extra=BIG + ["--tables"]), R("join", "h_rings", 2, 1, reach=[1, 2, 3], extra=BIG + ["--tables"])],
        "thorough": [R("join", "h_rings", 3, 0, reach=[1, 2, 3], extra=BIG + ["--abs", "--ints"])],
        "extra": BIG,
        "bounds": "every shape of one ring of 4 points or of two rings of 4 and 5 points (thorough: three of 4, 5 and 6), arbitrary doubles as coordinates and box; and once more with coordinates on a 4x4 grid and exact definitions",
        "outside": "more or longer rings",
        "assumptions": MSG + ABS + ["what a coordinate is converted to is any 32-bit number (C07 says which) while paths are explored"],
    },
    "C09": {
        "quick": [R("geo", "h_area", 3, 32, 2), R("geo", "h_area", 4, 32, 3), R("geo", "h_area", 5, 32, 2), R("geo", "h_area_sym", 3, 32), R("geo", "h_area_sym", 4, 32)],
        "thorough": [R("geo", "h_area", 6, 32, 2), R("geo", "h_area", 6, 32, 4), R("geo", "h_area", 8, 32, 2), R("geo", "h_area_sym", 6, 32)],
        "bounds": "rings of 3 to 5 corners (8 in the thorough tier) with arbitrary 32-bit coordinates, every way of cutting them into 2-3 edges, every other starting point",
        "outside": "longer rings",
    },
    "C10": {
        "quick": [R("geo", "h_views", 3, 32, 2), R("geo", "h_views", 4, 32, 1), R("geo", "h_views", 5, 32, 3), R("geo", "h_views", 7, 32, 4)],
        "thorough": [R("geo", "h_views", 10, 32, 5)],
        "bounds": "rings of 3 to 7 corners (10 in the thorough tier) with arbitrary 32-bit coordinates, repeated points included, and every way of cutting them into 1-4 edges",
        "outside": "longer rings; edges of a single point",
    },
    "C11": {
        "quick": [R("topo", "h_build", 3, 32, 11, reach=[1, 2, 3])] + [R("topo", "h_build", m, 32, 11, reach=[1, 2]) for m in (0, 4, 5, 6)],
        "thorough": [R("topo", "h_build", m, 32, 11, reach=[1, 2, 3]) for m in (1, 2, 7)],
        "extra": ["--abs", "--ints"],
        "bounds": "one ring of four points (repetitions allowed), a triangle in a triangle, a triangle and a quadrilateral with a common side, rings of two-segment edges and of closed edges (thorough: also two triangles in one or two regions, three triangles), arbitrary 32-bit coordinates and data, every coincidence of points and edges",
        "outside": "more or longer rings; inputs in which a segment is used more than twice",
        "assumptions": ABS,
    },
    "C12": {
        "quick": [R("topo", "h_build", 1, 32, 12, reach=[1, 2, 3])] + [R("topo", "h_build", m, 32, 12, reach=[1, 2]) for m in (0, 4, 5, 6)],
        "thorough": [R("topo", "h_build", m, 32, 12, reach=[1, 2, 3]) for m in (2, 3, 7)],
        "extra": ["--abs", "--ints"],
        "bounds": "one ring of four points (repetitions allowed), two triangles in two regions, a triangle and a quadrilateral with a common side, rings of two-segment edges and of closed edges (thorough: also two triangles in one region, in each other, three triangles), arbitrary 32-bit coordinates, every coincidence of points and edges",
        "outside": "more or longer rings; inputs in which a segment is used more than twice",
        "assumptions": ABS,
    },
    "C13": {
        "quick": [R("norm", "h_cells", 3, 3, 2, 0, 13, 0, reach=[1, 2, 3, 4]), R("norm", "h_cells", 3, 2, 3, 0, 13, 0, reach=[1, 2, 3]), R("norm", "h_cells", 4, 2, 2, 0, 13, 0, reach=[1, 2, 3]), R("norm", "h_cells", 2, 2, 2, 0, 13, 1, reach=[1, 2, 3]), R("norm", "h_cells", 2, 1, 2, 1, 13, 1, reach=[1, 2]), R("norm", "h_cells", 3, 1, 2, 1, 13, 0, reach=[1, 2, 3])] + HOLES(13),
        "thorough": [R("norm", "h_cells", 3, 3, 3, 0, 13, 0, reach=[1, 2, 3, 4]), R("norm", "h_cells", 2, 2, 2, 1, 13, 0, reach=[1, 2, 3]), R("norm", "h_cells", 3, 2, 2, 0, 13, 1, reach=[1, 2, 3])],
        "extra": ["--abs", "--ints"], "bounds": NB, "outside": NO, "assumptions": ABS,
    },
    "C14": {
        "quick": [R("norm", "h_cells", 3, 3, 2, 0, 14, 0, reach=[1, 2, 3, 4]), R("norm", "h_cells", 3, 2, 3, 0, 14, 0, reach=[1, 2, 3]), R("norm", "h_cells", 4, 2, 2, 0, 14, 0, reach=[1, 2, 3]), R("norm", "h_cells", 2, 2, 2, 0, 14, 1, reach=[1, 2, 3]), R("norm", "h_cells", 2, 1, 2, 1, 14, 1, reach=[1, 2]), R("norm", "h_cells", 3, 1, 2, 1, 14, 0, reach=[1, 2, 3])] + HOLES(14),
        "thorough": [R("norm", "h_cells", 3, 3, 3, 0, 14, 0, reach=[1, 2, 3, 4]), R("norm", "h_cells", 2, 2, 2, 1, 14, 0, reach=[1, 2, 3]), R("norm", "h_cells", 3, 2, 2, 0, 14, 1, reach=[1, 2, 3])],
        "extra": ["--abs", "--ints"], "bounds": NB, "outside": NO, "assumptions": ABS,
    },
    "C15": {
        "quick": [R("norm", "h_cells", 3, 3, 2, 0, 15, 0, reach=[1, 2, 3, 4]), R("norm", "h_cells", 3, 2, 3, 0, 15, 0, reach=[1, 2, 3]), R("norm", "h_cells", 4, 2, 2, 0, 15, 0, reach=[1, 2, 3]), R("norm", "h_cells", 2, 2, 2, 0, 15, 1, reach=[1, 2, 3]), R("norm", "h_cells", 2, 1, 2, 1, 15, 1, reach=[1, 2]), R("norm", "h_cells", 3, 1, 2, 1, 15, 0, reach=[1, 2, 3])] + HOLES(15),
        "thorough": [R("norm", "h_cells", 3, 3, 3, 0, 15, 0, reach=[1, 2, 3, 4]), R("norm", "h_cells", 2, 2, 2, 1, 15, 0, reach=[1, 2, 3]), R("norm", "h_cells", 3, 2, 2, 0, 15, 1, reach=[1, 2, 3])],
        "extra": ["--abs", "--ints"], "bounds": NB, "outside": NO, "assumptions": ABS,
    },
    "C16": {
        "quick": [R("clip", "h_path", n, 32, k, 0, reach=[1, 2, 3]) for n in (2, 3, 4, 6) for k in range(4)] + [R("clip", "h_path", n, 32, k, 1, reach=[1, 2, 3]) for n in (4, 6) for k in range(4)],
        "thorough": [R("clip", "h_path", 8, 32, k, 0, reach=[1, 2, 3]) for k in range(4)] + [R("clip", "h_path", 8, 32, k, 1, reach=[1, 2, 3]) for k in range(4)],
        "extra": ["--abs", "--ints"],
        "bounds": "every open path of 2 to 4 and 6 points and closed path of 4 and 6 points (thorough: 8) with arbitrary 32-bit coordinates, every mask position, all four mask kinds",
        "outside": "longer paths; what the crossing points of one segment must be is C17",
        "assumptions": ABS,
    },
    "C17": {
        "quick": [R("clip", "h_cross", 32, k, e) for k in range(4) for e in (0, 1)],
        "thorough": [R("clip", "h_cross", 16, k, e) for k in range(4) for e in (0, 1)],
        "extra": ["--abs", "--ints"],
        "bounds": "every segment with arbitrary 32-bit end points on opposite sides of every mask position, all four mask kinds, both directions",
        "outside": "nothing: one segment is the whole domain",
        "assumptions": ABS,
    },
    "C18": {
        "quick": [R("clip", "h_map", s, 32, k, 18, reach=[1, 2, 3, 4]) for s in (0, 1, 2, 3) for k in range(4)] + [R("clip", "h_map", 5, 32, 2, 18, reach=[1, 2, 3, 4])],
        "thorough": [R("clip", "h_map", 5, 32, k, 18, reach=[1, 2, 3, 4]) for k in (0, 1, 3)] + [R("clip", "h_map", 4, 32, k, 18, reach=[1, 2, 3, 4]) for k in range(4)],
        "extra": ["--abs", "--ints"],
        "bounds": "maps of one ring of three or four corners, two regions with a common border, an island filling a hole, three regions around a point (thorough: also a region of two rings next to another) with arbitrary 32-bit coordinates and data, every mask position, all four mask kinds",
        "outside": "other map shapes and longer edges",
        "assumptions": ABS,
    },
    "C19": {
        "quick": [R("clip", "h_map", s, 32, k, 19, reach=[1, 2, 3, 4]) for s in (0, 1, 2, 3) for k in range(4)] + [R("clip", "h_map", 4, 32, 1, 19, reach=[1, 2, 3, 4])],
        "thorough": [R("clip", "h_map", 4, 32, k, 19, reach=[1, 2, 3, 4]) for k in (0, 2, 3)] + [R("clip", "h_map", 5, 32, k, 19, reach=[1, 2, 3, 4]) for k in range(4)],
        "extra": ["--abs", "--ints"],
        "bounds": "maps of one ring of three or four corners, two regions with a common border, an island filling a hole, a region of two rings next to another (thorough: also three regions around a point) with arbitrary 32-bit coordinates, every mask position, all four mask kinds",
        "outside": "other map shapes and longer edges; clipping an already clipped map again",
        "assumptions": ABS,
    },
    "C20": {
        "quick": [R("simp", "h_keep", 2, 32, 0), R("simp", "h_keep", 3, 32, 1), R("simp", "h_keep", 3, 32, 0, reach=[1, 2]), R("simp", "h_keep", 4, 32, 1), R("simp", "h_keep", 5, 32, 0, reach=[1, 2]), R("simp", "h_keep", 5, 32, 1, reach=[1, 2]), R("simp", "h_keep", 6, 31, 1, reach=[1, 2])],
        "thorough": [R("simp", "h_keep", 6, 32, 0, reach=[1, 2]), R("simp", "h_keep", 7, 32, 1, reach=[1, 2])],
        "extra": ["--abs", "--ints"],
        "bounds": "every open path of 2, 3 and 5 points and every closed path of 3 to 6 points (thorough: 6 open, 7 closed), arbitrary 32-bit coordinates, every 64-bit threshold",
        "outside": "longer paths",
        "assumptions": ABS,
    },
    "C21": {
        "quick": [R("simp", "h_weight", 3, reach=[1, 2], extra=[]), R("simp", "h_rule", 4, 31, 0, reach=[1, 2]), R("simp", "h_rule", 5, 31, 0, reach=[1, 2]), R("simp", "h_rule", 5, 31, 1, reach=[1, 2]), R("simp", "h_rule", 6, 31, 1, reach=[1, 2]), R("simp", "h_fixpoint", 5, 31, 0, reach=[1, 2])],
        "thorough": [R("simp", "h_rule", 6, 31, 0, reach=[1, 2]), R("simp", "h_rule", 7, 31, 1, reach=[1, 2]), R("simp", "h_weight", 5, reach=[1, 2], extra=[])],
        "extra": ["--abs", "--ints"],
        "bounds": "every open path of 3 to 5 points and every closed path of 5 and 6 points (thorough: 6 open, 7 closed), arbitrary 31-bit coordinates, every 64-bit threshold, every tie; the area of one triangle also with coordinates near both ends of the 32-bit range",
        "outside": "longer paths",
        "assumptions": ABS,
    },
    "C22": {
        "quick": [R("simp", "h_struct", 32, reach=[1, 2])],
        "extra": ["--abs", "--ints"],
        "bounds": "a map of three regions with a shared edge, an outer edge, an island in a hole and arbitrary 32-bit coordinates and data, every 64-bit threshold",
        "outside": "other map shapes",
        "assumptions": ABS,
    },
}
NOT_APPLICABLE = {}
